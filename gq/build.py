"""Builds the compiler driver and dumps the type-checked program of /repo's working tree."""
import fcntl
import hashlib
import json
import os
import secrets
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GQ_REPO", "/repo")
TARGET = os.environ.get("GQ_TARGET") or os.path.join(VERIF, "target")

CONFIGS = {
    "default": [],                                              # libm backend, no_std
    "all": ["--all-features"],
    "std": ["--no-default-features", "--features", "std"],
    "libm_serde": ["--features", "serde"],
    "libm_rkyv": ["--features", "rkyv"],
    "libm_zerocopy": ["--features", "zerocopy"],
    "rayon": ["--no-default-features", "--features", "rayon"],
    "std_libm": ["--features", "std"],
    "std_serde_rkyv": ["--no-default-features", "--features", "std,serde,rkyv"],
    "libm_data": ["--features", "serde,rkyv,zerocopy"],
}


# every combination of features with a math backend; those that share a backend share a build directory
COMBOS = {}
for _b, _fl in (("libm", ["libm"]), ("std", ["std"]), ("stdlibm", ["std", "libm"]), ("rayon", ["rayon"]), ("rayonlibm", ["rayon", "libm"])):
    for _m in range(8):
        _x = [f for i, f in enumerate(("serde", "rkyv", "zerocopy")) if _m >> i & 1]
        COMBOS["x%s%s" % (_b, "".join("_" + f for f in _x))] = ["--no-default-features", "--features", ",".join(_fl + _x)]


class BuildError(Exception):
    pass


def _hash_tree():
    h = hashlib.sha256()
    files = []
    for root in ("src",):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml", ".cargo/config.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            files.append(p)
    for p in files:
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    return h.hexdigest()


def sysroot():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    return r.stdout.strip()


def driver():
    """path of the driver, built when missing or out of date; returns (path, hash)"""
    src = os.path.join(VERIF, "driver", "main.rs")
    hs = hashlib.sha256(open(src, "rb").read()).hexdigest()[:24]
    os.makedirs(TARGET, exist_ok=True)
    out = os.path.join(TARGET, "gqdriver-" + hs)
    with open(os.path.join(TARGET, "driver.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run(["rustc", "+nightly", "-O", src, "-o", tmp], capture_output=True, text=True, cwd=TARGET)
            if r.returncode:
                raise BuildError("driver: " + r.stderr[-3000:])
            os.replace(tmp, out)
            for f in os.listdir(TARGET):
                if f.startswith("gqdriver-") and f != os.path.basename(out):
                    os.remove(os.path.join(TARGET, f))
    return out, hs


def dump(cfg, flags=None):
    """type-checked program of one feature configuration; returns the path of the dump"""
    drv, dh = driver()
    key = hashlib.sha256((_hash_tree() + dh + cfg + REPO).encode()).hexdigest()[:24]
    os.makedirs(os.path.join(TARGET, "dumps"), exist_ok=True)
    out = os.path.join(TARGET, "dumps", "%s-%s.json" % (cfg, key))
    share = cfg.split("_")[0] if cfg in COMBOS else cfg
    tdir = os.path.join(TARGET, "cargo-" + share)
    with open(os.path.join(TARGET, "dump-%s.lock" % share), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        # cargo's freshness cache would skip the wrapper: forget the crate itself, keep its dependencies
        for d in ("debug/.fingerprint", "debug/build"):
            p = os.path.join(tdir, d)
            if os.path.isdir(p):
                for f in os.listdir(p):
                    if f == "gauss-quad" or f.startswith("gauss-quad-"):
                        shutil.rmtree(os.path.join(p, f), ignore_errors=True)
        nonce = secrets.token_hex(8)
        tmp = out + ".tmp%d" % os.getpid()
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
                del env[k]
        env.update(LD_LIBRARY_PATH=sysroot() + "/lib", RUSTC_WORKSPACE_WRAPPER=drv, GQ_CRATE="gauss_quad", GQ_NONCE=nonce, GQ_DUMP=tmp, CARGO_TARGET_DIR=tdir, CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
        cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")] + ((CONFIGS.get(cfg) or COMBOS.get(cfg, [])) if flags is None else flags)
        r = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=TARGET)
        if r.returncode or not os.path.exists(tmp):
            raise BuildError("cargo check (%s) failed:\n%s" % (cfg, r.stderr[-4000:]))
        d = json.load(open(tmp))
        if d.get("nonce") != nonce:
            raise BuildError("stale dump")
        for f in os.listdir(os.path.join(TARGET, "dumps")):
            if f.rsplit("-", 1)[0] == cfg and f.endswith(".json"):
                os.remove(os.path.join(TARGET, "dumps", f))
        os.replace(tmp, out)
    return out


def dumps(cfgs):
    with ThreadPoolExecutor(len(cfgs)) as ex:
        return dict(zip(cfgs, ex.map(dump, cfgs)))


if __name__ == "__main__":
    cs = sys.argv[1:] or list(CONFIGS)
    for c, p in dumps(cs).items():
        print(c, p, os.path.getsize(p))
