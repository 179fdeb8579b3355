"""Makes and verifies planted bugs (seeded/<id>) in a scratch copy of /repo.

python3 tools/seedlib.py make ID...   regenerate from tools/seeds.py and confirm (builds, tests pass, demo fails with / passes without)
python3 tools/seedlib.py run ID...    run the property's check (or all with --all) against the planted bug in a scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DEMO = r'''#!/bin/bash
# run in the repository: exit 0 when the property holds, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
mkdir -p "$t/src" || exit 3
cp "$here/demo.rs" "$t/src/main.rs" || exit 3
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
gauss-quad = { path = "$repo", default-features = false, features = [@FEATURES@] }
@DEPS@
[profile.dev]
opt-level = 1
debug = false
[workspace]
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTC_WRAPPER
cd "$t" || exit 3
timeout 280 cargo run --offline --quiet
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(ENV, **kw))


def scratch(name):
    d = "/tmp/seed-" + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def apply_edits(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            raise SystemExit("edit does not match in %s: %r" % (f, old[:80]))
        if s.count(old) > 1:
            raise SystemExit("edit matches %d times in %s: %r" % (s.count(old), f, old[:80]))
        open(p, "w").write(s.replace(old, new))


BASE = None


def failed(d):
    """names of failing tests under both configurations"""
    out = []
    for fl in ("", "--all-features"):
        r = sh("cargo test --workspace --no-fail-fast --locked --offline %s -- --test-threads 8" % fl, d)
        out += [l for l in r.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
        if "error" in r.stderr and "could not compile" in r.stderr:
            out.append("does not compile: " + r.stderr[-1500:])
    return out


def make(seed):
    i = seed["id"]
    d = scratch(i)
    try:
        apply_edits(d, seed["edits"])
        diff = sh("git diff", d).stdout
        out = os.path.join(V, "seeded", i)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.rs"), "w").write(seed["demo"])
        feats = ", ".join('"%s"' % x for x in seed.get("features", ["libm"]))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO.replace("@FEATURES@", feats).replace("@DEPS@", seed.get("deps", "")))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=seed["property"], needs=seed["needs"], what_it_breaks=seed["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        bad = failed(d)
        if bad:
            return "TESTS FAIL: %s" % bad[:3]
        r1 = sh("bash %s/demo.sh" % out, "/repo")
        if r1.returncode != 0:
            return "DEMO FAILS ON CLEAN TREE: %s" % (r1.stdout + r1.stderr)[-800:]
        r2 = sh("bash %s/demo.sh" % out, d)
        if r2.returncode == 0:
            return "DEMO PASSES WITH BUG"
        if "error: could not compile" in r2.stderr or r2.returncode == 3:
            return "DEMO BROKEN: %s" % r2.stderr[-600:]
        return "ok (%s)" % (r2.stderr.strip().splitlines() or ["?"])[-1][:160]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(i, pids=None):
    d = "/tmp/seedrun-" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ("src", "Cargo.toml", "Cargo.lock", "benches", "README.md", ".git"):
        if os.path.exists("/repo/" + f):
            subprocess.run(["cp", "-a", "/repo/" + f, d])
    r = sh("git apply %s/seeded/%s/patch.diff" % (V, i), d)
    assert r.returncode == 0, r.stderr
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    res = []
    for p in pids or [meta["property"]]:
        r = sh("python3-vt check.py %s quick" % p, V, GQ_REPO=d, VERIF_SEED="1")
        res.append((p, r.returncode, [l.strip() for l in r.stdout.splitlines() if "violated:" in l or "ERROR" in l or "undecided:" in l][:3] + r.stderr.splitlines()[-1:]))
    shutil.rmtree(d, ignore_errors=True)
    return meta["property"], res


if __name__ == "__main__":
    from seeds import SEEDS
    from concurrent.futures import ThreadPoolExecutor
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    if sys.argv[1] == "make":
        todo = [s for s in SEEDS if not ids or s["id"] in ids]
        with ThreadPoolExecutor(4) as ex:
            for s, r in zip(todo, ex.map(make, todo)):
                print(s["id"], r, flush=True)
    else:
        todo = ids or sorted(os.listdir(os.path.join(V, "seeded")))
        pids = None
        if "--all" in sys.argv:
            pids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
        for i in todo:
            p, res = run(i, pids)
            caught = any(x[0] == p and x[1] == 1 for x in res)
            print(i, p, "CAUGHT" if caught else "MISSED", [(x[0], x[1]) for x in res if x[1] != 0])
            for x in res:
                if x[1] != 0 or x[0] == p:
                    for l in x[2]:
                        print("     ", x[0], l[:220])
