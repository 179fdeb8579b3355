"""P20: features change no result and only add API."""
import hashlib
import json
import mpmath
from .api import *
from .decide import flatten, texact, refute
from .build import CONFIGS, COMBOS
from .panics import private, adt_of, SKIP_CRATES
from .views import deep_deref, sources, open_iter, Iter
from .param import fmt_pieces
from .interp import NC
from . import integ, nf
from .evalt import Undecided


class Canon:
    """typed MIR of a function and of every local function it uses, with configuration-dependent numbering removed"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def ty(self, t):
        return self.p.ts(t)

    def body(self, i):
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = "@rec"
        b = self.p.bodies[i]
        if not isinstance(b, dict):
            r = "@none"
        elif not b.get("local") or "blocks" not in b:
            r = "@%s<%s>" % (b.get("path"), ",".join(self.ty(x) for x in b.get("locals", [])[:1 + b.get("argc", 0)]))
        else:
            o = [b["path"], str(b["argc"])] + [self.ty(x) for x in b["locals"]]
            for bl in b["blocks"]:
                if bl.get("cleanup"):
                    o.append("cleanup")
                    continue
                for st in bl["s"]:
                    o.append(self.any(st[:-1] if st[0] == "=" else st))
                o.append(self.term(bl["t"]))
            r = hashlib.sha256("|".join(o).encode()).hexdigest()
        self.memo[i] = r
        return r

    def term(self, t):
        k = t[0]
        if k == "call":
            return "call(%s,%s,%s,%s)" % (self.any(t[1]), self.any(t[2]), self.any(t[3]), t[4])
        if k == "switch":
            return "switch(%s,%s,%s,%s)" % (self.any(t[1]), self.ty(t[2]), t[3], t[4])
        if k == "assert":
            return "assert(%s,%s,%s,%s,%s)" % (self.any(t[1]), t[2], t[3], self.any(t[4]), t[5])
        if k == "drop":
            return "drop(%s,%s,%s)" % (self.any(t[1]), t[2], self.ty(t[3]))
        return str(t)

    def any(self, x):
        if isinstance(x, list):
            if x and x[0] == "f" and len(x) == 3:
                return "f%s" % x[1]
            if x and x[0] == "cast" and len(x) == 4:
                return "cast(%s,%s,%s)" % (x[1], self.any(x[2]), self.ty(x[3]))
            if x and x[0] == "agg" and len(x) == 3:
                k = x[1]
                if k[0] == "adt":
                    h = "%s#%s" % (self.ty(k[1]), k[2])
                elif k[0] == "closure":
                    h = self.body(k[2])
                else:
                    h = str(k[0])
                return "agg(%s,%s)" % (h, self.any(x[2]))
            return "[%s]" % ",".join(self.any(y) for y in x)
        if isinstance(x, dict):
            o = []
            for k in sorted(x):
                v = x[k]
                if k == "span" or v is None:
                    continue
                if k in ("ty", "self_ty") and isinstance(v, int):
                    o.append("%s=%s" % (k, self.ty(v)))
                elif k == "args" and isinstance(v, list) and all(isinstance(y, int) for y in v):
                    o.append("args=%s" % ",".join(self.ty(y) for y in v))
                elif k in ("inst", "id") and isinstance(v, int):
                    o.append(self.body(v))
                elif k == "static":
                    st = self.p.statics.get(v) or {}
                    o.append("static %s %s" % (v, hashlib.sha256(json.dumps(st.get("value"), sort_keys=True).encode()).hexdigest() if st.get("local") else ""))
                else:
                    o.append("%s=%s" % (k, self.any(v)))
            return "{%s}" % ",".join(o)
        return str(x)


def fkey(f):
    return f["path"]


def summary(api, f):
    """(session, args, value, values behind exclusive references, arguments)"""
    s = Session(api)
    args = s.args(f)
    muts = [(i, a) for i, (a, x) in enumerate(zip(args, f["inputs"])) if api.p.types[x]["k"] == "ref" and api.p.types[x].get("mut")]
    v = s.call(f, args)
    if v is not None:
        v = deep_deref(s, v)
    return s, v, [deep_deref(s, a) for _, a in muts], args


def sig(api, f):
    p = api.p
    return ([p.ts(x) for x in f["inputs"]], p.ts(f["output"]) if f.get("output") is not None else None, sorted(str(x) for x in f.get("preds") or []), bool(f.get("const")))


def differ(x, y):
    """a difference that rounding cannot explain"""
    if isinstance(x, float) or isinstance(y, float):
        x, y = float(x), float(y)
        if x != x or y != y:
            return (x != x) != (y != y)
        return x != y and abs(x - y) > 1e-10 * max(abs(x), abs(y))
    return x != y


def meaning(x, y):
    """a difference between real numbers that rounded constants cannot explain"""
    if x != x or y != y or not mpmath.isfinite(x) or not mpmath.isfinite(y):
        return False
    return abs(x - y) > 1e-12 * max(abs(x), abs(y)) and min(abs(x), abs(y)) > 5e-16


def integrand(api, f, args):
    """name of the integrand a function takes, if it takes one"""
    for a in args:
        try:
            n = integ.fsym(a)
        except (Undecided, AttributeError):
            continue
        if isinstance(n, str):
            return n
    return None


def same(rep, key, where, a, b, facts, seed, desc, args=None, fname=None):
    out = []
    if a is None or b is None:
        if a is b:
            return True
        return {"got": "panics" if b is None else "returns", "want": "panics" if a is None else "returns"}
    if has_top(a) or has_top(b) or not flatten(a, b, list(facts), out):
        return None
    open_ = False
    for x, y, fs in out:
        if texact(x, y, fs):
            continue
        if getattr(x, "knd", None) == "float" and nf.equal(x, y, fs):
            continue
        if fname is not None and getattr(x, "knd", None) == "float":
            # with arbitrary integrands a rounding of the node is a different value; smooth ones tell rounding from meaning
            w = integ.find_diff(y, x, fs, args, fname, seed)
        else:
            w = refute(y, x, fs, seed, differ=differ)
            if not w and getattr(x, "knd", None) == "float":
                w = refute(y, x, fs, seed, differ=meaning, mode="mp")
        if w:
            return w
        open_ = True
    return None if open_ else True


def iter_items(api, rule, f, comp):
    """length and item at a symbolic position of what an iterator-returning function yields, and both ends"""
    s, it, n, seq = open_iter(api, rule, f, comp)
    if not isinstance(it, Adt):
        return None
    im = Iter(api, it)
    out = []
    for name, extra in (("len", []), ("size_hint", []), ("nth", [var("j", "int", 0, (1 << 63))]), ("next", []), ("next_back", []), ("nth_back", [var("j", "int", 0, (1 << 63))])):
        m = im.m(name)
        if m is None:
            continue
        s1 = s.fork()
        v = s1.call(m, [s1.newref(it)] + extra)
        out.append((name, None if v is None else deep_deref(s1, v)))
    return out, s.I.facts


def is_fmt(f):
    return f["name"] == "fmt" and "core::fmt::" in str(f.get("trait_ref"))


def pieces(api, f):
    s = Session(api)
    a = s.arg(api.p.types[f["inputs"][0]]["ty"], "a")
    ps = fmt_pieces(api, f, [s.newref(a), s.newref(TopV("formatter"))], s)
    return None if s.limits() else ps


def written_apart(x, y):
    """do two sequences of written pieces certainly give different text: the same values at the same places, in different notation or between different literals"""
    if not (isinstance(x, N) and isinstance(y, N) and x.k == y.k == "tup"):
        return False

    def norm(ps):
        out = [""]
        for p in ps:
            if p.k == "lit":
                out[-1] += p.s
            elif p.k == "piece" and p.s != "unknown" and len(p.c) == 1 and isinstance(p.c[0], T):
                out += [p, ""]
            else:
                return None
        return out
    x, y = norm(x.c), norm(y.c)
    if x is None or y is None or len(x) != len(y):
        # a number against nothing but text: the number can change
        return x is not None and y is not None and len(x) + len(y) == 4 and all(isinstance(u, str) or u.c[0].op == "var" for u in x + y)
    apart = False
    for u, v in zip(x, y):
        if isinstance(u, str):
            apart |= u != v
        elif u.c[0] is not v.c[0] or u.s[1] and u.s[1] != ("inherit",) or v.s[1] and v.s[1] != ("inherit",):
            return False
        else:
            ks = {u.s[0], v.s[0]}
            if len(ks) == 2:
                if not ks <= {"display", "debug", "lower_exp", "upper_exp"} or u.c[0].knd != "float":
                    return False
                apart = True
    # different notation of a whole number, or different text around the same notation, cannot coincide
    kinds = any(not isinstance(u, str) and u.s[0] != v.s[0] for u, v in zip(x, y))
    lits = any(isinstance(u, str) and u != v for u, v in zip(x, y))
    return apart and kinds != lits


def feats(cfg):
    """features switched on, without the choice of math backend"""
    flags = CONFIGS.get(cfg) if cfg in CONFIGS else COMBOS[cfg]
    fs = set() if "--no-default-features" in flags else {"libm"}
    if "--all-features" in flags:
        fs = {"libm", "std", "serde", "rkyv", "rayon", "zerocopy"}
    if "--features" in flags:
        fs |= set(flags[flags.index("--features") + 1].split(","))
    if "rayon" in fs:
        fs.add("std")
    return fs


def callables(api):
    """every function a user can call outside generated serialization code"""
    p = api.p
    for f in p.fns:
        if f.get("inst") is None or f.get("unsafe") or not (f.get("exported") or f.get("reachable") or f.get("trait_ref")):
            continue
        if any(c in str(f.get("trait_ref")) for c in SKIP_CRATES) or "::_::" in f["path"]:
            continue
        tys = list(f["inputs"]) + ([f["self_ty"]] if f.get("self_ty") is not None else [])
        if f.get("trait_ref") and any(private(api, adt_of(p, x)) for x in tys):
            continue
        yield f


def api_names(api):
    """(kind, name) of everything a user can name or rely on in the type system"""
    out = {}
    for x in api.p.d.get("pubs", []):
        if x["kind"] not in ("Mod",):
            out[("item", x["path"])] = None
    for im in api.p.impls:
        t = api.p.types[im["self"]]
        while t["k"] == "ref":
            t = api.p.types[t["ty"]]
        if im.get("trait") and not any(c in str(im.get("crate")) for c in SKIP_CRATES) and not private(api, t.get("path")) and "::_::" not in im["ref"]:
            out[("impl", im["ref"])] = im.get("span")
    for n, a in api.adts.items():
        for tr, yes in a["auto"].items():
            if yes:
                out[("auto trait", "%s: %s" % (n, tr))] = a.get("span")
        if a.get("copy"):
            out[("impl", "%s: Copy" % n)] = a.get("span")
    return out


def run_features(rep, apis, seed):
    order = sorted(apis, key=lambda c: (c != "default", len(feats(c)), c))
    names = {c: api_names(apis[c]) for c in order}
    fns = {c: {fkey(f): f for f in callables(apis[c])} for c in order}
    canon = {c: Canon(apis[c].p) for c in order}
    for c in order:
        rep.count("configurations")
        for d in order:
            if d == c or not feats(c) - {"libm"} <= feats(d):
                continue
            rep.count("configuration pairs")
            missing = [x for x in names[c] if x not in names[d]]
            for x in missing:
                rep.bad("missing %s %s" % x, "%s %s exists in configuration %s and not in configuration %s, which has more features" % (x + (c, d)), names[c][x], {"configuration": d})
            if not missing:
                rep.ok("configuration %s offers everything configuration %s offers" % (d, c), "%d items, impls and auto traits" % len(names[c]))
            for k, f in fns[c].items():
                g = fns[d].get(k)
                if g is None:
                    rep.bad("missing %s" % k, "%s of configuration %s does not exist in configuration %s" % (k, c, d), f.get("ispan") or f.get("span"), {"configuration": d})
                elif sig(apis[c], f) != sig(apis[d], g):
                    rep.bad("signature %s" % k, "%s has another signature in configuration %s than in %s" % (k, d, c), g.get("ispan") or f.get("span"), {c: str(sig(apis[c], f))[:300], d: str(sig(apis[d], g))[:300]})
    # every function against the first configuration that has it
    base = {}
    for c in order:
        for k in fns[c]:
            base.setdefault(k, c)
    iters, itypes = {}, {}
    for c in order:
        for rule in RULES:
            for label, f, comp in sources(apis[c], rule):
                iters.setdefault(fkey(f), (rule, label, comp))
                itypes.setdefault(apis[c].p.types[f["output"]].get("path"), []).append(fkey(f))
    cache, icache, verdicts = {}, {}, {}

    def items(c, k):
        if (c, k) not in icache:
            rule, label, comp = iters[k]
            icache[c, k] = iter_items(apis[c], rule, fns[c][k], comp)
        return icache[c, k]
    for cfg in order:
        api = apis[cfg]
        for k, g in fns[cfg].items():
            b = base[k]
            if b == cfg:
                continue
            f, ref = fns[b][k], apis[b]
            rep.count("functions compared")
            where = g.get("ispan") or g.get("span")
            name = "%s [%s]" % (k, cfg)
            hb, hc = canon[b].body(f["inst"]), canon[cfg].body(g["inst"])
            if hb == hc:
                rep.ok("%s computes the same as in [%s]" % (name, b), "identical typed MIR")
                rep.count("identical bodies")
                continue
            if (k, hb, hc) in verdicts:       # the same two bodies were compared before
                judge(rep, k, name, b, cfg, where, *verdicts[k, hb, hc])
                continue
            self_it = next((adt_of(api.p, x) for x in g["inputs"] if adt_of(api.p, x) in itypes), None)
            ks = [k] if k in iters else itypes.get(self_it, []) if self_it else []
            if ks:
                rs = []
                for q in ks:
                    x, y = items(b, q), items(cfg, q)
                    if x is None or y is None:
                        rs.append(None)
                        continue
                    rs += [same(rep, k, where, u[1], v[1], x[1], seed, cfg) for u, v in zip(x[0], y[0])]
                verdicts[k, hb, hc] = (rs, [])
                judge(rep, k, name, b, cfg, where, rs, [])
                continue
            if is_fmt(f) and not f.get("derived"):
                x, y = pieces(ref, f), pieces(api, g)
                if x is None or y is None:
                    rep.open(name, "formatting not resolved")
                elif repr(x) == repr(y):
                    rep.ok("%s writes the same as in [%s]" % (name, b), "same pieces")
                elif written_apart(x, y):
                    rep.bad("result %s" % k, "%s writes something else in configuration %s than in configuration %s" % (k, cfg, b), where,
                            {"value": 1.0, "written in %s" % b: str(x)[:300], "written in %s" % cfg: str(y)[:300]})
                else:
                    rep.open(name, "pieces differ: %s / %s" % (str(x)[:150], str(y)[:150]))
                continue
            if (b, k) not in cache:
                cache[b, k] = summary(ref, f)
            s0, v0, m0, a0 = cache[b, k]
            s, v, m, _ = summary(api, g)
            facts = list(s0.I.facts)
            rs = [same(rep, k, where, v0, v, facts, seed, cfg, a0, integrand(ref, f, a0))] + [same(rep, k, where, x, y, facts, seed, cfg) for x, y in zip(m0, m)]
            if s0.ncalls() is not s.ncalls():
                rs.append(None)
            verdicts[k, hb, hc] = (rs, s.limits() + s0.limits())
            judge(rep, k, name, b, cfg, where, *verdicts[k, hb, hc])


def judge(rep, k, name, b, cfg, where, rs, limits):
    bad = [r for r in rs if isinstance(r, dict)]
    if bad:
        rep.bad("result %s" % k, "%s computes something else in configuration %s than in configuration %s" % (k, cfg, b), where, bad[0])
    elif all(r is True for r in rs):
        rep.ok("%s computes the same as in [%s]" % (name, b), "value numbers equal")
    else:
        rep.open(name, "not shown equal: %s" % limits[:2])
