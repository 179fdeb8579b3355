"""P17: no input accepted by the API makes the crate panic, overflow or index out of bounds; a degree whose
data cannot be allocated is refused."""
from .api import *
from .ctor import Built
from .decide import refute, texact
from .immut import value_types
from .interp import Interp
from .evalt import Ev, Undecided
from .linear import infeasible
from .param import on_texts
from .report import Report
from .witness import int_candidates
import random

MAXLEN = 1 << 59            # 2^59 pairs of 16 bytes are more than isize::MAX bytes
MAXEIG = 1 << 30            # a matrix of 2^30 x 2^30 numbers is more than isize::MAX bytes
SKIP_CRATES = ("zerocopy", "rkyv", "serde", "bytecheck")
SPECULATIVE = {"eigval", "eigvec", "srt", "fel", "flen"}


def adt_of(p, t):
    t = p.types[t]
    while t["k"] == "ref":
        t = p.types[t["ty"]]
    return t.get("path")


def private(api, path):
    """a type of the crate that users cannot name or hold"""
    return path is not None and any(a["path"] == path for a in api.p.d["adts"]) and not any(a["path"] == path for a in api.adts.values())


def entries(api):
    """functions a user can call, other than iterator methods and derived code"""
    p = api.p
    its = {api.adt(n)["path"] for n, k in value_types(api).items() if k == "iterator"}
    for f in p.fns:
        if f.get("inst") is None or f.get("derived") or f.get("unsafe") or not (f.get("exported") or f.get("reachable") or f.get("trait_ref")):
            continue
        if any(c in str(f.get("trait_ref")) for c in SKIP_CRATES):
            continue
        if any(adt_of(p, x) in its for x in f["inputs"]):
            continue
        tys = list(f["inputs"]) + ([f["self_ty"]] if f.get("self_ty") is not None else [])
        if f.get("trait_ref") and any(private(api, adt_of(p, x)) for x in tys):
            continue
        yield f


def uses_eigen(api, f, cache={}):
    return any("symmetric_eigen" in n or "SymmetricEigen" in n for n in cache.get((api.cfg, f["inst"]), ()))


def short(o):
    return "%s in %s" % (o.kind, o.fn)


def witness(o, seed):
    """inputs that satisfy the path of an obligation and break it"""
    ts = [o.goal] + list(o.pc)
    for t in ts:
        for x in subterms(t):
            if x.op == "app" and x.a[1] in SPECULATIVE or x.op == "top":
                return None
    fv = sorted(set().union(*[t.fv for t in ts]), key=lambda v: v.id)
    w = refute(o.goal, TRUE, o.pc, seed, tries=3000, floats=(1e200, 1e155, 1e-300, -1 + 2.0 ** -53, -1 + 1e-9, 40.0))
    if w:
        return w["inputs"]
    if fv and all(v.a[1] == "int" for v in fv) and len(fv) <= 2:
        a = fv[0]
        cand = sorted(set(range(1, 131)) | set(int_candidates(ts, a, lo=a.a[2] or 0, hi=a.a[3] or (1 << 64) - 1)))
        cand = [x for x in cand if (a.a[2] or 0) <= x <= (a.a[3] or (1 << 64))]
        for x in cand:
            for y in ([None] if len(fv) == 1 else sorted({j for j in list(range(0, 140)) + [x // 2 - 1, x // 2, x // 2 + 1, x - 1, x, x + 1] if j >= 0})):
                env = {a: x}
                if y is not None:
                    env[fv[1]] = y
                try:
                    e = Ev(env)
                    if all(e.ev(f) for f in o.pc) and not e.ev(o.goal):
                        return {v.a[0]: env[v] for v in fv}
                except (Undecided, ArithmeticError, ValueError, IndexError):
                    continue
    return None


def judge(rep, key, where, obls, limits, seed, msg="%s can fail: %s"):
    """one verdict per function: every obligation on every path"""
    groups = {}
    for o in obls:
        groups.setdefault((o.kind, o.fn, str(o.span)), []).append(o)
    good = True
    for (kind, fn, span), os in groups.items():
        rep.count("obligations checked", len(os))
        rest = [o for o in os if not o.ok]
        if not rest:
            continue
        good = False
        for o in rest[:8]:
            w = witness(o, seed)
            if w is not None:
                rep.bad("%s in %s" % (kind, fn), msg % (kind, fn), span if ".rustup" not in span else where, w)
                break
        else:
            rep.open("%s: %s in %s" % (key, kind, fn), "not excluded: %s at %s" % (str(rest[0].goal)[:150], span))
    if limits:
        rep.open(key, "not all code analysed: %s" % limits[:2])
    elif good:
        rep.ok(key, "%d obligations" % len(obls))


def bounded(s, f, args, hi):
    """the degree argument restricted to what can be allocated"""
    out = []
    for x, t in zip(args, f["inputs"]):
        ty = s.api.p.types[t]
        if isinstance(x, T) and x.op == "var" and x.knd == "int" and x.a[2] == 1:
            y = var(x.a[0], "int", 1, min(hi, x.a[3]))
            out.append(y)
        else:
            out.append(x)
    return out


def rule_facts(s, args):
    """a rule holds between 1 and 2^59 pairs (P12)"""
    def go(v, d=0):
        v = s.deref(v)
        if d > 4:
            return
        if isinstance(v, Lam):
            for n in v.n:
                if n.op == "var":
                    s.I.facts += [ile(ONE, n), ilt(n, I(MAXLEN))]
        elif isinstance(v, Adt):
            for fs in v.vs.values():
                for x in fs:
                    go(x, d + 1)
    for a in args:
        go(a)


def run_panics(rep, apis, seed):
    for cfg, api in apis.items():
        for f in entries(api):
            key = "%s [%s]" % (f["path"].replace("gauss_quad::", ""), cfg)
            where = f.get("ispan") or f.get("span")
            rep.count("functions")
            eig = False
            for hi in (MAXLEN - 1, MAXEIG - 1):
                s = Session(api)
                args = bounded(s, f, s.args(f), hi)
                rule_facts(s, args)
                v = s.call(f, args)
                eig = any("eigen" in str(x) for x in s.I.extcalls) or any("eigen" in str(x) for x in s.I.constructs) or eigen_in(s, v)
                if not eig:
                    break
            if v is None and f.get("output") is not None and api.p.types[f["output"]]["k"] != "never":
                obl = [o for o in s.I.obls if not o.ok]
                rep.bad("%s never returns" % f["path"], "%s panics on every input" % f["path"], where, {"inputs": "any", "panic": short(obl[0]) if obl else "?"})
                continue
            mine = Report("P17", "quick", seed)
            judge(mine, key, where, s.I.obls, s.limits(), seed, "%s in %s fails for an accepted input")
            if mine.undecided and len(args) == 1 and isinstance(s.deref(args[0]), T) and s.deref(args[0]).knd == "str":
                w = on_texts(api, f, lambda t, r, s2: dict(panic=short([o for o in s2.I.obls if not o.ok][0])) if r is None and any(not o.ok for o in s2.I.obls) else None, s.I.seen)
                if w:
                    mine.undecided = []
                    mine.bad("panic in %s" % f["path"], "%s in %s fails for an accepted input" % (w["panic"].split(" in ")[0], f["path"]), where, w)
            for n, c in mine.counts.items():
                rep.count(n, c)
            rep.proved += mine.proved
            rep.undecided += mine.undecided
            for b in mine.violations:
                rep.bad(b["key"], b["what"], b["where"], b["witness"])
        # degrees that cannot be allocated, with wrapping arithmetic
        for rule in GAUSS:
            for meth in ("new", "par_new"):
                f = api.method(rule, meth, need=(meth == "new"))
                if f is not None:
                    refused(rep, api, cfg, rule, meth, f, seed)
        iterators(rep, api, cfg, seed)


def eigen_in(s, v):
    """the value depends on an eigen-decomposition"""
    seen = set()

    def ts(x):
        if isinstance(x, T):
            yield x
        elif isinstance(x, Adt):
            for fs in x.vs.values():
                for y in fs:
                    yield from ts(y)
        elif isinstance(x, N):
            if x.k in ("ref", "box"):
                yield from ts(s.deref(x))
            else:
                for y in x.c:
                    yield from ts(y)
        elif isinstance(x, Lam):
            yield from ts(x.body)
        elif isinstance(x, IteV):
            yield from ts(x.a)
            yield from ts(x.b)
    return any(y.op == "app" and y.a[1] in SPECULATIVE for x in ts(v) for y in subterms(x))


def refused(rep, api, cfg, rule, meth, f, seed):
    key = "%s::%s of a degree too large [%s]" % (rule, meth, cfg)
    where = f.get("ispan") or f.get("span")
    rep.count("constructors with wrapping arithmetic")
    for release in (False, True):
        s = Session(api)
        s.I.release = release
        args = s.args(f, ["n", "p1", "p2"])
        n = args[0]
        v = s.call(f, args)
        if v is None:
            return          # reported above
        # without a possible overflow, wrapping arithmetic is the same arithmetic
        if all(o.ok for o in s.I.obls if o.kind.startswith("overflow")):
            break
        if eigen_in(s, v):
            rep.open(key, "overflow not excluded: %s" % [short(o) for o in s.I.obls if not o.ok][:3])
            return
    ps = s.pairs(rule, s.newref(v))
    obls = [o for o in s.I.obls if o.kind == "alloc-size-wraps"]
    judge(rep, key + ": size of the matrix", where, obls, [], seed, "%s in %s: the size computation wraps around, so memory outside the allocation is written")
    if not isinstance(ps, Lam):
        rep.open(key, "summary incomplete: %s" % s.limits()[:2])
        return
    facts = list(s.I.facts) + ([s.st.pc] if s.st.pc is not TRUE else [])
    if texact(ps.n[0], n, facts):
        rep.ok(key, "the length asked for is the degree, so the allocation is refused; never a shorter rule")
        return
    for m in int_candidates([ps.n[0]] + facts, n, lo=1, hi=(1 << 64) - 1) + [(1 << 64) - 1, (1 << 63), (1 << 62), (1 << 60)]:
        env = {n: m}
        env.update({v: 0.25 for t in facts + [ps.n[0]] for v in t.fv if v.a[1] == "float"})
        try:
            e = Ev(env)
            if all(e.ev(x) for x in facts) and e.ev(ps.n[0]) != m:
                rep.bad("%s::%s truncated" % (rule, meth), "%s::%s yields a rule of a different length for a degree that cannot be represented" % (rule, meth), where, {"degree": m, "length": e.ev(ps.n[0])})
                return
        except (Undecided, ArithmeticError, ValueError, IndexError):
            continue
    rep.open(key, "length not decided")


def iterators(rep, api, cfg, seed):
    """iterator methods on every window: the obligations met while P16's rules run"""
    from .views import run_iterators
    mine = Report("P17", "quick", seed)
    Interp.LOG = []
    try:
        run_iterators(mine, {cfg: api}, seed)
        log = Interp.LOG
    finally:
        Interp.LOG = None
    rep.count("iterator methods", mine.counts.get("iterator methods", 0))
    judge(rep, "iterator methods [%s]" % cfg, "", log, ["%s: %s" % x for x in mine.undecided][:2], seed, "%s in %s fails for a state an iterator can reach")
