"""P01-P04: what the integration methods compute."""
import math
import random
from mpmath import mpf
from .api import *
from .nf import equal, cases, Give, NF
from .linear import entails, simp, conj
from .witness import *
from .decide import apps, hashed_seqs
from .evalt import Ev, Undecided, TooBig


def fadd(a, b):
    return mk("fadd", a, b)


def fsub(a, b):
    return mk("fsub", a, b)


def fmul(a, b):
    return mk("fmul", a, b)


def fdiv(a, b):
    return mk("fdiv", a, b)


HALF, TWO = F(0.5), F(2.0)


def spec(rule, s, args):
    """(value, number of integrand calls) the specification prescribes for sequential integration"""
    def Fn(x):
        return mk("app", "float", fsym(args[-1]), x)
    k = fresh("q", "int", 0)
    if rule in GAUSS:
        ps = s.pairs(rule, args[0])
        if not isinstance(ps, Lam) or has_top(ps):
            raise Undecided("stored pairs of %s" % rule)
        n = ps.n[0]
        x, w = [s.deref(y) for y in ps.at([k]).c]
        if rule in INFINITE:
            return sumt(k, n, fmul(w, Fn(x)), F(0.0)), n
        a, b = args[1], args[2]
        h = fmul(HALF, fsub(b, a))
        return fmul(h, sumt(k, n, fmul(w, Fn(fadd(fmul(h, x), fmul(HALF, fadd(a, b))))), F(0.0))), n
    n = s.call(s.api.method(rule, "degree"), [args[0]])
    n = s.deref(n)
    if not isinstance(n, T):
        raise Undecided("degree of %s" % rule)
    a, b = args[1], args[2]
    h = fdiv(fsub(b, a), i2f(n))
    at = lambda t: fadd(a, fmul(h, t))
    if rule == "Midpoint":
        return fmul(h, sumt(k, n, Fn(at(fadd(i2f(k), HALF))), F(0.0))), n
    inner = sumt(k, isub(n, ONE), Fn(at(i2f(iadd(k, ONE)))), F(0.0))
    if rule == "Trapezoid":
        return fmul(h, fadd(fmul(HALF, fadd(Fn(a), Fn(b))), inner)), iadd(n, ONE)
    mid = sumt(k, n, Fn(at(fadd(i2f(k), HALF))), F(0.0))
    return fmul(fdiv(h, F(6.0)), fadd(fadd(Fn(a), Fn(b)), fadd(fmul(TWO, inner), fmul(F(4.0), mid)))), iadd(iscale(n, 2), ONE)


def fsym(v):
    while isinstance(v, N) and v.k == "ref":
        raise Undecided("integrand by reference")
    return v.s


def integral_facts(s, rule, args):
    """type invariants of the symbolic rule"""
    return list(s.I.facts)


RULE_OF = {}          # integrand -> rule


class Pts:
    """instances for a comparison of two integration summaries"""

    def __init__(self, terms, args, fname, seed):
        self.terms = terms
        self.args = args
        self.fname = fname
        self.rnd = random.Random(seed)
        fv = set()
        for t in terms:
            fv |= t.fv
        self.ints = sorted((v for v in fv if v.a[1] == "int"), key=lambda v: v.id)
        self.floats = sorted((v for v in fv if v.a[1] == "float"), key=lambda v: v.id)
        self.bools = [v for v in fv if v.a[1] == "bool"]
        self.seqn = sorted({x.a[1] for t in terms for x in subterms(t) if x.op == "sel"})
        self.fc = float_candidates(terms)
        self.conds = [c for c in collect(terms)[2] if not any(v.a[0].endswith("'") for v in c.fv)]
        self.lens = [v for v in self.ints if v.a[0].endswith(".len")]

    def seqs(self, specials, finite, salt, zero=False):
        """rule data: strictly ascending nodes inside the domain, positive weights; the specials occur
        among the nodes (when they fit) and the weights (zero, an underflowed weight, only on demand)"""
        lower = 0.05 if RULE_OF.get(self.fname) == "GaussLaguerre" else -3.0
        stretch = 1.0
        far = [abs(q) for q in specials if (abs(q) > 0.97 if finite else abs(q) > 4.0)]
        if far and salt % 4 < 2:
            # some special value lies out of the usual range: spread the nodes so that it occurs early
            stretch = far[salt // 4 % len(far)] if finite else far[salt // 4 % len(far)] / 2.5

        def mkseq(name):
            def base(i):
                r = random.Random("%s/%s/%s" % (name, i, salt)).random()
                if finite:
                    if stretch != 1.0:
                        return (-(1 + stretch) / 2, -stretch)[i] if i < 2 else stretch * (1 - 1 / (i - 1 + 0.2 * r)) if i < 5 else stretch + (1 - stretch) * (i - 5) / (i - 4)
                    return 0.97 * (1 - 2 / (1 + 0.3 * i + 0.2 * r))
                return (lower + 0.7 * i + 0.4 * r) * stretch

            def f(idx, path):
                i = idx[0] if isinstance(idx, tuple) else idx
                if path.endswith("0"):
                    x, y = base(i), base(i + 1)
                    for q in specials:
                        if x <= q < y:
                            return q
                    return x
                r = random.Random("%s/%s/%s/%s" % (name, idx, path, salt))
                w = r.uniform(0.1, 1.2)
                if specials and r.random() < 0.15:
                    w = abs(r.choice(specials)) or (0.0 if zero else 0.3)
                return w
            return f
        return {n: mkseq(n) for n in self.seqn}

    def envs(self, count):
        """assignments to the free variables"""
        ns = {v: int_candidates(self.terms, v, lo=v.a[2] or 0, hi=min(v.a[3] or 2 ** 64, 2600)) for v in self.ints}
        rnd = self.rnd
        pairs = [(-1.0, 1.0), (0.25, 1.75), (1.75, 0.25), (-3.5, -1.25), (0.0, 0.0), (2.0, 2.0), (0.0, 1.0), (1.0, 0.0), (-4.0, 100.0), (1e3, 1e3 + 1e-3), (-1e6, 2e6), (0.0, -2.0)]
        out = []
        total = max([len(x) for x in ns.values()] + [1])
        for i in range(max(count, total)):
            env = {}
            for v in self.ints:
                c = ns[v]
                env[v] = c[i % len(c)] if i < len(c) else rnd.choice(c[:24])
            if len(self.floats) >= 2:
                ab = pairs[i % len(pairs)] if i % 2 == 0 else (rnd.choice(self.fc), rnd.choice(self.fc)) if i % 4 == 1 else (rnd.uniform(-5, 5), rnd.uniform(-5, 5))
                for j, v in enumerate(self.floats):
                    env[v] = ab[j] if j < 2 else rnd.choice(self.fc)
            else:
                for v in self.floats:
                    env[v] = rnd.choice(self.fc)
            for v in self.bools:
                env[v] = bool(rnd.getrandbits(1))
            out.append(env)
        # both sides of every float condition
        for c in self.conds:
            if c.op not in ("flt", "fle", "feq"):
                continue
            for v in c.fv:
                if v.a[1] != "float":
                    continue
                for rep in range(3):
                    env = dict(out[rnd.randrange(len(out))])
                    for x in solve_float(c, v, env, lambda e: Ev(e, self.funcs(smooth(rep)), self.seqs((), True, 0), "f64")):
                        e2 = dict(env)
                        e2[v] = x
                        for iv in self.ints:
                            e2[iv] = rnd.choice(ns[iv][:12])
                        out.append(e2)
        return out

    def funcs(self, f):
        return {self.fname: f}


def check_value(rep, key, where, actual, want, facts, args, fname, seed, deep=False, mag=None):
    """decides actual == want for every valuation: normal forms, else a concrete difference, else open"""
    what = "%s computes the specified sum" % key
    if isinstance(actual, T) and not contains_op(actual, ("top",)):
        if equal(actual, want, facts):
            rep.ok(what, "equal normal forms" if actual is not want else "identical value numbers")
            return True
        w = find_diff(actual, want, facts, args, fname, seed, deep)
        if w:
            rep.bad(key, "%s differs from its specification" % key, where, w)
            return False
        rep.open(what, "normal forms differ but agree on every instance tried: %s" % show(actual)[:200])
        return None
    rep.open(what, "summary incomplete")
    return None


def holds(facts, ev):
    for f in facts:
        try:
            if not ev.ev(f):
                return False
        except Undecided:
            pass
    return True


def find_diff(actual, want, facts, args, fname, seed, deep=False):
    pts = Pts([actual, want], args, fname, seed)
    finite = len(pts.floats) >= 2
    tried = 0
    for i, env in enumerate(pts.envs(120 if not deep else 600)):
        for mode in ("mp", "special"):
            if mode == "special" and (i % 3 or len(env) == 0):
                continue
            try:
                specials = () if i % 2 else tuple(x for x in pts.fc if (abs(x) < 1.0 if finite else True)) + (1e-300, 1e-17, 1e-9)
                seqs = pts.seqs(specials, finite, i)
                f = smooth(i)
                big = max([1] + [v for v in env.values() if isinstance(v, int)])
                if big > 400 and mode == "special":
                    continue
                if mode == "mp":
                    m = "mp" if big < 700 else "f64"
                    ff = f if m == "mp" else (lambda x, f=f: float(f(mpf(x))) if math.isfinite(x) else x)
                    e1, e2 = Ev(env, pts.funcs(ff), seqs, m), Ev(env, pts.funcs(ff), seqs, m)
                    if not holds(facts, e1):
                        continue
                    x, y = e1.ev(actual), e2.ev(want)
                    tried += 1
                    if m == "f64" and finite and abs(y) < 1e-6:
                        tol = 1e-4
                    else:
                        tol = 1e-9 if m == "mp" else 1e-7
                    if differ(x, y, tol):
                        return dict(env={k.a[0]: v for k, v in env.items()}, integrand="smooth#%d" % (i % 3), rule_data="pseudo-random #%d" % i, specials=bool(specials), got=str(x), want=str(y))
                else:
                    sp = pts.rnd.choice([math.nan, math.nan, 0.0, 1e-320, 1e300, math.inf] + [x for x in pts.fc])
                    r = one_special(actual, want, facts, env, pts, seqs, f, sp, i)
                    if r:
                        return r
            except Undecided:
                continue
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
    return huge_diff(actual, want, facts, pts)


def one_special(actual, want, facts, env, pts, seqs, f, sp, i):
    """integrand with one exceptional value"""
    seen = []

    def rec(x):
        seen.append(float(x))
        return float(f(mpf(x))) if math.isfinite(x) else 1.0
    e = Ev(env, pts.funcs(rec), seqs, "f64")
    if not holds(facts, e):
        return None
    e.ev(want)
    if not seen:
        return None
    xs = sorted(set(seen))
    x0 = pts.rnd.choice(seen)
    gaps = [abs(x - x0) for x in xs if x != x0]
    w = min(gaps + [1.0]) * 0.4
    if w < 1e-9 * (abs(x0) + 1):
        return None

    def g(x):
        if abs(x - x0) <= w:
            return sp
        return float(f(mpf(x))) if math.isfinite(x) else 1.0
    x = Ev(env, pts.funcs(g), seqs, "f64").ev(actual)
    y = Ev(env, pts.funcs(g), seqs, "f64").ev(want)
    # how a non-finite value spreads through a sum in another order of operations is not promised; that it stays non-finite is
    if not math.isfinite(x) and not math.isfinite(y) and (x != x or y != y):
        return None
    if differ(x, y, 1e-6, scale=1e9 if sp == sp and abs(sp) > 1e100 else 0):
        return dict(env={k.a[0]: v for k, v in env.items()}, integrand="smooth#%d with value %r near %r" % (i % 3, sp, x0), rule_data="pseudo-random #%d" % i, got=str(x), want=str(y))
    return None


def huge_diff(actual, want, facts, pts):
    """degrees too large to enumerate: an integrand supported at one node; only used when the same
    sampling reproduces the full value at a small degree"""
    if len(pts.ints) != 1:
        return None
    v = pts.ints[0]
    hi = v.a[3] or 2 ** 64
    cand = [n for n in int_candidates([actual, want], v, lo=1, hi=hi) if n > 2600]
    cand = sorted(set(cand) | {x for x in (10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1) if x <= hi})[:60]

    stored = any(contains_op(y.a[2], ("sel",)) for y in subterms(want) if y.op == "app" and y.a[1] == pts.fname)

    def val(n, K, t, full):
        env = {v: n}
        for j, x in enumerate(pts.floats):
            env[x] = (0.25, 1.75)[j] if j < 2 else 0.5
        seqs = pts.seqs((), True, 7)
        if stored:
            # nodes that stay apart at any length
            def spread(g):
                return lambda idx, path: (mpf(2) * ((idx[0] if isinstance(idx, tuple) else idx) + 1) / (n + 2) - 1) * mpf("0.97") if path.endswith("0") else g(idx, path)
            seqs = {q: spread(g) for q, g in seqs.items()}
        e = Ev(env, {}, seqs, "mp")
        # position of the K-th integrand argument of the specification
        x0 = None
        for s in subterms(want):
            if s.op == "sum" and s.a[2].op and any(y.op == "app" and y.a[1] == pts.fname for y in subterms(s.a[2])):
                for y in subterms(s.a[2]):
                    if y.op == "app" and y.a[1] == pts.fname:
                        e.scopes.append((frozenset([s.a[0]]), {s.a[0]: K}, {}))
                        x0 = e.ev(y.a[2])
                        e.scopes.pop()
        if x0 is None:
            raise Undecided("no sum")
        # nodes of a stored rule are unrelated numbers: nothing but the chosen one may be met
        w = mpf(10) ** -25 if stored else mpf(1) / (mpf(n) * 8)

        def f(x):
            d = abs(x - x0)
            return mpf(1) + (w - d) / w if d < w else mpf(0)
        e = Ev(env, {pts.fname: f}, seqs, "mp")
        if not full:
            S = {q for d in range(-4, 5) for q in (K + d, n - 1 - K + d)}
            e.sample = lambda m: sorted(q for q in S if 0 <= q < m)
        if not holds(facts, e):
            raise Undecided("outside the domain")
        return e.ev(t)
    try:
        for K in (0, 17, 39):
            a, b = val(40, K, actual, True), val(40, K, actual, False)
            if differ(a, b):
                return None
            a, b = val(40, K, want, True), val(40, K, want, False)
            if differ(a, b):
                return None
        for n in cand:
            for K in {0, 1, n // 3, n // 2, n - 3, n - 2, n - 1} | {x for x in cand if x < n}:
                x, y = val(n, K, actual, False), val(n, K, want, False)
                if differ(x, y, 1e-9):
                    return dict(env={v.a[0]: n}, integrand="supported at node %d" % K, got=str(x), want=str(y))
    except (Undecided, OverflowError, ZeroDivisionError, ValueError):
        return None
    return None


def check_count(rep, key, where, nc, want, facts, fname=""):
    what = "%s calls the integrand the specified number of times" % key
    d = simp(isub(nc, want), facts)
    if d is ZERO or entails(facts, eq0(d)):
        rep.ok(what, "call count %s" % show(want))
        return
    if contains_op(d, ("top",)):
        rep.open(what, "call count unknown")
        return
    vs = sorted(d.fv, key=lambda v: v.id)
    iv = [v for v in vs if v.a[1] == "int"]
    rnd = random.Random(5)
    pts = Pts([d], [], fname, 5)
    finite = RULE_OF.get(fname) not in INFINITE
    for i in range(400):
        env = {}
        for v in vs:
            if v.a[1] == "int":
                c = int_candidates([d], v, lo=v.a[2] or 0, hi=v.a[3] or 2 ** 64)
                env[v] = c[i % len(c)] if len(iv) == 1 else rnd.choice(c)
            elif v.a[1] == "float":
                env[v] = rnd.choice(float_candidates([d]))
            else:
                env[v] = bool(rnd.getrandbits(1))
        try:
            sp = () if i % 3 == 0 else (0.0, 1e-300, 1e-17, 1e-9) + tuple(x for x in pts.fc if not finite or abs(x) < 1.0)
            e = Ev(env, apps([d]), pts.seqs(sp, finite, i, True))
            if not holds(facts, e):
                continue
            if e.ev(d) != 0:
                rep.bad(key + ":calls", "%s calls the integrand %s times instead of %s" % (key, e.ev(nc), e.ev(want)), where, {k.a[0]: x for k, x in env.items()})
                return
        except Undecided:
            continue
    rep.open(what, "call count %s vs %s" % (show(nc)[:200], show(want)[:100]))


RANGES = [(0.1, 0.7), (-0.3, 0.9), (0.2, 1.1), (0.9, -0.3), (1.1, 0.2), (-2.0 / 3, 0.1), (1.0, 1.0 + 2e-15), (0.7, 0.1), (-1e300, 1e299), (1e-290, 3e-290)]


def check_range(rep, key, where, v, facts, args, fname, seed, same):
    """no evaluation outside the closed interval between the bounds: every argument of the integrand is
    a convex combination of the bounds; refuted by an instance in IEEE arithmetic"""
    a, b = args[1], args[2]
    pts = Pts([v], args, fname, seed)
    ints = {x: sorted({q for q in int_candidates([v], x, lo=x.a[2] or 1, hi=600)} | {1, 2, 3, 7, 10, 49, 103, 343}) for x in pts.ints}
    tried = 0
    for i, (x, y) in enumerate(RANGES):
        for j in range(max([len(c) for c in ints.values()] + [1])):
            env = {q: c[j % len(c)] for q, c in ints.items()}
            for q in pts.floats:
                env[q] = x if q is a else y if q is b else 0.5
            for q in pts.bools:
                env[q] = bool((i + j) & 1)
            out = []

            def f(t):
                if not min(x, y) <= t <= max(x, y):
                    out.append(t)
                return 1.0
            try:
                e = Ev(env, pts.funcs(f), pts.seqs((), True, i), "f64")
                if not holds(facts, e):
                    continue
                e.ev(v)
                tried += 1
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
            if out:
                rep.bad(key + ":range", "%s evaluates the integrand outside the interval of integration" % key, where, dict({k.a[0]: z for k, z in env.items()}, argument=repr(out[0])))
                return
    if tried and same:
        rep.ok("%s stays inside the interval" % key, "arguments a + t*h with 0 <= t <= n by the equal normal form; rounding tried on %d instances in IEEE arithmetic" % tried)
    else:
        rep.open("%s stays inside the interval" % key, "the evaluation points are not known to be those of the formula")


def check_returns(rep, key, where, pc, facts, fname="", seed=1):
    """the call returns on every admissible input"""
    if pc is TRUE or entails(facts, pc):
        rep.ok("%s returns for every input" % key, "return condition entailed")
        return
    pts = Pts([mk("ite", pc, F(1.0), F(0.0))], [], fname, seed)
    for i, env in enumerate(pts.envs(200)):
        try:
            e = Ev(env, pts.funcs(lambda *x: 1.0), pts.seqs((), True, i), "f64")
            if holds(facts, e) and not e.ev(pc):
                rep.bad(key + ":returns", "%s does not return" % key, where, {k.a[0]: x for k, x in env.items()})
                return
        except (Undecided, OverflowError):
            continue
    rep.open("%s returns for every input" % key, "return condition %s" % show(pc)[:200])


def run_integrals(rep, apis, rules, meth, seed, deep=False):
    for cfg, api in apis.items():
        for rule in rules:
            f = api.method(rule, meth, need=(meth == "integrate"))
            if f is None:
                raise MissingAnchor("%s::%s (configuration %s)" % (rule, meth, cfg))
            s = Session(api)
            args = s.args(f)
            facts = list(s.I.facts)
            key = "%s::%s" % (rule, meth)
            where = f.get("ispan") or f.get("span")
            v = s.call(f, args)
            nc = s.ncalls()
            pc = s.st.pc
            rep.count("integration methods")
            rep.count("functions analysed", len(s.I.analysed))
            if not s.ok or v is None:
                rep.bad(key + ":returns", "%s never returns" % key, where, "every input")
                continue
            tag = "%s [%s]" % (key, cfg)
            if s.limits():
                rep.open(tag, s.limits()[0])
                if not isinstance(v, T) or contains_op(v, ("top",)):
                    continue
            s2 = s.fork()
            s2.st.pc = TRUE
            s2.st.cells[NC] = ZERO
            if meth == "integrate" or rule in GAUSS:
                want, wn = spec(rule, s2, args)
            want, wn = spec(rule, s2, args)
            if not isinstance(v, T):
                rep.open(tag, "result is not a number")
                continue
            rep.samples.append("%s = %s" % (tag, show(v)[:300])) if cfg == "all" else None
            vs = [x for x in v.fv - want.fv if not x.a[0].endswith("'")]
            extra = [x for x in subterms(v) if x.op == "sel" and x.a[1] not in {y.a[1] for y in subterms(want) if y.op == "sel"}]
            if vs or extra:
                rep.open(tag, "depends on further state of the rule: %s" % (vs or extra)[:3])
                continue
            RULE_OF[fsym(args[-1])] = rule
            f2 = facts + [pc] if pc is not TRUE else facts
            same = check_value(rep, tag_key(key, cfg), where, v, want, f2, args, fsym(args[-1]), seed, deep)
            check_count(rep, tag_key(key, cfg), where, nc, wn, f2, fsym(args[-1]))
            if rule not in GAUSS:
                check_range(rep, tag_key(key, cfg), where, v, f2, args, fsym(args[-1]), seed, same)
            check_returns(rep, tag_key(key, cfg), where, pc, facts, fsym(args[-1]), seed)


def tag_key(key, cfg):
    return "%s [%s]" % (key, cfg)
