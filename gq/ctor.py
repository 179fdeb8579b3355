"""P05-P09, P12 (part): what the constructors of the Gauss rules compute."""
import math
import random
import time
import itertools
import mpmath
from mpmath import mpf
from .api import *
from .nf import equal, cases, Give, NF, atoms_of
from .linear import entails, simp, conj
from .witness import *
from .decide import decide, texact, flatten, refute, apps, hashed_seqs, bits_differ
from .evalt import Ev, Undecided, TooBig
from .integ import fadd, fsub, fmul, fdiv
from . import val as _val


def app(n, *a):
    return mk("app", "float", n, *a)


def sqrt_(x):
    return app("sqrt", x)


def fi(i):
    return i2f(i)


class Built:
    """the value of one constructor call on symbolic or given arguments"""

    def __init__(self, api, rule, meth="new", args=None, fn=None):
        self.api, self.rule, self.meth = api, rule, meth
        self.s = Session(api)
        self.f = fn or api.method(rule, meth)
        self.where = self.f.get("ispan") or self.f.get("span")
        names = ["n", "p1", "p2"]
        self.args = args if args is not None else self.s.args(self.f, names)
        for x in self.args[:1]:
            if isinstance(x, T) and x.knd == "int":          # degrees whose pairs can be allocated
                self.s.I.facts.append(ile(x, I((1 << 59) - 1)))
        self.v = self.s.call(self.f, self.args)
        self.pc = self.s.st.pc
        self.facts = list(self.s.I.facts) + ([self.pc] if self.pc is not TRUE else [])
        self.ref = self.s.newref(self.v) if self.v is not None else None
        self.ps = None
        if self.v is not None:
            ps = self.s.pairs(rule, self.ref)
            if isinstance(ps, Lam) and not has_top(ps):
                self.ps = ps
        self.n = self.args[0] if self.args and isinstance(self.args[0], T) else None

    def pval(self, i):
        """the parameter as a number"""
        return self.args[i].vs[0][0]

    def pair(self, i):
        x = self.ps.at([i])
        if isinstance(x, N) and len(x.c) == 2:
            return x.c
        return None


def const_param(api, x):
    """a parameter value holding the constant x"""
    t = api.adt(PARAM)
    return Adt(t["ty"], t["path"], ZERO, {0: (F(x),)})


def split(ts, facts, cap=96):
    """cases of the conditions at the roots of the terms: [(facts, terms)].  Conditions are split atom
    by atom; cases with the same terms are merged (facts common to all of them)"""
    heavy = [f for f in facts if len(subterms(f)) > 40]
    light = [f for f in facts if len(subterms(f)) <= 40]
    out = []

    def reduce(fs):
        """alternatives among the facts that the other facts exclude are dropped; None: contradiction"""
        ors = [f for f in fs if f.op == "or"]
        if not ors:
            return fs
        rest = [f for f in fs if f.op != "or"]
        for f in ors:
            g = simp(f, rest)
            if g is FALSE:
                return None
            rest = rest + conj(g)
        return rest

    def go(fs, ts):
        if len(out) > cap:
            raise Give("too many cases")
        fs = reduce(fs)
        if fs is None or infeasible(fs):
            return
        ts = [simp(t, fs) for t in ts]
        for t in ts:
            if t.op == "ite":
                c = min(atoms_of(t.a[0]), key=lambda x: len(subterms(x)))
                for v in (c, bnot(c)):
                    f2 = fs + conj(v)
                    if not entails(fs, bnot(v)) and not infeasible(f2):
                        go(f2, ts)
                return
        out.append((fs, ts))
    go(light, list(ts))
    groups = {}
    for fs, ts in out:
        groups.setdefault(tuple(t.id for t in ts), []).append((fs, ts))
    res = []
    for g in groups.values():
        common = [f for f in g[0][0] if all(f in fs for fs, _ in g[1:])]
        for f in heavy:
            f = simp(f, common)
            common = common + conj(f) if len(subterms(f)) <= 40 or f is FALSE else common
        if not infeasible(common):
            res.append((common, g[0][1]))
    return res


def pinned(v, facts):
    """constant the float variable is equal to under the facts, possibly through other variables"""
    eqs = [g.a for f in facts for g in conj(f) if g.op == "feq"]
    seen, todo = {v}, [v]
    while todo:
        z = todo.pop()
        for a in eqs:
            for x, y in (a, a[::-1]):
                if x is z:
                    if y.op == "f":
                        return fconst(y)
                    if y.op == "var" and y not in seen:
                        seen.add(y)
                        todo.append(y)
    return None


def infeasible(facts):
    """contradictory equalities between a float variable and constants"""
    cs = [g for f in facts for g in conj(f)]
    if FALSE in cs:
        return True
    pins = {}
    for g in cs:
        if g.op == "feq":
            for x, y in ((g.a[0], g.a[1]), (g.a[1], g.a[0])):
                if x.op == "var" and y.op == "f":
                    c = fconst(y)
                    if pins.setdefault(x, c) != c:
                        return True
    for g in cs:
        if g.op == "not" and g.a[0].op == "feq":
            x, y = g.a[0].a
            for x, y in ((x, y), (y, x)):
                if x.op == "var" and y.op == "f" and pins.get(x) == fconst(y) and x in pins:
                    return True
    return False


# ---------------------------------------------------------------- specifications
class GW:
    """Jacobi matrix and moment of a weight function as terms"""

    def __init__(self, rule, n, ps):
        self.rule, self.n, self.ps = rule, n, ps

    def diag(self, i):
        if self.rule == "GaussHermite":
            return F(0.0)
        if self.rule == "GaussLaguerre":
            return fadd(fadd(fmul(F(2.0), fi(i)), self.ps[0]), F(1.0))
        a, b = self.ps
        s = fadd(a, b)
        m = fadd(fmul(F(2.0), fi(i)), s)
        gen = fdiv(fsub(fmul(b, b), fmul(a, a)), fmul(m, fadd(m, F(2.0))))
        return ite(ieq(i, ZERO), fdiv(fsub(b, a), fadd(s, F(2.0))), gen)

    def off2(self, i):
        """square of the entry between rows i and i+1"""
        k = fi(iadd(i, ONE))
        if self.rule == "GaussHermite":
            return fmul(F(0.5), k)
        if self.rule == "GaussLaguerre":
            return fmul(k, fadd(k, self.ps[0]))
        a, b = self.ps
        s = fadd(a, b)
        m = fadd(fmul(F(2.0), k), s)
        gen = fdiv(fmul(fmul(F(4.0), k), fmul(fadd(k, a), fmul(fadd(k, b), fadd(k, s)))), fmul(fmul(m, m), fmul(fadd(m, F(1.0)), fsub(m, F(1.0)))))
        one = fdiv(fmul(F(4.0), fmul(fadd(F(1.0), a), fadd(F(1.0), b))), fmul(fmul(m, m), fadd(m, F(1.0))))
        return ite(ieq(i, ZERO), one, gen)

    def moment(self):
        if self.rule == "GaussHermite":
            return sqrt_(F(math.pi))
        if self.rule == "GaussLaguerre":
            return app("gamma", fadd(self.ps[0], F(1.0)))
        a, b = self.ps
        s = fadd(a, b)
        return fdiv(fmul(app("pow", F(2.0), fadd(s, F(1.0))), fmul(app("gamma", fadd(a, F(1.0))), app("gamma", fadd(b, F(1.0))))), app("gamma", fadd(s, F(2.0))))

    def reference(self, env, n):
        """(nodes, weights) of the rule of degree n from the specification"""
        import numpy as np
        e = Ev(env, {}, {}, "mp")
        M = np.zeros((n, n))            # lower half
        for i in range(n):
            M[i, i] = float(e.ev(self.diag(I(i))))
            if i + 1 < n:
                M[i + 1, i] = M[i, i + 1] = math.sqrt(float(e.ev(self.off2(I(i)))))
        w, v = np.linalg.eigh(M)
        mu = float(e.ev(self.moment()))
        return w, v[0] ** 2 * mu, mu


def near(x, y, tol):
    if x != x or y != y:
        return False
    return abs(x - y) <= tol


PARAMS = (-0.5, 0.5, 0.0, 1.0, 2.0, -0.25, 0.75, -0.9, 3.5, 1.5, -1.0 / 3.0, 2.0 / 3.0, 7.0, -0.999, 12.25)


def param_points(terms, params, seed, extra=()):
    """valuations of the parameters: standard ones, singular combinations, both sides of every condition"""
    rnd = random.Random(seed)
    fc = [x for x in float_candidates(terms, extra) if -1.0 < x <= 20]
    base = list(PARAMS) + fc
    if not params:
        return [()]
    if len(params) == 1:
        pts = [(x,) for x in dict.fromkeys(base)]
    else:
        pts = [(0.25, -0.25), (-0.5, 0.5), (0.5, -0.5), (-0.25, -0.75), (-0.75, -0.25), (-0.5, -0.5), (0.0, 0.0), (0.5, 0.5), (1.0, 1.0), (0.0, 1.0), (1.0, 0.0), (-0.125, -0.875), (2.0, -0.5), (-0.9, 6.0),
               (-0.5, -0.25), (0.0, -0.5), (0.5, 0.0), (1e-9, 0.0), (0.0, 1e-9), (-0.5, -0.5 + 2 ** -53), (0.5 + 2 ** -52, 0.5), (-0.3, -0.3), (-0.3, -0.7), (0.7, -0.7)]
        pts += [(rnd.choice(base), rnd.choice(base)) for _ in range(60)]
        pts += [(x, x) for x in base[:12]] + [(x, -x) for x in base if abs(x) < 1] + [(x, -1 - x) for x in base if -1 < x < 0]
    pts = [p for p in dict.fromkeys(pts) if all(-1.0 < x < 1e300 for x in p)]
    more = []
    for c in collect(terms)[2]:
        if c.op not in ("flt", "fle", "feq") or any(v.a[0].endswith("'") or v.a[1] == "float" and v not in params for v in c.fv):
            continue
        ints = [v for v in c.fv if v.a[1] == "int"]
        for v in c.fv:
            if v in params:
                for q in range(3):
                    p = list(rnd.choice(pts))
                    env = dict(zip(params, p))
                    env.update((u, (0, 1, 4)[q]) for u in ints)
                    f64 = lambda e: Ev(e, {}, {}, "f64")
                    for x in solve_float(c, v, env, f64) + bracket(c, v, env, f64):
                        if -1.0 < x < 1e3:
                            p2 = list(p)
                            p2[params.index(v)] = x
                            more.append(tuple(p2))
    return pts + list(dict.fromkeys(more))


def entry_diff(got, want, facts, idx, n, params, seed, tol=1e-10, nmax=None):
    """an index and parameters at which two matrix entries differ, or None"""
    ts = [got, want]
    pts = param_points(ts, params, seed)
    if params:
        ends = (-1 + 2.0 ** -53, -1 + 1e-12, -1 + 1e-9, -1 + 1e-6, 1e-309, -1e-17, 40.0, 160.0)
        pts += [(x,) for x in ends] if len(params) == 1 else [(x, y) for x in ends[:6] for y in (0.25, 3.5)] + [(y, x) for x in ends[:6] for y in (-0.6, 7.0)] + [(ends[1], ends[2])]
    cand = int_candidates(ts, idx, lo=0, hi=1 << 20, base=tuple(range(0, 12)) + (16, 33, 50, 100, 255, 1000))
    rnd = random.Random(seed)
    ncand = int_candidates(ts, n, lo=1, hi=1 << 21, base=tuple(range(1, 12)) + (17, 100, 1000))
    combos = list(itertools.product(cand, pts))
    if len(combos) > 4000:
        rnd.shuffle(combos)
        combos = list(itertools.product((0, 1, 2), pts[-80:])) + combos[:4000]
    for i, p in combos:
        for d in (1, 2, rnd.choice(ncand) - i, rnd.choice(ncand)):
            nn = i + d
            if nn < 1:
                continue
            env = {idx: i, n: nn}
            env.update(zip(params, p))
            try:
                e = Ev(env, {}, {}, "mp")
                if not all(e.ev(f) for f in facts):
                    continue
                x, y = e.ev(got), e.ev(want)
                if (x != x) or not mpmath.isfinite(x) or abs(x - y) > tol * (abs(y) + mpf(10) ** -3):
                    if y == y and mpmath.isfinite(y):
                        return dict(degree=nn, index=i, parameters=[float(q) for q in p], got=mpmath.nstr(x, 17), want=mpmath.nstr(y, 17))
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
    return None


SPENT = [0.0]


class Clock:
    """time allowed for one numeric search, and for all of them together"""

    def __init__(self, deep):
        self.t0 = self.last = time.time()
        self.most = min(240 if deep else 90, max(15, (450 if deep else 240) - SPENT[0]))

    def over(self):
        now = time.time()
        SPENT[0] += now - self.last
        self.last = now
        return now - self.t0 > self.most


def large_degrees(terms, b, pts, rnd):
    """a few degrees above and below every constant of the summary that are small enough to be evaluated"""
    big = [x for x in int_candidates(terms, b.n, lo=49, hi=1100, base=())]
    if len(big) > 10:
        big = sorted(rnd.sample(big, 10))
    if any(x.op == "app" and x.a[1] == "flen" for t in terms for x in subterms(t)):
        big += [200, 420, 1000]
    return [(n, p) for n in big for p in ([pts[0]] + ([pts[1]] if len(pts) > 1 and n < 300 else []))]


def rule_diff(b, gw, params, seed, skip=None, extra_terms=(), deep=False):
    """evaluates the summary of the whole rule and the specification at small degrees and returns a difference"""
    rnd = random.Random(seed)
    terms = deepterms([b.ps.n[0]] + vleaves(b.ps.body) + list(extra_terms))
    pts = param_points(terms, params, seed)
    ncand = [x for x in int_candidates(terms, b.n, lo=1, hi=48, base=(1, 2, 3, 4, 5, 6, 7, 10, 11))]
    jobs = [(n, p) for p in pts for n in (ncand if len(pts) < 20 else rnd.sample(ncand, min(4, len(ncand))) + [1, 2, 3])]
    rnd.shuffle(jobs)
    jobs = jobs[:900 if deep else 360] + large_degrees(terms, b, pts, rnd)
    clock = Clock(deep)
    for n, p in jobs:
        if clock.over():
            break
        env = {b.n: n}
        env.update(zip(params, p))
        ref = None
        for mode in ("f64", "mp"):
            # a difference counts when it is also there in real arithmetic, i.e. is not rounding of the entries
            try:
                e = Ev(env, {}, {}, mode)
                if not all(e.ev(f) for f in b.facts):
                    r = None
                    break
                m = e.ev(b.ps.n[0])
                got = [(float(x[1]), float(x[2])) for x in (e.elem(b.ps, (i,)) for i in range(m))]
                ref = ref or gw.reference(env, n)
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                r = None
                break
            r = rule_differs(n, m, got, ref, skip, p)
            if r is None:
                break
        if r is not None:
            return dict(degree=n, parameters=list(p), **r)
    return None


def rule_differs(n, m, got, ref, skip, p):
    x, w, mu = ref
    if not math.isfinite(mu):
        return None
    if m != n:
        return dict(got="%d pairs" % m, want="%d pairs" % n)
    left_out = [i for i in range(n) if skip and skip(n, i, p)]
    order = sorted((i for i in range(n) if i not in left_out), key=lambda i: (got[i][0] != got[i][0], got[i][0]))
    sc = max(1.0, float(max(abs(x))))
    for j, i in zip((j for j in range(n) if j not in left_out), order):
        gx, gwt = got[i]
        if not near(gx, float(x[j]), 1e-7 * sc):
            return dict(index=i, got="node %r" % gx, want="node %r" % float(x[j]))
        if not near(gwt, float(w[j]), 1e-6 * abs(mu)) or (w[j] > 1e-7 * mu and not near(gwt, float(w[j]), 1e-4 * float(w[j]))):
            return dict(index=i, got="weight %r" % gwt, want="weight %r" % float(w[j]))
    return None


def subst_obj(obj, actual):
    """registry object with its formal parameters replaced"""
    m = {p: q for p, q in zip(obj[3], actual) if p is not q}
    return m


class Eig:
    """recognised structure: node = eigenvalue k of matrix M, weight = scale * (first component)^2, sorted"""
    pass


def recognise(node, weight, bv, facts):
    """Eig for sorted eigenpairs, or a reason"""
    e = Eig()
    parts = {y for y in subterms(weight) if y.op == "app" and y.a[1] == "srt"}
    if not (node.op == "app" and node.a[1] == "srt" and parts):
        return "not a sorted sequence"
    if any(node.a[2] != y.a[2] or node.a[5:] != y.a[5:] for y in parts):
        return "nodes and weights come from different sequences"
    if not all(entails(facts, ieq(y.a[4], bv)) for y in [node] + list(parts)):
        return "positions are permuted after sorting"
    obj = _val.REG.obj[node.a[2]]
    m = subst_obj(obj, node.a[5:])
    lam = vsubst(obj[1], m) if m else obj[1]
    e.sort = obj
    e.slen = lam.n[0]
    k = fresh("k", "int", 0)
    leaves = vleaves(lam.at([k]))
    a = node.a[3]
    x, w = leaves[a], rewrite(weight, lambda t: leaves[t.a[3]] if t in parts else None)
    if bv in w.fv:
        return "weights depend on the position"
    e.node_leaf, e.k = a, k
    e.order = comparator(obj, a)
    if x.op != "app" or x.a[1] != "eigval":
        return "nodes are not eigenvalues"
    vecs = {y for y in subterms(w) if y.op == "app" and y.a[1] == "eigvec"}
    if len(vecs) != 1:
        return "weights are not built from one eigenvector component"
    v = vecs.pop()
    if v.a[2] != x.a[2] or v.a[5:] != x.a[5:]:
        return "eigenvalues and vectors of different matrices"
    if v.a[3] is not ZERO and not entails(facts, ieq(v.a[3], ZERO)):
        return "component of the eigenvector is not the first"
    if x.a[4] is not v.a[4]:
        return "eigenvalue and eigenvector have different indices"
    if x.a[4] is not k:
        return "eigenpair positions are permuted"
    u = fresh("u", "float")
    wu = rewrite(w, lambda t: u if t is v else None)
    if k in wu.fv:
        return "weights depend on the position"
    e.scale = rewrite(w, lambda t: F(1.0) if t is v else None)
    e.square = factors(wu).count(u) == 2 and not any(u in f.fv for f in factors(wu) if f is not u) or equal(wu, fmul(fmul(u, u), e.scale), facts)
    mo = _val.REG.obj[x.a[2]]
    mm = subst_obj(mo, x.a[5:])
    e.M = vsubst(mo[1], mm) if mm else mo[1]
    return e


def factors(t):
    """numerator factors of a product; quotients contribute their numerators and the denominators inverted"""
    if t.op == "fmul":
        return factors(t.a[0]) + factors(t.a[1])
    if t.op == "fdiv":
        return factors(t.a[0]) + [fdiv(F(1.0), t.a[1])]
    if t.op == "app" and t.a[1] == "powi" and t.a[3] is I(2):
        return factors(t.a[2]) * 2
    return [t]


def comparator(obj, leaf):
    """'asc' when the sort comparison orders by the given component ascending"""
    d, xs, ys = obj[2]
    x, y = xs[leaf], ys[leaf]
    if d.op == "app" and d.a[1] in ("tcmp", "pcmp"):
        if d.a[2] is x and d.a[3] is y:
            return "asc"
        if d.a[2] is y and d.a[3] is x:
            return "desc"
    elif not has_top(d):
        # numbers other than NaN: less / greater follow from the order of the component
        m = {isnan(x): FALSE, isnan(y): FALSE}
        eq = {fcmp("feq", x, y): FALSE}
        lt = {fcmp("flt", x, y): TRUE, fcmp("fle", x, y): TRUE, fcmp("flt", y, x): FALSE, fcmp("fle", y, x): FALSE}
        gt = {k: bnot(v) for k, v in lt.items()}
        o = {}
        for nm, c in (("lt", lt), ("gt", gt)):
            v = ZERO if nm == "lt" else I(2)
            r = {**m, **eq, **c}
            for f in ("tcmp", "pcmp"):
                r[mk("app", "int", f, x, y)] = v
                r[mk("app", "int", f, y, x)] = isub(I(2), v)
            o[nm] = simp(rewrite(d, lambda t: r.get(t, t)), [])
        lo, hi = o["lt"], o["gt"]
        if lo is ZERO and hi is I(2):
            return "asc"
        if lo is I(2) and hi is ZERO:
            return "desc"
    return None


def misordered(obj, leaf, rule, facts=()):
    """two numbers that can be nodes of one rule and that the sort comparison does not put in ascending order, or None"""
    d, xs, ys = obj[2]
    pairs = [(-0.5, 0.25), (0.25, 0.75), (-0.75, -0.25), (0.1, 0.10001), (-1e-3, 1e-3)]
    if rule == "GaussJacobi":
        pairs += [(-1 + 1e-9, -1 + 3e-9), (-1 + 1e-13, -1 + 3e-13), (1 - 3e-9, 1 - 1e-9), (1e-9, 2e-9)]
    if rule in ("GaussHermite", "GaussLaguerre"):
        pairs += [(0.7, 2.5), (9.5, 10.25)]
    if rule == "GaussHermite":
        pairs += [(-3.5, -2.25), (-11.0, 11.0)]
    if rule == "GaussLaguerre":
        pairs = [(a, b) for a, b in pairs if a > 0] + [(1e-12, 0.5), (300.0, 300.5), (1e9, 1e9 + 3e4), (1e12, 1e12 + 1e6), (1e16, 1e16 + 1e8), (1e18, 1e18 + 1e9)]
    others = [q for k in xs if k != leaf for q in (xs[k], ys[k])] if isinstance(xs, dict) else [q for k in range(len(xs)) if k != leaf for q in (xs[k], ys[k])]
    for a, b in pairs:
        for u, v in ((0.5, 0.25), (0.25, 0.5), (1e-3, 1e-3)):
            for p, q, want in ((a, b, 0), (b, a, 2)):
                env = {xs[leaf]: p, ys[leaf]: q}
                for j, o in enumerate(others):
                    env.setdefault(o, u if j % 2 == 0 else v)
                try:
                    e = Ev(env, {}, {}, "f64")
                    got = e.ev(d)
                except (Undecided, ArithmeticError, ValueError, KeyError):
                    continue
                if got != want:
                    return dict(got="nodes %r and %r compare as %s" % (p, q, ("less", "equal", "greater")[got] if got in (0, 1, 2) else got), want=("less", "equal", "greater")[want])
    return None


def check_gw(rep, key, b, gw, params, facts, node, weight, bv, seed, defined=None):
    """one case of a constructor based on the eigenvalue problem; True / False (violation reported) / None"""
    where = b.where
    r = recognise(node, weight, bv, facts)
    if not isinstance(r, Eig):
        return "structure: %s" % r
    n = b.n
    bad = []
    if not (entails(facts, ieq(r.slen, n)) and all(entails(facts, ieq(x, n)) for x in r.M.n)):
        return "size of the eigenvalue problem"
    if not r.square:
        return "weight is not scale * component^2"
    gfacts = [f for f in facts if bv not in f.fv]
    i, j = fresh("i", "int", 0, (1 << 62)), fresh("j", "int", 0, (1 << 62))
    rng = gfacts + [ile(ZERO, i), ilt(i, n)]
    items = [("diagonal entry", simp1(r.M.at([i, i]), rng), gw.diag(i), rng),
             ("squared off-diagonal entry", None, gw.off2(i), rng + [ilt(iadd(i, ONE), n)])]
    off = simp1(r.M.at([iadd(i, ONE), i]), items[1][3])
    items[1] = ("squared off-diagonal entry", fmul(off, off), gw.off2(i), items[1][3])
    for what, got, want, fs in items:
        rep.count("matrix entry obligations")
        if equal(got, want, fs):
            if defined is not None:
                defined(rep, "%s %s" % (key, what), got, fs, params)
            w = entry_rounding(got, want, fs, i, n, params)
            if w:
                rep.bad("%s %s rounding" % (key, what), "%s: %s loses accuracy to rounding" % (key, what), where, w)
                bad.append(what)
                continue
            rep.ok("%s: %s is that of the recurrence" % (key, what), "equal normal forms for every index")
            continue
        w = entry_diff(got, want, fs, i, n, params, seed)
        if w:
            rep.bad("%s %s" % (key, what), "%s: %s is not that of the recurrence" % (key, what), where, w)
            bad.append(what)
        else:
            rep.open("%s: %s" % (key, what), "normal forms differ: %s" % show(got)[:300])
    # remaining lower triangle
    z = simp1(r.M.at([i, j]), rng + [ile(ZERO, j), ilt(iadd(j, ONE), i)])
    if z.op == "f" and fconst(z) == 0.0:
        rep.ok("%s: other entries are zero" % key, "constant")
    else:
        w = None
        for ii in range(2, 9):
            for jj in range(0, ii - 1):
                w = w or entry_diff(subst(z, {i: I(ii), j: I(jj)}), F(0.0), [subst(f, {i: I(ii)}) for f in rng], fresh("u", "int", 0, 1), n, params, seed)
        if w:
            rep.bad("%s zero entries" % key, "%s: the matrix is not tridiagonal" % key, where, w)
        else:
            rep.open("%s: other entries are zero" % key, show(z)[:200])
    rep.count("moments")
    if equal(r.scale, gw.moment(), gfacts):
        if defined is not None:
            defined(rep, "%s moment" % key, r.scale, gfacts, params)
        w = entry_rounding(r.scale, gw.moment(), gfacts, fresh("u", "int", 0, 1), n, params)
        if w:
            rep.bad("%s moment rounding" % key, "%s: the moment that scales the weights loses accuracy to rounding" % key, where, w)
            bad.append("moment")
        else:
            rep.ok("%s: the weights are scaled by the zeroth moment" % key, "equal normal forms")
    else:
        w = entry_diff(r.scale, gw.moment(), gfacts, fresh("u", "int", 0, 1), n, params, seed)
        if w:
            rep.bad("%s moment" % key, "%s: the weights are not scaled by the zeroth moment" % key, where, w)
            bad.append("moment")
        else:
            rep.open("%s: moment" % key, "normal forms differ: %s" % show(r.scale)[:300])
    return False if bad else True


def simp1(t, facts):
    if isinstance(t, T):
        return simp(t, facts)
    return top("float")


def run_recurrence(rep, apis, rules, seed, deep=False, defined=None):
    """P06, P07"""
    for cfg, api in apis.items():
        for rule in rules:
            key = "%s::new" % rule
            tag = "%s [%s]" % (key, cfg)
            b = Built(api, rule)
            rep.count("constructors")
            rep.count("functions analysed", len(b.s.I.analysed))
            if b.v is None:
                rep.bad(tag, "%s never returns" % key, b.where, "every input")
                continue
            if b.ps is None:
                rep.open(tag, "summary incomplete: %s" % b.s.limits()[:2])
                continue
            params = [b.pval(i) for i in range(1, len(b.args))]
            gw = GW(rule, b.n, params)
            bv = fresh("i", "int", 0, 1 << 62)
            pr = b.pair(bv)
            if pr is None or not all(isinstance(x, T) for x in pr):
                rep.open(tag, "pairs are not (node, weight)")
                continue
            facts = b.facts + [ile(ZERO, bv), ilt(bv, b.ps.n[0])]
            skip = None
            if rule == "GaussJacobi":
                skip = lambda n, i, p: n % 2 == 1 and n > 1 and i == n // 2 and p[0] != p[1]
            unsolved = []
            try:
                parts = split([b.ps.n[0], pr[0], pr[1]], facts)
            except Give:
                parts = []
                unsolved.append("too many cases")
            for q, (fs, (n_, x, w)) in enumerate(parts):
                pins = [pinned(p, fs) for p in params]
                if rule == "GaussJacobi" and all(c is not None for c in pins):
                    delegated(rep, tag, api, b, tuple(pins), fs, n_, x, w, bv, unsolved)
                    continue
                if not entails(fs, ieq(n_, b.n)):
                    unsolved.append("number of pairs")
                    continue
                if entails(fs, ieq(b.n, ONE)):
                    ok = True
                    for nm, got, want in (("node", x, gw.diag(ZERO)), ("weight", w, gw.moment())):
                        if equal(got, want, fs):
                            rep.ok("%s: %s of degree 1" % (tag, nm), "equal normal forms")
                            if defined is not None:
                                defined(rep, "%s degree 1 %s" % (tag, nm), got, fs, params)
                        elif got.op == "app" and got.a[1] == "srt":
                            ok = None
                        else:
                            ok = False
                    rep.count("degree-1 cases")
                    if ok:
                        continue
                    if ok is False:
                        unsolved.append("degree-1 value")
                        continue
                mid = rule == "GaussJacobi" and x.op == "f" and fconst(x) == 0.0
                if mid:
                    # the middle node of odd degrees is overwritten with zero
                    odd = entails(fs, ieq(irem(b.n, I(2)), ONE)) and entails(fs, ieq(bv, idiv(b.n, I(2))))
                    if odd:
                        sym = [f for f in fs if f.op == "feq" and set(f.a) == set(params)]
                        if sym:
                            rep.ok("%s: middle node of odd degrees for alpha = beta" % tag, "zero by symmetry")
                        else:
                            rep.bad("GaussJacobi::new middle node", "GaussJacobi::new stores 0.0 as middle node of odd degrees although alpha != beta", b.where,
                                    dict(degree=3, parameters=[1.0, 0.0], got="node 0.0", want="node -0.18107..."))
                        # the weight at that position is still the eigenvector's
                        x = rebuilt_node(w, bv)
                        if x is None:
                            unsolved.append("weight of the middle node")
                            continue
                    else:
                        unsolved.append("node overwritten outside the middle of odd degrees")
                        continue
                r = check_gw(rep, tag, b, gw, params, fs, x, w, bv, seed, defined)
                if isinstance(r, str):
                    unsolved.append(r)
            if unsolved:
                w = rule_diff(b, gw, params, seed, skip, deep=deep)
                if w:
                    rep.bad("%s rule" % tag, "%s does not produce the Gauss rule of its weight function" % key, b.where, w)
                else:
                    rep.open("%s rule" % tag, "; ".join(sorted(set(unsolved))))
            else:
                rep.ok("%s: every case is the Gauss rule" % tag, "%d cases" % len(parts))


def rebuilt_node(w, bv):
    """the sorted node that belongs to a sorted weight"""
    w = next((y for y in subterms(w) if y.op == "app" and y.a[1] == "srt"), None)
    if w is None:
        return None
    obj = _val.REG.obj[w.a[2]]
    leaves = vleaves(obj[1].body)
    for i, l in enumerate(leaves):
        if l.op == "app" and l.a[1] == "eigval":
            return mk("app", "float", "srt", w.a[2], i, *w.a[4:])
    return None


SPECIAL = {(0.0, 0.0): "GaussLegendre", (-0.5, -0.5): "GaussChebyshevFirstKind", (0.5, 0.5): "GaussChebyshevSecondKind"}
_other = {}


def other_pairs(api, rule, n):
    k = (id(api), rule)
    if k not in _other:
        _other[k] = Built(api, rule)
    b = _other[k]
    ps = vsubst(b.ps, {b.n: n}) if b.ps is not None else None
    return ps


def as_delegated(b, bv, params, pins, y):
    """the pairs with these parameters put in are the pairs y of the other rule"""
    x, w = b.pair(bv)
    facts = b.facts + [ile(ZERO, bv), ilt(bv, b.n)]
    for signs in itertools.product(*[((0.0, -0.0) if p == 0 else (p,)) for p in pins]):
        m = {v: F(c) for v, c in zip(params, signs)}
        fs = [subst(f, m) for f in facts]
        if not (texact(simp(subst(x, m), fs), simp(y[0], fs), fs) and texact(simp(subst(w, m), fs), simp(y[1], fs), fs)):
            return False
    return True


def delegated(rep, tag, api, b, pins, fs, n_, x, w, bv, unsolved):
    if pins not in SPECIAL:
        unsolved.append("special case for parameters %s" % (pins,))
        return
    ps = other_pairs(api, SPECIAL[pins], b.n)
    rep.count("delegated cases")
    if ps is not None:
        y = ps.at([bv]).c
        if entails(fs, ieq(n_, ps.n[0])) and texact(x, simp(y[0], fs), fs) and texact(w, simp(y[1], fs), fs):
            rep.ok("%s: parameters %s" % (tag, pins), "the pairs of %s (decided for that rule)" % SPECIAL[pins])
            return
        if entails(fs, ieq(n_, ps.n[0])) and as_delegated(b, bv, [b.pval(1), b.pval(2)], pins, y):
            rep.ok("%s: parameters %s" % (tag, pins), "the pairs of %s (decided for that rule)" % SPECIAL[pins])
            return
    unsolved.append("special case for parameters %s" % (pins,))


# ---------------------------------------------------------------- P05
def run_par_new(rep, apis, seed):
    for cfg, api in apis.items():
        for rule in ("GaussLegendre", "GaussChebyshevFirstKind", "GaussChebyshevSecondKind"):
            f = api.method(rule, "par_new", need=False)
            if f is None:
                raise MissingAnchor("%s::par_new (configuration %s)" % (rule, cfg))
            b = Built(api, rule)
            c = Built(api, rule, "par_new", args=b.args)
            rep.count("parallel constructors")
            rep.count("functions analysed", len(b.s.I.analysed | c.s.I.analysed))
            tag = "%s::par_new [%s]" % (rule, cfg)
            if b.ps is None or c.ps is None:
                rep.open(tag, "summary incomplete %s" % (b.s.limits() + c.s.limits())[:2])
                continue
            facts = b.facts + ([c.pc] if c.pc is not TRUE else [])
            lo = list(range(1, 9)) + [50, 99, 100, 101, 102, 103, 150, 151, 1000, 4097]
            same_rule(rep, tag, "%s::par_new builds the rule %s::new builds" % (rule, rule), c.where, c.ps, b.ps, facts, seed, b.n)
            check_fields(rep, tag, c, b, facts, seed)


def check_fields(rep, tag, c, b, facts, seed):
    """any other field of the rule also agrees"""
    if isinstance(b.v, Adt) and isinstance(c.v, Adt):
        for i, (x, y) in enumerate(zip(b.v.vs[0], c.v.vs[0])):
            if isinstance(x, N) and x.k == "box":
                continue
            decide(rep, tag + " field %d" % i, "%s: field %d agrees" % (tag, i), c.where, y, x, facts, seed)


def same_rule(rep, key, what, where, got, want, facts, seed, n, params=()):
    """exact equality of two pair sequences"""
    out = []
    if not flatten(got, want, list(facts), out):
        rep.open(what, "different shapes")
        return None
    good = True
    for a, b, fs in out:
        if not texact(a, b, fs):
            good = False
            break
    if good:
        rep.ok(what, "identical value numbers for every degree and index")
        return True
    w = seq_refute(got, want, facts, n, seed, params)
    if w:
        rep.bad(key, what + " fails", where, w)
        return False
    rep.open(what, "not shown, no counterexample")
    return None


def seq_refute(got, want, facts, n, seed, params=()):
    ts = [got.n[0], want.n[0]] + vleaves(got.body) + vleaves(want.body)
    cand = [x for x in int_candidates(ts, n, lo=1, hi=5000, base=tuple(range(1, 14)) + (50, 51, 99, 100, 101, 102, 103, 150, 151, 1000, 1001, 4097))]
    rnd = random.Random(seed)
    pts = param_points(ts, list(params), seed) if params else [()]
    for m in cand:
        for p in (pts if len(pts) < 4 else rnd.sample(pts, 4)):
            env = {n: m}
            env.update(zip(params, p))
            try:
                e = Ev(env, {}, {}, "f64")
                if not all(e.ev(f) for f in facts):
                    continue
                x, y = e.ev(got.n[0]), e.ev(want.n[0])
                if x != y:
                    return dict(degree=m, got="%d pairs" % x, want="%d pairs" % y)
                idx = range(m) if m <= 160 else sorted({0, 1, 2, m - 1, m - 2, m // 2, m // 2 - 1, m // 2 + 1} | {rnd.randrange(m) for _ in range(40)})
                for i in idx:
                    u, v = e.elem(got, (i,)), e.elem(want, (i,))
                    for q in (1, 2):
                        if bits_differ(u[q], v[q]):
                            return dict(degree=m, index=i, got=repr(u[1:]), want=repr(v[1:]))
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
    for m in [x for x in int_candidates(ts, n, lo=5001, hi=1 << 62)][:40]:
        env = {n: m}
        idx = {0, 1, m // 2, m - 2, m - 1} | {rnd.randrange(m) for _ in range(12 if params else 60)} | {rnd.randrange(m // 2, m // 2 + 50) for _ in range(4)} | {rnd.randrange(max(0, m - 300), m) for _ in range(4)} | {rnd.randrange(min(300, m)) for _ in range(4)}
        t0 = time.time()
        for i in sorted(idx):
            if time.time() - t0 > 4 or i >= m:
                break
            try:
                e = Ev(env, {}, {}, "f64")
                if not all(e.ev(f) for f in facts):
                    continue
                if e.ev(got.n[0]) != e.ev(want.n[0]):
                    return dict(degree=m, got="%d pairs" % e.ev(got.n[0]), want="%d pairs" % e.ev(want.n[0]))
                u, v = e.elem(got, (i,)), e.elem(want, (i,))
                if bits_differ(u[1], v[1]) or bits_differ(u[2], v[2]):
                    return dict(degree=m, index=i, got=repr(u[1:]), want=repr(v[1:]))
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
    return None


# ---------------------------------------------------------------- P08
def run_jacobi_special(rep, apis, seed):
    for cfg, api in apis.items():
        jac = api.method("GaussJacobi", "new")
        al, be = api.method("GaussJacobi", "alpha"), api.method("GaussJacobi", "beta")

        def reported(s, v, f):
            x = s.deref(s.call(f, [s.newref(v)]))
            return x.vs[0][0] if isinstance(x, Adt) and x.path == api.adt(PARAM)["path"] else None
        for (p, q), rule in sorted(SPECIAL.items()):
            tag = "GaussJacobi::new(n, %g, %g) [%s]" % (p, q, cfg)
            n = fresh("n", "int", 1, (1 << 64) - 1)
            s = Session(api)
            n = s.arg(jac["inputs"][0], "n")
            o = Built(api, rule, args=[n])
            signs = [(p, q)] if p else [(0.0, 0.0), (-0.0, -0.0), (0.0, -0.0), (-0.0, 0.0)]
            for p_, q_ in signs:
                b = Built(api, "GaussJacobi", args=[n, const_param(api, p_), const_param(api, q_)])
                b.n = n
                rep.count("special parameter pairs")
                if b.ps is None or o.ps is None:
                    rep.open(tag, "summary incomplete")
                    continue
                same_rule(rep, tag, "GaussJacobi::new(n, %r, %r) holds the data of %s::new(n) [%s]" % (p_, q_, rule, cfg), b.where, b.ps, o.ps, b.facts + o.facts, seed, n)
                for nm, f, want in (("alpha", al, p_), ("beta", be, q_)):
                    x = reported(b.s, b.v, f)
                    decide_num(rep, tag + " " + nm, "%s: %s() reports the parameter" % (tag, nm), b.where, x, F(want), b.facts, seed)
            # conversion
            f = None
            for im in api.impls("From", "GaussJacobi"):
                t = [api.p.types[x] for x in im["args"] if isinstance(x, int)]
                if any(x["k"] == "adt" and x["path"] == api.adt(rule)["path"] for x in t):
                    it = im["items"].get("from")
                    f = next((g for g in api.p.fns if it and g.get("inst") == it.get("inst")), None)
            if f is None:
                raise MissingAnchor("From<%s> for GaussJacobi" % rule)
            s = Session(api)
            r = s.arg(api.adt(rule)["ty"], "rule")
            src = s.pairs(rule, s.newref(r))
            v = s.call(f, [r])
            tag2 = "GaussJacobi::from(%s) [%s]" % (rule, cfg)
            rep.count("conversions")
            got = s.pairs("GaussJacobi", s.newref(v))
            what = "%s keeps the pairs" % tag2
            out = []
            if got is not None and not has_top(got) and not has_top(src) and flatten(got, src, list(s.I.facts), out) and all(texact(x, y, fs) for x, y, fs in out):
                rep.ok(what, "identical value numbers for every rule")
            else:
                # not for arbitrary data: then on the rules the constructor builds
                c = Built(api, rule)
                kept = c.ps
                v2 = c.s.call(f, [c.v]) if c.v is not None else None
                got = c.s.pairs("GaussJacobi", c.s.newref(v2)) if v2 is not None else None
                if kept is None or not isinstance(got, Lam) or has_top(got):
                    rep.open(what, "summary incomplete %s" % (c.s.limits() + s.limits())[:2])
                else:
                    same_rule(rep, tag2, what, f.get("ispan"), got, kept, c.facts, seed, c.n)
            for nm, g, want in (("alpha", al, p), ("beta", be, q)):
                decide_num(rep, tag2 + " " + nm, "%s reports %s = %g" % (tag2, nm, want), f.get("ispan"), reported(s, v, g), F(want), s.I.facts, seed)
        # generic parameters are reported as given
        b = Built(api, "GaussJacobi")
        for nm, f, i in (("alpha", al, 1), ("beta", be, 2)):
            tag = "GaussJacobi::%s [%s]" % (nm, cfg)
            decide_num(rep, tag, "%s() reports the value given to new" % tag, b.where, reported(b.s, b.v, f), b.pval(i), b.facts, seed, [b.pval(1), b.pval(2)])
            rep.count("parameter reports")
        b = Built(api, "GaussLaguerre")
        tag = "GaussLaguerre::alpha [%s]" % cfg
        decide_num(rep, tag, "%s() reports the value given to new" % tag, b.where, reported(b.s, b.v, api.method("GaussLaguerre", "alpha")), b.pval(1), b.facts, seed, [b.pval(1)])
        rep.count("parameter reports")
        # no other shortcut: every remaining case depends on both parameters (P07 decides what it computes)
        b = Built(api, "GaussJacobi")
        shortcuts(rep, api, cfg, b, seed)


def shortcuts(rep, api, cfg, b, seed):
    tag = "GaussJacobi::new other parameters [%s]" % cfg
    if b.ps is None:
        rep.open(tag, "summary incomplete")
        return
    params = [b.pval(1), b.pval(2)]
    bv = fresh("i", "int", 0, 1 << 62)
    x, w = b.pair(bv)
    facts = b.facts + [ile(ZERO, bv), ilt(bv, b.ps.n[0])]
    rest = []
    try:
        for fs, (x1, w1) in split([x, w], facts):
            pins = tuple(pinned(p, fs) for p in params)
            if pins in SPECIAL:
                continue
            if all(p in w1.fv for p in params):
                rep.count("general cases")
                continue
            rest.append((fs, x1, w1))
    except Give:
        rest = [1]
    if not rest:
        rep.ok(tag, "the pairs depend on both parameters in every other case")
        return
    skip = lambda n, i, p: n % 2 == 1 and n > 1 and i == n // 2 and p[0] != p[1]
    r = rule_diff(b, GW("GaussJacobi", b.n, params), params, seed, skip)
    if r:
        rep.bad(tag, "GaussJacobi::new takes a shortcut for parameters it is not valid for", b.where, r)
    else:
        rep.open(tag, "a case ignores a parameter")


def decide_num(rep, key, what, where, got, want, facts, seed, params=()):
    """numeric equality (0.0 equals -0.0) of a reported parameter"""
    if got is None or not isinstance(got, T):
        rep.open(what, "not a parameter value: %s" % str(got)[:100])
        return
    def solved(fs, x, y):
        if texact(x, y, fs):
            return True
        if x.op == "f" and y.op == "f":
            return fconst(x) == fconst(y)
        if x.op == "f" and y.op == "var":
            return pinned(y, fs) == fconst(x)
        return False
    try:
        if all(solved(fs, x, y) for fs, (x, y) in split([got, want], facts)):
            rep.ok(what, "equal")
            return
    except Give:
        pass
    rnd = random.Random(seed)
    fv = sorted(got.fv | want.fv | set().union(*[f.fv for f in facts]) if facts else got.fv | want.fv, key=lambda v: v.id)
    for p in param_points([got, want] + list(facts), list(params), seed):
        for n in (1, 2, 3, 4, 50, 101):
            env = dict(zip(params, p))
            for v in fv:
                if v not in env:
                    env[v] = n if v.a[1] == "int" else 0.25
            try:
                e = Ev(env, {}, hashed_seqs([got, want]), "f64")
                if not all(e.ev(f) for f in facts):
                    continue
                x, y = e.ev(got), e.ev(want)
                if x != y and not (x != x and y != y):
                    rep.bad(key, what + " fails", where, dict(inputs={v.a[0]: env[v] for v in fv}, got=x, want=y))
                    return
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
    rep.open(what, "not shown, no counterexample")


# ---------------------------------------------------------------- P09
def cheb_spec(rule, n, i):
    """pair at ascending position i"""
    k = isub(n, i)      # counted from the largest node, 1..n
    if rule == "GaussChebyshevFirstKind":
        return app("cos", fdiv(fmul(F(math.pi), fi(iadd(iscale(k, 2), I(-1)))), fi(iscale(n, 2)))), fdiv(F(math.pi), fi(n))
    t = fdiv(fmul(F(math.pi), fi(k)), fi(iadd(n, ONE)))
    return app("cos", t), fmul(fdiv(F(math.pi), fi(iadd(n, ONE))), fmul(app("sin", t), app("sin", t)))


def run_chebyshev(rep, apis, seed):
    for cfg, api in apis.items():
        for rule in ("GaussChebyshevFirstKind", "GaussChebyshevSecondKind"):
            for meth in ("new", "par_new"):
                f = api.method(rule, meth, need=(meth == "new"))
                if f is None:
                    continue
                b = Built(api, rule, meth)
                tag = "%s::%s [%s]" % (rule, meth, cfg)
                rep.count("constructors")
                rep.count("functions analysed", len(b.s.I.analysed))
                if b.ps is None:
                    rep.open(tag, "summary incomplete: %s" % b.s.limits()[:2])
                    continue
                bv = fresh("i", "int", 0, 1 << 62)
                x, w = b.pair(bv)
                facts = b.facts + [ile(ZERO, bv), ilt(bv, b.n)]
                wx, ww = cheb_spec(rule, b.n, bv)
                if texact(b.ps.n[0], b.n, facts):
                    rep.ok("%s: one pair per degree" % tag, "exact")
                else:
                    rep.open("%s: number of pairs" % tag, show(b.ps.n[0])[:200])
                for nm, got, want in (("node", x, wx), ("weight", w, ww)):
                    rep.count("closed forms")
                    if equal(got, want, facts):
                        r = cheb_rounding(got, want, facts, bv, b.n, nm)
                        if r:
                            rep.bad("%s %s rounding" % (tag, nm), "%s: %s loses accuracy to rounding" % (tag, nm), b.where, r)
                        else:
                            rep.ok("%s: %s" % (tag, nm), "equal normal forms for every degree and index")
                        continue
                    r = cheb_diff(got, want, facts, bv, b.n, nm, seed)
                    if r:
                        rep.bad("%s %s" % (tag, nm), "%s: %s differs from the closed form" % (tag, nm), b.where, r)
                    else:
                        rep.open("%s: %s" % (tag, nm), "normal forms differ: %s" % show(got)[:200])


def cheb_rounding(got, want, facts, bv, n, nm):
    """a pair whose value in IEEE arithmetic is much further from the closed form than rounding its argument explains"""
    for m in (1, 2, 3, 10, 1000, 10 ** 6):
        for i in sorted({0, 1, m // 3, m // 2, m - 2, m - 1}):
            try:
                e = Ev({n: m, bv: i}, {}, {}, "f64")
                if not 0 <= i < m or not all(e.ev(f) for f in facts):
                    continue
                x, y = e.ev(got), Ev({n: m, bv: i}, {}, {}, "mp").ev(want)
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
            tol = mpf(10) ** -14 if nm == "node" else (mpf(m) * 2 ** -46 + mpf(10) ** -13) * abs(y)
            if x != x or abs(mpf(x) - y) > tol:
                return dict(degree=m, index=i, got=repr(x), want=mpmath.nstr(y, 17))
    return None


def entry_rounding(got, want, facts, idx, n, params):
    """a matrix entry whose value in IEEE arithmetic is far from its value in exact arithmetic, at ordinary parameters"""
    vals = (0.25, -0.25, 1.5, -0.75, 7.0, 40.0)
    pts = [()] if not params else [(x,) for x in vals] if len(params) == 1 else [(0.25, -0.25), (1.5, 0.25), (-0.75, 7.0), (40.0, 1.5), (2.0, -0.5), (-0.25, -0.25)]
    for i in (0, 1, 2, 10, 1000, 10 ** 6):
        for p in pts:
            env = {idx: i, n: i + 3}
            env.update(zip(params, p))
            try:
                e = Ev(env, {}, {}, "f64")
                if not all(e.ev(f) for f in facts):
                    continue
                x, y = e.ev(got), Ev(env, {}, {}, "mp").ev(want)
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
            if x != x or abs(mpf(x) - y) > mpf(10) ** -10 * (abs(y) + mpf(10) ** -6):
                return dict(degree=i + 3, index=i, parameters=list(p), got=repr(x), want=mpmath.nstr(y, 17))
    return None


def cheb_diff(got, want, facts, bv, n, nm, seed):
    ts = [got, want]
    cand = int_candidates(ts, n, lo=1, hi=(1 << 62), base=tuple(range(1, 20)) + (50, 99, 100, 101, 1000, 1001, 65535, 65536, 65537, 10 ** 6, 10 ** 9, (1 << 32) - 1, 1 << 32, (1 << 32) + 1))
    rnd = random.Random(seed)
    for m in cand:
        idx = set(range(m)) if m <= 40 else {0, 1, 2, 3, m - 1, m - 2, m - 3, m // 2, m // 2 - 1, m // 2 + 1, (m - 1) // 2} | {rnd.randrange(m) for _ in range(10)} | {x for x in int_candidates(ts, bv, lo=0, hi=m - 1)[:60]}
        for i in sorted(idx):
            try:
                e = Ev({n: m, bv: i}, {}, {}, "mp")
                if not all(e.ev(f) for f in facts):
                    continue
                x, y = e.ev(got), e.ev(want)
                tol = mpf(10) ** -13 * (abs(y) if nm == "weight" else 1)
                if not mpmath.isfinite(x) or abs(x - y) > tol:
                    # confirm that the difference is not only representable in exact arithmetic
                    z = Ev({n: m, bv: i}, {}, {}, "f64").ev(got)
                    if z != z or abs(mpf(z) - y) > tol / 2:
                        return dict(degree=m, index=i, got=mpmath.nstr(x, 17), want=mpmath.nstr(y, 17))
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
    return None
