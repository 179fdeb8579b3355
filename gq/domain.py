"""Intervals of summaries in IEEE double arithmetic.

Round-to-nearest is monotone, so evaluating the operations on interval end points in double
arithmetic bounds every double the code can compute (library functions get a relative slack).  A box
of parameters on which every intermediate value has finite bounds, no denominator contains zero and
no square root has a negative argument is proved free of NaN and infinity; boxes are subdivided."""
import math
import itertools
import random
from .val import *
from .evalt import Ev, Undecided, frombits, F64
from .linear import entails, simp, bounds, conj
from .nf import cases, Give

INF = math.inf
LOW = -1.0 + 2.0 ** -53
SLACK = 1e-12
GAMMA_MIN_X, GAMMA_MIN = 1.4616321449683623, 0.8856031944108887
GAMMA_MAX = 171.6


class Bad(Exception):
    def __init__(self, term, why):
        self.term, self.why = term, why


def widen(lo, hi, rel=SLACK):
    return (lo - abs(lo) * rel - 1e-320 if lo > 0 or lo < 0 else lo), hi + abs(hi) * rel


class Iv:
    """interval of a term; env: var -> (lo, hi); facts are used for integer bounds only"""

    def __init__(self, env, facts=(), int_env=None):
        self.env, self.facts = env, list(facts)
        self.ienv = int_env if int_env is not None else {}
        self.memo = {}

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t, t.op, t.a)
            if t.knd == "float":
                lo, hi = r
                if not (lo <= hi) or math.isinf(lo) or math.isinf(hi):
                    raise Bad(t, "unbounded value")
            self.memo[t] = r
        return r

    def mul(self, x, y):
        ps = [a * b for a in x for b in y]
        if any(p != p for p in ps):
            return -INF, INF
        return min(ps), max(ps)

    def int_(self, t):
        k = self.ienv.get(t)
        if k is None:
            lo, hi = -(1 << 200), 1 << 200
            if t.op == "i":
                lo = hi = t.a[0]
            else:
                l, h = bounds(t)
                if l is not None:
                    lo = l
                if h is not None:
                    hi = h
                # sharpen with the facts
                for c in (0, 1, 2, 3):
                    if lo < c and entails(self.facts, ile(I(c), t)):
                        lo = c
                for c in (0, 1, 2, 3):
                    if hi > c and entails(self.facts, ile(t, I(c))):
                        hi = c
                        break
                if hi > 1 << 70:
                    hi = 1 << 70
                if lo < -(1 << 70):
                    lo = -(1 << 70)
            k = self.ienv[t] = (lo, hi)
        return k

    def go(self, t, op, a):
        if op == "f":
            x = frombits(a[0])
            return x, x
        if op in ("i", "poly") or t.knd == "int":
            if self.env and t.fv and all(v in self.env for v in t.fv) and op == "poly":
                lo = hi = a[0]
                for m, k in a[1]:
                    x = (1, 1)
                    for y in m:
                        x = self.mul(x, self.ev(y))
                    x = (x[0] * k, x[1] * k) if k >= 0 else (x[1] * k, x[0] * k)
                    lo, hi = lo + x[0], hi + x[1]
                return lo, hi
            if op == "var" and t in self.env:
                return self.env[t]
            return self.int_(t)
        if op == "var":
            if t in self.env:
                return self.env[t]
            raise Bad(t, "unbounded input")
        if op == "i2f":
            lo, hi = self.ev(a[0])
            return float(lo), float(hi)
        if op in ("fadd", "fsub"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if op == "fsub":
                if a[0] is a[1]:
                    return 0.0, 0.0
                y = (-y[1], -y[0])
            return x[0] + y[0], x[1] + y[1]
        if op == "fmul":
            x, y = self.ev(a[0]), self.ev(a[1])
            if a[0] is a[1]:
                lo, hi = self.mul(x, x)
                return (0.0 if x[0] <= 0 <= x[1] else min(x[0] * x[0], x[1] * x[1])), hi
            return self.mul(x, y)
        if op == "fdiv":
            x, y = self.ev(a[0]), self.ev(a[1])
            if y[0] <= 0 <= y[1]:
                raise Bad(t, "denominator may be zero")
            qs = [p / q for p in x for q in y]
            return min(qs), max(qs)
        if op == "fneg":
            x = self.ev(a[0])
            return -x[1], -x[0]
        if op == "fma":
            x, y, z = self.ev(a[0]), self.ev(a[1]), self.ev(a[2])
            p = self.mul(x, y)
            return widen(p[0] + z[0], p[1] + z[1], 1e-15)
        if op == "ite":
            c = self.cond(a[0])
            if c is True:
                return self.ev(a[1])
            if c is False:
                return self.ev(a[2])
            x, y = self.branch(a[1], a[0]), self.branch(a[2], bnot(a[0]))
            return min(x[0], y[0]), max(x[1], y[1])
        if op == "sum" and a[1].op == "i" and a[1].a[0] <= 64:
            x = self.ev(a[3])
            for k in range(a[1].a[0]):
                y = self.ev(subst(a[2], {a[0]: I(k)}))
                x = (x[0] + y[0], x[1] + y[1])
            return x
        if op == "prod" and a[1].op == "i" and a[1].a[0] <= 64:
            x = self.ev(a[3])
            for k in range(a[1].a[0]):
                x = self.mul(x, self.ev(subst(a[2], {a[0]: I(k)})))
            return x
        if op == "app":
            return self.app(t, a)
        raise Bad(t, "no interval for %s" % op)

    def branch(self, t, c):
        """interval of a branch, float variables restricted by its condition"""
        env, ch = dict(self.env), False
        for g in conj(c):
            neg = g.op == "not"
            h = g.a[0] if neg else g
            if h.op in ("flt", "fle") and not neg:
                x, y = h.a
                if x in env and y.op == "f":
                    env[x] = (env[x][0], min(env[x][1], fconst(y)))
                    ch = True
                elif y in env and x.op == "f":
                    env[y] = (max(env[y][0], fconst(x)), env[y][1])
                    ch = True
        if any(x[0] > x[1] for x in env.values()):
            raise Bad(t, "empty branch")
        return Iv(env if ch else self.env, self.facts + [c], None).ev(t)

    def cond(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        op, a = c.op, c.a
        if op == "not":
            r = self.cond(a[0])
            return None if r is None else not r
        if op == "and":
            rs = [self.cond(x) for x in a[0]]
            return False if False in rs else (None if None in rs else True)
        if op == "or":
            rs = [self.cond(x) for x in a[0]]
            return True if True in rs else (None if None in rs else False)
        if op in ("flt", "fle", "feq"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if op == "flt":
                return True if x[1] < y[0] else (False if x[0] >= y[1] else None)
            if op == "fle":
                return True if x[1] <= y[0] else (False if x[0] > y[1] else None)
            return False if x[1] < y[0] or y[1] < x[0] else (True if x[0] == x[1] == y[0] == y[1] else None)
        if op == "isnan":
            self.ev(a[0])
            return False
        if op == "isfin":
            self.ev(a[0])
            return True
        if op in ("le0", "eq0"):
            lo, hi = self.ev(a[0])
            if op == "le0":
                return True if hi <= 0 else (False if lo > 0 else (True if entails(self.facts, c) else None))
            return True if lo == hi == 0 else (False if lo > 0 or hi < 0 else None)
        return None

    def app(self, t, a):
        name = a[1]
        if name == "sqrt":
            x = self.ev(a[2])
            if x[0] < 0:
                raise Bad(t, "square root of a negative number")
            return math.sqrt(x[0]), math.sqrt(x[1])
        if name == "fabs":
            x = self.ev(a[2])
            return (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))), max(abs(x[0]), abs(x[1]))
        if name == "gamma":
            x = self.ev(a[2])
            if x[0] <= 0:
                raise Bad(t, "gamma function at a pole or below zero")
            if x[1] > GAMMA_MAX:
                raise Bad(t, "gamma function overflows")
            v = [math.gamma(max(y, 1e-300)) for y in x]
            return widen(GAMMA_MIN if x[0] <= GAMMA_MIN_X <= x[1] else min(v), max(v))
        if name in ("pow", "exp2", "exp"):
            x = self.ev(a[2]) if name == "pow" else ((2.0, 2.0) if name == "exp2" else (math.e, math.e))
            y = self.ev(a[3] if name == "pow" else a[2])
            if x[0] <= 0:
                raise Bad(t, "power of a number that may be zero or negative")
            ls = [math.log(p) * q for p in x for q in y]
            if max(ls) > 709:
                raise Bad(t, "power overflows")
            return widen(math.exp(min(ls)), math.exp(max(ls)), 1e-10)
        if name == "powi" and a[3].op == "i" and abs(a[3].a[0]) <= 64:
            n = a[3].a[0]
            x = self.ev(a[2])
            r = (1.0, 1.0)
            for _ in range(abs(n)):
                r = self.mul(r, x)
            if n % 2 == 0 and x[0] <= 0 <= x[1]:
                r = (0.0, r[1])
            if n < 0:
                if r[0] <= 0 <= r[1]:
                    raise Bad(t, "negative power of zero")
                r = (1 / r[1], 1 / r[0])
            return r
        if name == "ln":
            x = self.ev(a[2])
            if x[0] <= 0:
                raise Bad(t, "logarithm of a number that may be zero")
            return widen(math.log(x[0]), math.log(x[1]))
        if name == "lgamma":
            x = self.ev(a[2])
            if x[0] <= 0:
                raise Bad(t, "log-gamma at a pole")
            v = [math.lgamma(y) for y in x]
            return (-0.1215 if x[0] <= GAMMA_MIN_X <= x[1] else min(v)) - 1e-10, max(v) + 1e-10
        if name in ("sin", "cos"):
            x = self.ev(a[2])
            if x[1] - x[0] >= 6.2 or max(abs(x[0]), abs(x[1])) > 1e6:
                return -1.0, 1.0
            f = math.sin if name == "sin" else math.cos
            v = [f(x[0]), f(x[1])]
            lo, hi = min(v), max(v)
            off = 0.5 if name == "sin" else 0.0
            for k in range(int(math.floor(x[0] / math.pi)) - 1, int(math.ceil(x[1] / math.pi)) + 2):
                z = (k + off) * math.pi
                if x[0] <= z <= x[1]:
                    if k % 2:
                        lo = -1.0
                    else:
                        hi = 1.0
            return (lo if lo == -1.0 else lo - 1e-17 - abs(lo) * 1e-15), (hi if hi == 1.0 else hi + abs(hi) * 1e-15)
        if name == "tan":
            x = self.ev(a[2])
            if abs(x[0]) < 1.57 and abs(x[1]) < 1.57:
                return widen(math.tan(x[0]), math.tan(x[1]))
        if name == "f32":
            x = self.ev(a[2])
            return widen(x[0], x[1], 2.0 ** -23)
        raise Bad(t, "no interval for %s" % name)


def shifted_sign(t, facts, params):
    """1 / -1 when the real-number normal form of t is of constant sign on the whole domain (params > -1,
    integers bounded below by the facts), else 0"""
    from .nf import NF, padd, pmul
    from fractions import Fraction
    try:
        z = NF(facts)
        r = z.nf(t)
    except (Give, RecursionError):
        return 0
    sg = 1
    for p in (r.n, r.d):
        out = {}
        for m, c in p.items():
            q = {(): c}
            for x, e in m:
                kind, data, rep = z.atoms[x]
                if kind == "var" and data in params:
                    b = {((x, 1),): Fraction(1), (): Fraction(-1)}
                elif kind == "int":
                    lo = None
                    for k in (3, 2, 1, 0):
                        if entails(facts, ile(I(k), data)):
                            lo = k
                            break
                    if lo is None:
                        return 0
                    b = {((x, 1),): Fraction(1), (): Fraction(lo)} if lo else {((x, 1),): Fraction(1)}
                elif kind in ("sqrt", "pi"):
                    b = {((x, 1),): Fraction(1)}
                else:
                    return 0
                for _ in range(e):
                    q = pmul(q, b)
            out = padd(out, q)
        pos = all(c > 0 for c in out.values())
        neg = all(c < 0 for c in out.values())
        if not out or not (pos or neg):
            return 0
        # a monomial that cannot vanish: parameters (shifted, > 0) and constants only
        if not any(all(z.atoms[x][0] == "var" or z.atoms[x][0] in ("sqrt", "pi") for x, _ in m) for m in out):
            return 0
        if neg:
            sg = -sg
    return sg


LIMIT_SUM = 171.0     # alpha + beta + 2 (or alpha + 1) up to which gamma is representable


def boxes(params):
    if not params:
        yield ()
        return
    ext = max(LIMIT_SUM - 1.0, 1.0)
    yield tuple((LOW, ext) for _ in params)


def outside(box):
    if len(box) == 2:
        return box[0][0] + box[1][0] + 2.0 > LIMIT_SUM
    if len(box) == 1:
        return box[0][0] + 1.0 > LIMIT_SUM
    return False


def finite_on(term, facts, params, budget=60000):
    """(True, boxes) when the term is proved finite on the domain, else (False, box, reason)"""
    ie = {}
    n = 0
    work = list(boxes(params))
    while work:
        b = work.pop()
        if outside(b):
            continue
        n += 1
        try:
            Iv(dict(zip(params, b)), facts, ie).ev(term)
            continue
        except Bad as e:
            w = [y - x for x, y in b]
            if not w or n > budget or max(w) < 1e-4:
                return False, b, e
            # split the widest side, geometrically near -1
            k = max(range(len(b)), key=lambda i: w[i])
            lo, hi = b[k]
            mid = (lo + hi) / 2
            if hi - lo > 1 and lo < 0:
                mid = min(mid, 0.0)
                if not lo < mid < hi:
                    mid = (lo + hi) / 2
            work.append(tuple((mid, hi) if i == k else x for i, x in enumerate(b)))
            work.append(tuple((lo, mid) if i == k else x for i, x in enumerate(b)))
    return True, n, None


EXTREME = (LOW, -5e-324, 5e-324, -1e-309, 1e-309, 1e-300, -1e-300, 1e-154, -1e-154, 1e-17, -1e-17, -1.0 + 2.0 ** -40, -0.999999, -0.9, -0.75, -0.5, -0.25, -1e-9, -2.0 ** -53, 0.0, 2.0 ** -60, 1e-9, 0.25, 0.5, 1.0, 2.0, 10.0, 60.0, 100.0, 140.0, 150.0, 166.0)


def extreme_points(params, seed):
    rnd = random.Random(seed)
    if not params:
        return [()]
    if len(params) == 1:
        return [(x,) for x in EXTREME if x + 1 <= LIMIT_SUM] + [(LIMIT_SUM - 1.0,)]
    pts = list(itertools.product(EXTREME, EXTREME))
    pts += [(x, -1.0 - x) for x in (-0.25, -0.75, -0.5, -0.125, -0.3, -0.1)]
    pts += [(x, -x) for x in (0.25, -0.25, 0.5, -0.5, 0.3, 0.9, -0.9)]
    pts += [(x, LIMIT_SUM - 2.0 - x) for x in (LOW, -0.5, 0.0, 1.0, 20.0, 83.5, 100.0)]
    pts += [(LIMIT_SUM - 2.0 - x, x) for x in (LOW, -0.5, 0.0, 1.0, 20.0, 83.5)]
    pts += [(rnd.uniform(-1, 3), rnd.uniform(-1, 3)) for _ in range(60)]
    return [p for p in dict.fromkeys(pts) if sum(p) + 2 <= LIMIT_SUM and all(x > -1 for x in p)]


def not_finite_at(term, facts, params, seed, extra=()):
    """parameters and index at which the summary is NaN or infinite in double arithmetic"""
    from .witness import float_candidates, int_candidates
    from .ctor import param_points
    fv = sorted(set(term.fv).union(*[f.fv for f in facts]) - set(params), key=lambda v: v.id) if facts else sorted(term.fv - set(params), key=lambda v: v.id)
    iv = [v for v in fv if v.a[1] == "int"]
    pts = list(dict.fromkeys(extreme_points(params, seed) + [p for p in param_points([term], list(params), seed) if sum(p) + len(params) <= LIMIT_SUM] + list(extra)))
    base = (0, 1, 2, 3, 5, 10, 100, 1000, 1 << 20)
    cands = [base] * len(iv)
    combos = list(itertools.product(*cands)) if len(iv) <= 2 else [(x,) * len(iv) for x in base]
    for c in combos:
        ie = dict(zip(iv, c))
        for p in pts:
            env = dict(ie)
            env.update(zip(params, p))
            try:
                e = Ev(env, {}, {}, "f64")
                if not all(e.ev(f) for f in facts):
                    continue
                x = e.ev(term)
            except (Undecided, OverflowError, ValueError, ZeroDivisionError):
                continue
            if isinstance(x, float) and not math.isfinite(x):
                return dict(parameters=list(p), inputs={v.a[0]: ie[v] for v in iv}, got=x)
    return None


def defined(rep, key, term, facts, params):
    """obligation: the term is a finite double on the whole parameter domain"""
    rep.count("definedness obligations")
    try:
        parts = cases([term], facts)
    except Give:
        parts = [(list(facts), [term])]
    nb, why = 0, None
    for fs, (t,) in parts:
        r = finite_on(t, fs, list(params))
        if r[0]:
            nb += r[1]
            continue
        w = not_finite_at(t, fs, list(params), 1, [tuple((x + y) / 2 for x, y in r[1])])
        if w:
            rep.bad(key + " finite", "%s is not a finite number for every admissible parameter" % key, "", w)
            return False
        why = "%s on %s" % (r[2].why, r[1])
        bad = r[2].term
        den = bad.a[1] if bad.op == "fdiv" else (bad.a[2] if bad.op == "app" and bad.a[1] == "sqrt" else None)
        if den is not None and shifted_sign(den, fs, set(params)):
            why += " (nonzero of constant sign in exact arithmetic)"
        break
    if why is None:
        rep.ok("%s is finite on the whole parameter domain" % key, "interval bounds on %d boxes in %d cases" % (nb, len(parts)))
        return True
    rep.open("%s is finite on the whole parameter domain" % key, why)
    return None


# ---------------------------------------------------------------- P18
def finite_1d(term, v, lo, hi, budget=20000):
    work, n = [(lo, hi)], 0
    while work:
        b = work.pop()
        n += 1
        try:
            Iv({v: b}).ev(term)
        except Bad as e:
            w = b[1] - b[0]
            if n > budget or w <= 1e-9 * max(abs(b[0]), abs(b[1])):
                return False, b, e
            mid = (b[0] + b[1]) / 2
            if b[0] > 0 and b[1] / b[0] > 4:
                mid = math.sqrt(b[0]) * math.sqrt(b[1])
            work += [(mid, b[1]), (b[0], mid)]
    return True, n, None


def run_finite(rep, apis, seed):
    from .ctor import Built, split, recognise, Eig, simp1, pinned, rebuilt_node
    for cfg, api in apis.items():
        for rule in ("GaussHermite", "GaussLaguerre", "GaussJacobi"):
            key = "%s::new" % rule
            tag = "%s [%s]" % (key, cfg)
            b = Built(api, rule)
            rep.count("constructors")
            rep.count("functions analysed", len(b.s.I.analysed))
            if b.ps is None:
                rep.open(tag, "summary incomplete: %s" % b.s.limits()[:2])
                continue
            params = [b.pval(i) for i in range(1, len(b.args))]
            bv = fresh("i", "int", 0, 1 << 62)
            x, w = b.pair(bv)
            facts = b.facts + [ile(ZERO, bv), ilt(bv, b.ps.n[0])]
            why = []
            try:
                parts = split([x, w], facts)
            except Give:
                parts, why = [], ["too many cases"]
            done = set()
            for fs, (x, w) in parts:
                if params and all(pinned(p, fs) is not None for p in params):
                    continue
                if x.op == "f":
                    x = rebuilt_node(w, bv) or x
                if x.op == "app" and x.a[1] == "srt":
                    r = recognise(x, w, bv, fs)
                    if not isinstance(r, Eig):
                        why.append(r)
                        continue
                    if (id(r.M.body), r.scale.id) in done:
                        continue
                    done.add((id(r.M.body), r.scale.id))
                    gf = [f for f in fs if bv not in f.fv]
                    i = fresh("i", "int", 0, 1 << 62)
                    rng = gf + [ile(ZERO, i), ilt(i, b.n)]
                    o = rng + [ilt(iadd(i, ONE), b.n)]
                    items = [("diagonal entry", simp1(r.M.at([i, i]), rng), rng), ("off-diagonal entry", simp1(r.M.at([iadd(i, ONE), i]), o), o), ("moment", r.scale, gf)]
                else:
                    items = [("degree-1 node", x, fs), ("degree-1 weight", w, fs)]
                for nm, t, f in items:
                    if nm in ("degree-1 node", "degree-1 weight"):
                        if not entails(fs, ieq(b.n, ONE)):
                            why.append("closed form outside degree 1")
                            continue
                    defined(rep, "%s: %s" % (tag, nm), t, f, params)
            if why:
                r = rule_nan(b, params, seed)
                if r:
                    rep.bad(tag + " finite", "%s produces NaN or infinite data" % key, b.where, r)
                else:
                    rep.open(tag, "; ".join(sorted(set(why))))
        for f, v, x in api.gamma_fns:
            rep.count("gamma functions")
            what = "%s: every intermediate value is finite on (0, %g] [%s]" % ("gamma function", 171.0, cfg)
            r = finite_1d(v, x, 2.0 ** -53, 171.0)
            if r[0]:
                rep.ok(what, "interval bounds on %d pieces" % r[1])
                continue
            hit = None
            for y in list(EXTREME) + [171.0, 170.9, 143.0, 2.0 ** -53, 0.5, 0.49999999999999994, 1e-30, 3.0, 5.0, 7.0] + [k / 8 for k in range(1, 1368)]:
                if 2.0 ** -53 <= y <= 171:  # the least 1 + alpha of a double alpha > -1
                    try:
                        q = Ev({x: y}).ev(v)
                    except (Undecided, ArithmeticError, ValueError):
                        continue
                    if not math.isfinite(q):
                        hit = dict(argument=y, got=q)
                        break
            if hit:
                rep.bad("gamma finite [%s]" % cfg, "the gamma function behind the moments is not finite", f.get("ispan"), hit)
            else:
                rep.open(what, "%s on %s" % (r[2].why, r[1]))


def rule_nan(b, params, seed):
    """parameters and a small degree at which the summary of the rule holds NaN or infinity"""
    rnd = random.Random(seed)
    pts = extreme_points(params, seed)
    rnd.shuffle(pts)
    pts = sorted(pts[:250], key=lambda p: sum(abs(x) for x in p))
    for p in pts:
        for n in (2, 3, 1, 4, 5):
            env = {b.n: n}
            env.update(zip(params, p))
            try:
                e = Ev(env, {}, {}, "f64")
                if not all(e.ev(f) for f in b.facts):
                    continue
                for i in range(e.ev(b.ps.n[0])):
                    x = e.elem(b.ps, (i,))
                    for k in (1, 2):
                        if not math.isfinite(x[k]):
                            return dict(degree=n, parameters=list(p), index=i, got=repr(x[1:]))
            except (Undecided, OverflowError, ZeroDivisionError, ValueError, ArithmeticError):
                continue
            except Exception as ex:
                if type(ex).__name__ == "LinAlgError":
                    return dict(degree=n, parameters=list(p), got="eigenvalue problem without solution")
                raise
    return None
