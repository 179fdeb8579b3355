"""Normal forms of summaries as real-valued expressions.

Floating-point operations are read as operations on real numbers (rounding is outside every
property decided with this module).  A term becomes a rational function num/den over *atoms*
(variables, opaque function values, sums); two terms are equal as real functions when their rational
functions are equal by cross-multiplication.  The form is canonical enough that the usual rewritings
of a formula (reassociation, common factors, reversed or shifted loops, peeled iterations, split
sums) meet in the same form; when they do not, nothing is concluded."""
from fractions import Fraction
import math
from .val import *
from .evalt import frombits
from .linear import simp, conj, entails

BIG = 4000


class Give(Exception):
    pass


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d


C1 = {(): Fraction(1)}


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


_work = [0]      # products formed while deciding one equality


def pmul(p, q):
    if p is C1 or p == C1:
        return q
    if q is C1 or q == C1:
        return p
    _work[0] += len(p) * len(q)
    if len(p) * len(q) > BIG * 20 or _work[0] > 1500000:
        raise Give("polynomial too large")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > BIG:
        raise Give("polynomial too large")
    return r


_CONSTS = None


def named_consts():
    """double nearest to q*c for the usual irrational constants c"""
    global _CONSTS
    if _CONSTS is None:
        _CONSTS = {}
        qs = sorted({Fraction(a, b) for a in range(1, 17) for b in (1, 2, 3, 4, 5, 6, 8, 12, 16)})
        for q in qs:
            for nm, v in (("pi", math.pi), ("1/pi", 1 / math.pi), ("sqrtpi", math.sqrt(math.pi)), ("1/sqrtpi", 1 / math.sqrt(math.pi)),
                          ("sqrt2", math.sqrt(2.0)), ("sqrt3", math.sqrt(3.0)), ("pi2", math.pi ** 2), ("e", math.e), ("ln2", math.log(2.0)), ("sqrt2pi", math.sqrt(2 * math.pi))):
                x = float(q) * v
                _CONSTS.setdefault(_k(x), []).append((x, q, nm))
    return _CONSTS


def _k(x):
    return "%.13e" % x


class NF:
    def __init__(self, facts=(), depth=0):
        self.facts = list(facts)
        self.atoms = []      # (kind, data, T)
        self.by = {}
        self.memo = {}
        self.trig = {}
        self.special = {}    # atom id -> "sqrt" | "sin" | "fabs"
        self.sums = []       # (atom id, n, bodyT)
        self.reps = {}

    # ---------------------------------------------------------------- atoms
    def atom(self, kind, data, rep):
        key = (kind, data)
        i = self.by.get(key)
        if i is None:
            i = len(self.atoms)
            self.by[key] = i
            self.atoms.append((kind, data, rep))
        return i

    def A(self, i, e=1):
        if e >= 0:
            return Rat({((i, e),): Fraction(1)}, C1)
        return Rat(C1, {((i, -e),): Fraction(1)})

    def const(self, c):
        return Rat(pconst(c), C1)

    # ---------------------------------------------------------------- arithmetic
    def add(self, a, b, s=1):
        if a.d == b.d:
            return self.clean(padd(a.n, b.n, s), a.d)
        return self.clean(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d))

    def mul(self, a, b):
        return self.clean(pmul(a.n, b.n), pmul(a.d, b.d))

    def inv(self, a):
        if not a.n:
            raise Give("division by an expression that is zero")
        return Rat(a.d, a.n)

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def powi(self, a, n):
        if n < 0:
            return self.powi(self.inv(a), -n)
        r = self.const(1)
        if n > 40:
            raise Give("large power")
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def clean(self, n, d):
        if self.special:
            n2 = self.reduce(n)
            d2 = self.reduce(d)
            if n2 is not None or d2 is not None:
                a = n2 if n2 is not None else Rat(n, C1)
                b = d2 if d2 is not None else Rat(d, C1)
                return self.clean(pmul(a.n, b.d), pmul(a.d, b.n))
        if not n:
            return Rat({}, C1)
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: v / c for k, v in n.items()}
                d = {m: Fraction(1)}
            if m:
                # cancel the monomial gcd
                g = dict(m)
                for k in n:
                    kk = dict(k)
                    for x in list(g):
                        e = min(g[x], kk.get(x, 0))
                        if e <= 0:
                            del g[x]
                        else:
                            g[x] = e
                    if not g:
                        break
                if g:
                    neg = tuple((x, -e) for x, e in g.items())
                    n = {mmul(k, neg): v for k, v in n.items()}
                    d = {mmul(m, neg): Fraction(1)}
        else:
            # leading coefficient 1; proportional numerator and denominator cancel
            m0 = min(d)
            c0 = d[m0]
            if c0 != 1:
                d = {k: v / c0 for k, v in d.items()}
                n = {k: v / c0 for k, v in n.items()}
            if len(n) == len(d) and set(n) == set(d):
                r = n[m0]
                if all(n[k] == r * d[k] for k in n):
                    return Rat(pconst(r), C1)
            q = divexact(n, d)
            if q is not None:
                return self.clean(q, C1)
            q = divexact(d, n) if len(n) > 1 else None
            if q is not None:
                return self.clean(C1, q)
        return Rat(n, d)

    def reduce(self, p):
        hit = False
        for m in p:
            for x, e in m:
                if e >= 2 and x in self.special:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return None
        acc = Rat({}, C1)
        for m, c in p.items():
            r = Rat({(): c}, C1)
            for x, e in m:
                sp = self.special.get(x)
                if sp and e >= 2:
                    sq = self.powi(sp(), e // 2)
                    r = Rat(pmul(r.n, sq.n), pmul(r.d, sq.d))
                    if e % 2:
                        r = Rat(pmul(r.n, {((x, 1),): Fraction(1)}), r.d)
                else:
                    r = Rat(pmul(r.n, {((x, e),): Fraction(1)}), r.d)
            acc = Rat(padd(pmul(acc.n, r.d), pmul(r.n, acc.d)), pmul(acc.d, r.d)) if acc.d != r.d else Rat(padd(acc.n, r.n), acc.d)
        return acc

    def is_zero(self, a):
        return not a.n

    def eq(self, a, b):
        return not self.add(a, b, -1).n

    def cval(self, a):
        """rational constant or None"""
        if not a.n:
            return Fraction(0)
        if a.d == C1 and len(a.n) == 1 and () in a.n:
            return a.n[()]
        return None

    # ---------------------------------------------------------------- terms
    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            if len(r.n) + len(r.d) > BIG:
                raise Give("expression too large")
            self.memo[t] = r
        return r

    def num(self, x):
        if not math.isfinite(x):
            raise Give("non-finite constant")
        if x == int(x) and abs(x) < 2 ** 60:
            return self.const(int(x))
        for y, q, nm in named_consts().get(_k(abs(x)), ()):
            if abs(abs(x) - y) <= 2 * math.ulp(y):
                s = 1 if x > 0 else -1
                c = self.const(q * s)
                pi = lambda: self.A(self.atom("pi", None, F(math.pi)))
                if nm == "pi":
                    return self.mul(c, pi())
                if nm == "1/pi":
                    return self.div(c, pi())
                if nm == "pi2":
                    return self.mul(c, self.mul(pi(), pi()))
                if nm == "sqrtpi":
                    return self.mul(c, self.sqrt(pi(), None))
                if nm == "1/sqrtpi":
                    return self.div(c, self.sqrt(pi(), None))
                if nm == "sqrt2pi":
                    return self.mul(c, self.mul(self.sqrt(self.const(2), None), self.sqrt(pi(), None)))
                if nm == "sqrt2":
                    return self.mul(c, self.sqrt(self.const(2), None))
                if nm == "sqrt3":
                    return self.mul(c, self.sqrt(self.const(3), None))
                return self.mul(c, self.A(self.atom("const", nm, F(y / float(q)))))
        f = Fraction(x)
        g = f.limit_denominator(2000)
        if float(g) == x:
            return self.const(g)
        return self.const(Fraction(repr(x)))

    def int_(self, t):
        """integer term as polynomial over integer atoms"""
        p = {}
        for m, c in poly_of(t).items():
            mm = ()
            for x in m:
                if x.op == "ite":
                    raise Give("case split inside an integer")
                if x.op in ("isum",):
                    key = x
                else:
                    key = x
                mm = mmul(mm, ((self.atom("int", key, mk("i2f", key)), 1),))
            p[mm] = p.get(mm, 0) + Fraction(c)
        return Rat({m: c for m, c in p.items() if c}, C1)

    def go(self, t):
        op, a = t.op, t.a
        if op == "f":
            return self.num(frombits(a[0]))
        if t.knd == "int":
            return self.int_(t)
        if op == "var":
            return self.A(self.atom("var", t, t))
        if op == "i2f":
            return self.int_(a[0])
        if op == "fadd":
            return self.add(self.nf(a[0]), self.nf(a[1]))
        if op == "fsub":
            return self.add(self.nf(a[0]), self.nf(a[1]), -1)
        if op == "fmul":
            return self.mul(self.nf(a[0]), self.nf(a[1]))
        if op == "fdiv":
            return self.div(self.nf(a[0]), self.nf(a[1]))
        if op == "fneg":
            return self.mul(self.const(-1), self.nf(a[0]))
        if op == "fma":
            return self.add(self.mul(self.nf(a[0]), self.nf(a[1])), self.nf(a[2]))
        if op == "ite":
            c = simp(a[0], self.facts)
            if c is TRUE:
                return self.nf(a[1])
            if c is FALSE:
                return self.nf(a[2])
            x, y = self.nf(a[1]), self.nf(a[2])
            if self.eq(x, y):
                return x
            return self.A(self.atom("ite", (c, self.key(x), self.key(y)), t))
        if op == "sum":
            return self.sum_(t)
        if op == "app":
            return self.app(t, a)
        if op == "top":
            raise Give("unknown value")
        return self.A(self.atom("opq", t, t))

    def key(self, r):
        """hashable key; unified with an equal earlier expression"""
        k = (frozenset(r.n.items()), frozenset(r.d.items()))
        if k in self.reps:
            return self.reps[k]
        for k2, (r2, v2) in list(self.reps_by()):
            if self.eq(r, r2):
                self.reps[k] = v2
                return v2
        v = len(self.reps_list)
        self.reps[k] = v
        self.reps_list.append((r, v))
        return v

    reps_list = None

    def reps_by(self):
        if self.reps_list is None:
            self.reps_list = []
        return [(None, x) for x in self.reps_list]

    def sqrt(self, x, rep):
        c = self.cval(x)
        if c is not None and c >= 0:
            if c == 0:
                return self.const(0)
            n, d = c.numerator, c.denominator
            s = _sqfree(n * d)
            root = math.isqrt(n * d // s)
            if s == 1:
                return self.const(Fraction(root, d))
            i = self.atom("sqrt", ("c", s), mk("app", "float", "sqrt", F(float(s))))
            self.special.setdefault(i, lambda s=s: self.const(s))
            return self.mul(self.const(Fraction(root, d)), self.A(i))
        # the square root of a monomial constant factor is pulled out
        k = self.key(x)
        for j, (kind, data, _) in enumerate(self.atoms):
            if kind == "sqrt" and data[0] == "x":
                q = self.cval(self.div(x, data[1].r))
                if q is not None and q > 0:
                    return self.mul(self.sqrt(self.const(q), None), self.A(j))
        i = self.atom("sqrt", ("x", Box(x, k)), rep)
        self.special.setdefault(i, lambda: x)
        return self.A(i)

    def app(self, t, a):
        name = a[1]
        if name == "sqrt":
            return self.sqrt(self.nf(a[2]), t)
        if name == "fabs":
            x = self.nf(a[2])
            c = self.cval(x)
            if c is not None:
                return self.const(abs(c))
            i = self.atom("fabs", self.key(x), t)
            self.special.setdefault(i, lambda: self.mul(x, x))
            return self.A(i)
        if name == "powi":
            n = a[3]
            if n.op == "i" and abs(n.a[0]) <= 40:
                return self.powi(self.nf(a[2]), n.a[0])
            return self.pow(self.nf(a[2]), self.nf(n), t)
        if name == "pow":
            return self.pow(self.nf(a[2]), self.nf(a[3]), t)
        if name == "exp2":
            return self.pow(self.const(2), self.nf(a[2]), t)
        if name == "exp":
            return self.pow(self.A(self.atom("const", "e", F(math.e))), self.nf(a[2]), t)
        if name == "gamma":
            return self.gamma(self.nf(a[2]), t)
        if name in ("sin", "cos"):
            return self.trig_(name, self.nf(a[2]), t)
        if name == "tan":
            x = self.nf(a[2])
            return self.div(self.trig_("sin", x, None), self.trig_("cos", x, None))
        # opaque function value: arguments in normal form
        ks = []
        for x in a[2:]:
            if isinstance(x, T):
                if x.knd in ("float", "int"):
                    ks.append(self.key(self.nf(x)))
                else:
                    ks.append(x)
            else:
                ks.append(x)
        return self.A(self.atom("app", (name,) + tuple(ks), t))

    def lin_exponent(self, e):
        """exponent as list of (coefficient, monomial, Rat) with constant part; None when not a polynomial"""
        if e.d != C1:
            return None
        return [(c, m) for m, c in e.n.items()]

    def pow(self, b, e, t):
        ce = self.cval(e)
        if ce is not None:
            if ce.denominator == 1 and abs(ce) <= 40:
                return self.powi(b, int(ce))
            if ce.denominator == 2 and abs(ce) <= 20:
                return self.powi(self.sqrt(b, None), int(ce * 2))
        cb = self.cval(b)
        if cb == 1:
            return self.const(1)
        le = self.lin_exponent(e)
        if le is None:
            return self.A(self.atom("pow", (self.key(b), self.key(e)), t))
        r = self.const(1)
        kb = self.key(b)
        for c, m in le:
            if m == ():
                if c.denominator in (1, 2) and abs(c) <= 40:
                    r = self.mul(r, self.pow(b, self.const(c), None))
                else:
                    fl = math.floor(c)
                    r = self.mul(r, self.powi(b, fl))
                    r = self.mul(r, self.A(self.atom("pow", (kb, ("c", c - fl)), t)))
            else:
                if c.denominator == 1 and abs(c) <= 40:
                    r = self.mul(r, self.A(self.atom("pow", (kb, m), t), int(c)))
                else:
                    r = self.mul(r, self.A(self.atom("pow", (kb, m, c), t)))
        return r

    def gamma(self, x, t):
        c = self.cval(x)
        if c is not None:
            if c.denominator == 1:
                if 0 < c <= 60:
                    return self.const(math.factorial(int(c) - 1))
                raise Give("gamma at a pole")
            if c.denominator == 2 and abs(c) < 60:
                r = self.sqrt(self.A(self.atom("pi", None, F(math.pi))), None)
                h = Fraction(1, 2)
                while h < c:
                    r = self.mul(r, self.const(h))
                    h += 1
                while h > c:
                    h -= 1
                    r = self.div(r, self.const(h))
                return r
        if x.d != C1:
            return self.A(self.atom("gamma", self.key(x), t))
        c0 = x.n.get((), Fraction(0))
        sh = math.floor(c0) - 1
        if abs(sh) > 30:
            return self.A(self.atom("gamma", self.key(x), t))
        base = self.add(x, self.const(sh), -1)        # constant part in [1,2)
        r = self.A(self.atom("gamma", self.key(base), t))
        for j in range(abs(sh)):
            if sh > 0:
                r = self.mul(r, self.add(base, self.const(j)))
            else:
                r = self.div(r, self.add(base, self.const(-1 - j)))
        return r

    def trig_(self, name, x, t):
        pi = self.A(self.atom("pi", None, F(math.pi)))
        c = self.cval(self.div(x, pi)) if x.n else Fraction(0)
        if c is not None:
            if name == "sin":
                c = Fraction(1, 2) - c
            c = c % 2
            if c > 1:
                c = 2 - c
            sg = 1
            if c > Fraction(1, 2):
                c, sg = 1 - c, -1
            tab = {Fraction(0): self.const(1), Fraction(1, 2): self.const(0), Fraction(1, 3): self.const(Fraction(1, 2))}
            if c in tab:
                return self.mul(self.const(sg), tab[c])
            if c == Fraction(1, 4):
                return self.div(self.mul(self.const(sg), self.sqrt(self.const(2), None)), self.const(2))
            if c == Fraction(1, 6):
                return self.div(self.mul(self.const(sg), self.sqrt(self.const(3), None)), self.const(2))
        # relate to an angle already seen: x = s*y + q*pi/2
        for y, (ci, si) in self.trig.items():
            y = y.r
            for s in (1, -1):
                q = self.cval(self.div(self.add(x, y, -s), pi)) if self.add(x, y, -s).n else Fraction(0)
                if q is None or (2 * q).denominator != 1:
                    continue
                j = int(2 * q) % 4
                C, S = self.A(ci), self.A(si)
                S = self.mul(self.const(s), S)
                cs = [C, self.mul(self.const(-1), S), self.mul(self.const(-1), C), S][j]
                sn = [S, C, self.mul(self.const(-1), S), self.mul(self.const(-1), C)][j]
                return cs if name == "cos" else sn
        k = Box(x, len(self.trig))
        ci = self.atom("cos", k.k, t if name == "cos" else None)
        si = self.atom("sin", k.k, t if name == "sin" else None)
        self.special[si] = lambda: self.add(self.const(1), self.mul(self.A(ci), self.A(ci)), -1)
        self.trig[k] = (ci, si)
        return self.A(ci if name == "cos" else si)

    # ---------------------------------------------------------------- sums
    def sum_(self, t):
        bv, n, body, init = t.a
        k = fresh("s", "int", 0)
        b = self.local(subst(body, {bv: k}), k, n)
        init = self.nf(init)
        return self.add(init, self.linear_sum(b, k, n))

    def local(self, t, k, n):
        """conditions decided by 0 <= k < n"""
        f = self.facts + [ile(ZERO, k), ilt(k, n)]
        return simp(t, f)

    def linear_sum(self, body, k, n):
        r = self.nf(body)
        dep = lambda i: self.depends(i, k)
        if any(dep(i) for m in r.d for i, _ in m):
            # denominator depends on the index: keep the quotient whole
            return self.sum_atom(body, k, n)
        acc = Rat({}, C1)
        groups = {}
        for m, c in r.n.items():
            kd = tuple((i, e) for i, e in m if dep(i))
            kf = tuple((i, e) for i, e in m if not dep(i))
            groups.setdefault(kd, []).append((kf, c))
        for kd, fs in groups.items():
            coef = Rat({}, C1)
            for kf, c in fs:
                coef = self.add(coef, Rat({kf: c}, C1))
            if not kd:
                s = self.int_(n)
            else:
                bt = None
                for i, e in kd:
                    rep = self.atoms[i][2]
                    if rep is None:
                        raise Give("no representative of an atom")
                    for _ in range(e):
                        bt = rep if bt is None else mk("fmul", bt, rep)
                s = self.sum_atom(bt, k, n)
            acc = self.add(acc, self.mul(coef, s))
        return self.div(acc, Rat(r.d, C1))

    def depends(self, i, k):
        rep = self.atoms[i][2]
        kind, data, _ = self.atoms[i]
        if kind in ("cos", "sin"):
            for y, (ci, si) in self.trig.items():
                if i in (ci, si):
                    return any(self.depends(j, k) for m in list(y.r.n) + list(y.r.d) for j, _ in m)
        if kind == "sqrt" and data[0] == "x":
            return any(self.depends(j, k) for m in list(data[1].r.n) + list(data[1].r.d) for j, _ in m)
        return rep is not None and k in rep.fv

    def sum_atom(self, body, k, n):
        """sum over 0 <= k < n of a term with representative `body`: a difference of two values of the
        running sum of one of the sequences met so far (shifted or reversed), or a new sequence"""
        me = self.nf(body)
        mine = None
        for cl in self.sums:
            k2, b2, ends = cl
            cand = []
            for e, _ in ends:
                d = simp(isub(n, e), self.facts)
                if d.op == "i" and abs(d.a[0]) <= 3:
                    cand += [(1, I(x)) for x in range(-3, 4)] + [(-1, iadd(e, I(x - 1))) for x in range(-3, 4)]
            if mine is None:
                mine = places(body, k)
            if mine:
                for c2, o2 in places(b2, k2)[:4]:
                    for c, o in mine[:4]:
                        # c*k + o = c2*(sg*k + off) + o2
                        cand.append((c * c2, iscale(isub(o, o2), c2)))
            seen = set()
            for sg, off in cand:
                off = simp(off, self.facts)
                if (sg, off) in seen or len(seen) > 40:
                    continue
                seen.add((sg, off))
                try:
                    other = self.nf(subst(b2, {k2: iadd(iscale(k, sg), off)}))
                    if not self.eq(me, other):
                        continue
                    if off.op != "i" and not entails(self.facts, ile(ZERO, n)):
                        continue
                    lo, hi = (off, iadd(n, off)) if sg == 1 else (isub(iadd(off, ONE), n), iadd(off, ONE))
                    return self.add(self.running(cl, hi), self.running(cl, lo), -1)
                except Give:
                    continue
        cl = (k, body, [])
        self.sums.append(cl)
        return self.running(cl, n)

    def running(self, cl, e):
        """value of the running sum of a sequence before position e"""
        k, body, ends = cl
        e = simp(e, self.facts)
        at = lambda i: self.nf(subst(body, {k: i}))
        for e2, ai in [(ZERO, None)] + ends:
            d = simp(isub(e, e2), self.facts)
            if d.op != "i" or abs(d.a[0]) > 3:
                continue
            r = Rat({}, C1) if ai is None else self.A(ai)
            for i in range(0, d.a[0]):
                r = self.add(r, at(iadd(e2, I(i))))
            for i in range(d.a[0], 0):
                r = self.add(r, at(iadd(e2, I(i))), -1)
            return r
        rep = binder("sum", k, e, body, F(-0.0))
        ai = self.atom("sum", (len(self.sums), len(ends)), rep)
        ends.append((e, ai))
        return self.A(ai)


def places(body, k):
    """the positions, one step per index in either direction, at which a body reads a sequence or turns a number into a float"""
    out = []
    for x in subterms(body):
        if k not in x.fv:
            continue
        for y in x.a:
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, T) and z.knd == "int" and k in z.fv and (x.op == "sel" or x.op == "i2f"):
                    d = poly_of(z)
                    c = d.get((k,), 0)
                    if abs(c) == 1 and not any(k in v.fv for m, _ in d.items() if m != (k,) for v in m):
                        q = (int(c), isub(z, iscale(k, c)))
                        if q not in out:
                            out.append(q)
    return out


class Box:
    """hashable holder of a rational function"""

    def __init__(self, r, k):
        self.r, self.k = r, k

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return self.k == o.k


def divexact(n, d):
    """quotient of polynomials when the division is exact (lexicographic leading terms), else None"""
    if len(d) > len(n) * 4 + 4 or len(n) > 400:
        return None
    lead = max(d, key=_ord)
    dl = d[lead]
    q = {}
    r = dict(n)
    for _ in range(200):
        if not r:
            return q
        m = max(r, key=_ord)
        neg = tuple((x, -e) for x, e in lead)
        mm = mmul(m, neg)
        if any(e < 0 for _, e in mm):
            return None
        c = r[m] / dl
        q[mm] = q.get(mm, 0) + c
        r = padd(r, pmul({mm: c}, d), -1)
    return None


def _ord(m):
    # graded by atom id (highest atom first): a monomial order
    if not m:
        return ()
    return _Lex(m)


class _Lex:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = dict(m) if m else {}

    def __lt__(self, o):
        om = o.m if isinstance(o, _Lex) else {}
        for x in sorted(set(self.m) | set(om), reverse=True):
            a, b = self.m.get(x, 0), om.get(x, 0)
            if a != b:
                return a < b
        return False

    def __gt__(self, o):
        om = o.m if isinstance(o, _Lex) else {}
        for x in sorted(set(self.m) | set(om), reverse=True):
            a, b = self.m.get(x, 0), om.get(x, 0)
            if a != b:
                return a > b
        return False


def _ord(m):
    return _Lex(m)


def _sqfree(n):
    r, p = 1, 2
    while p * p <= n and p < 10000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        if e % 2:
            r *= p
        p += 1
    return r * n


# ---------------------------------------------------------------- deciding equality
def cond_atoms(t, bound=frozenset(), out=None, seen=None):
    """conditions of ites that do not depend on bound variables"""
    out = [] if out is None else out
    for x in subterms(t):
        if x.op == "ite":
            for c in atoms_of(x.a[0]):
                if not any(v.a[0].endswith("'") for v in c.fv) and c not in out:
                    out.append(c)
    return out


def atoms_of(c):
    if c.op in ("and", "or"):
        return [y for x in c.a[0] for y in atoms_of(x)]
    if c.op == "not":
        return atoms_of(c.a[0])
    if c.op == "b":
        return []
    return [c]


def cases(ts, facts, cap=96):
    """consistent sign assignments to the conditions in ts: list of (extra facts, simplified terms)"""
    out = []

    def go(fs, ts, deep=0):
        if len(out) > cap or len(fs) > 60 + len(facts) or deep > 200:
            raise Give("too many cases")
        ts = [simp(t, fs) for t in ts]
        cs = []
        for t in ts:
            cs = cond_atoms(t)
            known = [c for c in cs if c in fs or bnot(c) in fs]
            if known:
                # an assumed condition that the rewriting rules do not see through
                m = {c: TRUE if c in fs else FALSE for c in known}
                ts = [rewrite(t, m.get) for t in ts]
                return go(fs, ts, deep + 1)
            if cs:
                break
        if not cs:
            out.append((fs, ts))
            return
        # split on the outermost / smallest condition first
        c = min(cs, key=lambda x: len(subterms(x)))
        for v in (c, bnot(c)):
            if entails(fs, bnot(v)):
                continue
            go(fs + [v], ts, deep + 1)
    go(list(facts), list(ts))
    return out


def eq_subst(facts):
    """substitution of integer variables that the facts fix as affine terms of other variables"""
    m = {}
    lits = [g for f in facts for g in conj(f)]
    work = [g for g in lits if g.op == "eq0"]
    for g in lits:
        if g.op == "le0" and g.a[0].op != "i":
            o = le0(iscale(g.a[0], -1))
            if entails(facts, o):
                work.append(eq0(g.a[0]))
    work = [g for g in work if g.op == "eq0"]
    for g in work:
        p = subst(g.a[0], m) if m else g.a[0]
        if p.op == "i":
            continue
        d = poly_of(p)
        if any(len(k) > 1 for k in d):
            continue
        best = None
        for k, c in d.items():
            if len(k) == 1 and abs(c) == 1 and k[0].op == "var" and not any(k[0] in x.fv for q in d for x in q if x is not k[0]):
                if best is None or k[0].id > best[0].id:
                    best = (k[0], c)
        if best is None:
            continue
        v, c = best
        e = iscale(isub(p, iscale(v, c)), -c)
        m = {x: subst(y, {v: e}) for x, y in m.items()}
        m[v] = e
    return m


def equal(a, b, facts=()):
    """True when a and b are the same real function under the facts; False = not shown"""
    if a is b:
        return True
    _work[0] = 0
    try:
        for fs, (x, y) in cases([a, b], facts):
            if x is y:
                continue
            z = NF(fs)
            if z.eq(z.nf(x), z.nf(y)):
                continue
            m = eq_subst(fs)
            if not m:
                return False
            x, y = subst(x, m), subst(y, m)
            fs = [f for f in (subst(f, m) for f in fs) if f is not TRUE]
            z = NF(fs)
            if x is not y and not z.eq(z.nf(x), z.nf(y)):
                return False
        return True
    except Give:
        return False
    except RecursionError:
        return False
