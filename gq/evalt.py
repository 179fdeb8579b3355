"""Instances of closed-form summaries.

A summary is a term; substituting numbers for its free variables folds it to a number.  This is used
to exhibit a point at which two summaries that have different normal forms really differ (so that a
mere rewriting of the source never raises an alarm), and to look up the finite constant tables.
Two interpretations: IEEE double arithmetic ("f64") and real arithmetic (mpmath, "mp")."""
import math
import struct
import functools
import random
import mpmath
from mpmath import mp, mpf
from .val import *
from . import val as _val

mp.dps = 40
NAN, INF = math.nan, math.inf


class Undecided(Exception):
    pass


class TooBig(Undecided):
    pass


def _fdiv(x, y):
    try:
        return x / y
    except ZeroDivisionError:
        if x != x or x == 0:
            return NAN
        return math.copysign(INF, x) * math.copysign(1.0, y)


def _guard(f):
    def g(*a):
        try:
            return float(f(*a))
        except (ValueError, ZeroDivisionError):
            return NAN
        except OverflowError:
            return INF
    return g


def _pow(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return -INF if x < 0 and y == int(y) and int(y) % 2 else INF
    except (ValueError, ZeroDivisionError):
        if x == 0 and y < 0:
            return INF
        return NAN


def _gamma(x):
    if x != x or x == -INF:
        return NAN
    if x == INF:
        return INF
    if x == 0:
        return math.copysign(INF, x)
    try:
        return math.gamma(x)
    except OverflowError:
        return INF
    except ValueError:
        return NAN


def _round_away(x):
    return math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) else x


def _fl(f):
    return lambda x: float(f(x)) if math.isfinite(x) else x


def _single(x):
    if not math.isfinite(x):
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(INF, x)


F64 = {
    "sin": _guard(math.sin), "cos": _guard(math.cos), "tan": _guard(math.tan), "sqrt": _guard(math.sqrt), "exp": _guard(math.exp),
    "ln": lambda x: -INF if x == 0 else _guard(math.log)(x), "pow": _pow, "fabs": abs, "gamma": _gamma, "floor": _fl(math.floor), "ceil": _fl(math.ceil),
    "trunc": _fl(math.trunc), "round": _round_away, "acos": _guard(math.acos), "asin": _guard(math.asin), "atan": _guard(math.atan),
    "exp2": lambda x: _pow(2.0, x), "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "sinh": _guard(math.sinh), "cosh": _guard(math.cosh), "tanh": _guard(math.tanh),
    "lgamma": _guard(math.lgamma), "f32": lambda x: _single(x),
}


def _mpw(f):
    def g(*a):
        try:
            r = f(*a)
            if isinstance(r, mpmath.mpc):
                return mpf("nan")
            return r
        except (ValueError, ZeroDivisionError):
            return mpf("nan")
    return g


MPF = {
    "sin": _mpw(mpmath.sin), "cos": _mpw(mpmath.cos), "tan": _mpw(mpmath.tan), "sqrt": _mpw(mpmath.sqrt), "exp": _mpw(mpmath.exp), "ln": _mpw(mpmath.log),
    "pow": _mpw(mpmath.power), "fabs": abs, "gamma": _mpw(mpmath.gamma), "floor": _mpw(mpmath.floor), "ceil": _mpw(mpmath.ceil), "acos": _mpw(mpmath.acos),
    "asin": _mpw(mpmath.asin), "atan": _mpw(mpmath.atan), "exp2": _mpw(lambda x: mpf(2) ** x), "cbrt": _mpw(mpmath.cbrt), "sinh": _mpw(mpmath.sinh), "cosh": _mpw(mpmath.cosh), "tanh": _mpw(mpmath.tanh),
    "lgamma": _mpw(mpmath.loggamma), "f32": lambda x: mpf(F64["f32"](float(x))) if mpmath.isfinite(x) else x,
    "trunc": lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x), "round": lambda x: mpmath.floor(x + mpf(1) / 2) if x >= 0 else mpmath.ceil(x - mpf(1) / 2),
}


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def frombits(b):
    return struct.unpack("<d", struct.pack("<Q", b & ((1 << 64) - 1)))[0]


def total_key(x):
    b = struct.unpack("<q", struct.pack("<d", x))[0]
    return b ^ (((b >> 63) & ((1 << 64) - 1)) >> 1) if b < 0 else b


LIMIT = 200000


class Ev:
    """env: var term -> number; funcs: name -> callable; seqs: name -> callable(idx, path)"""

    def __init__(self, env, funcs=None, seqs=None, mode="f64", budget=4000000):
        self.mode = mode
        self.funcs = funcs or {}
        self.seqs = seqs or {}
        self.scopes = [(frozenset(), dict(env), {})]
        self.budget = budget
        self.regcache = {}
        self.lib = F64 if mode == "f64" else MPF
        self.used_eig = False
        self.sample = None      # n -> indices to visit instead of 0..n (integrands supported at few points)

    def num(self, x):
        return x if self.mode == "f64" else mpf(x)

    def lookup(self, v):
        for vs, env, _ in reversed(self.scopes):
            if v in env:
                return env[v]
        raise Undecided("no value for %s" % v.a[0])

    def level(self, t):
        for i in range(len(self.scopes) - 1, 0, -1):
            if not self.scopes[i][0].isdisjoint(t.fv):
                return i
        return 0

    def ev(self, t):
        op = t.op
        if op == "i" or op == "b":
            return t.a[0]
        if op == "f":
            return self.num(frombits(t.a[0]))
        if op == "var":
            return self.lookup(t)
        memo = self.scopes[self.level(t)][2] if t.fv else self.scopes[0][2]
        r = memo.get(t)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise TooBig("evaluation budget")
            r = self.go(t, op, t.a)
            memo[t] = r
        return r

    def bind(self, vs, vals, body):
        self.scopes.append((frozenset(vs), dict(zip(vs, vals)), {}))
        try:
            return self.ev(body)
        finally:
            self.scopes.pop()

    def go(self, t, op, a):
        ev = self.ev
        if op == "poly":
            s = a[0]
            for m, k in a[1]:
                p = k
                for x in m:
                    p *= ev(x)
                s += p
            return s
        if op == "div" or op == "rem":
            x, y = ev(a[0]), ev(a[1])
            if y == 0:
                raise Undecided("division by zero")
            q = abs(x) // abs(y)
            if (x >= 0) != (y >= 0):
                q = -q
            return q if op == "div" else x - q * y
        if op == "le0":
            return ev(a[0]) <= 0
        if op == "eq0":
            return ev(a[0]) == 0
        if op == "not":
            return not ev(a[0])
        if op == "and":
            return all(ev(x) for x in sorted(a[0], key=_cheap))
        if op == "or":
            return any(ev(x) for x in sorted(a[0], key=_cheap))
        if op == "ite":
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == "flt":
            return bool(ev(a[0]) < ev(a[1]))
        if op == "fle":
            return bool(ev(a[0]) <= ev(a[1]))
        if op == "feq":
            return bool(ev(a[0]) == ev(a[1]))
        if op == "isnan":
            x = ev(a[0])
            return bool(x != x)
        if op == "isfin":
            x = ev(a[0])
            return math.isfinite(x) if self.mode == "f64" else bool(mpmath.isfinite(x))
        if op == "fadd":
            return ev(a[0]) + ev(a[1])
        if op == "fsub":
            return ev(a[0]) - ev(a[1])
        if op == "fmul":
            return ev(a[0]) * ev(a[1])
        if op == "fdiv":
            x, y = ev(a[0]), ev(a[1])
            if self.mode == "f64":
                return _fdiv(x, y)
            if y == 0:
                return mpf("nan") if x == 0 or x != x else (mpf("inf") if x > 0 else mpf("-inf"))
            return x / y
        if op == "frem":
            x, y = ev(a[0]), ev(a[1])
            if self.mode == "f64":
                try:
                    return math.fmod(x, y)
                except ValueError:
                    return NAN
            return x - y * (mpmath.floor(x / y) if x / y >= 0 else mpmath.ceil(x / y))
        if op == "fneg":
            return -ev(a[0])
        if op == "fma":
            x, y, z = ev(a[0]), ev(a[1]), ev(a[2])
            if self.mode == "f64" and math.isfinite(x) and math.isfinite(y) and math.isfinite(z):
                from fractions import Fraction
                r = Fraction(x) * Fraction(y) + Fraction(z)
                try:
                    return float(r) if r else x * y + z
                except OverflowError:
                    return INF if r > 0 else -INF
            return x * y + z
        if op == "i2f":
            x = ev(a[0])
            return float(x) if self.mode == "f64" else mpf(x)
        if op == "f2i":
            x = ev(a[0])
            b, s = a[1], a[2]
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            if x != x:
                return 0
            if x >= hi:
                return hi
            if x <= lo:
                return lo
            return int(x)
        if op == "wrap":
            v = ev(a[0]) & ((1 << a[1]) - 1)
            if a[2] and v >> (a[1] - 1):
                v -= 1 << a[1]
            return v
        if op == "bitop":
            return self.bitop(a[0], ev(a[1]), ev(a[2]), a[3], a[4])
        if op in ("sum", "prod"):
            n = ev(a[1])
            rng = range(n)
            if self.sample is not None and op == "sum":
                rng = self.sample(n)
            elif n > LIMIT:
                raise TooBig("sum of %d terms" % n)
            acc = ev(a[3])
            bv, body = (a[0],), a[2]
            for k in rng:
                x = self.bind(bv, (k,), body)
                acc = acc + x if op == "sum" else acc * x
            return acc
        if op == "isum":
            n = ev(a[1])
            if n > LIMIT:
                raise TooBig("sum of %d terms" % n)
            acc = 0
            for k in range(n):
                acc += self.bind((a[0],), (k,), a[2])
            return acc
        if op == "trip":
            for k in range(LIMIT):
                if self.bind((a[0],), (k,), a[1]):
                    return k
            raise TooBig("no trip count found")
        if op == "rec":
            idx, n, bv, phis, inits, nexts = a
            cnt = ev(n)
            if cnt > LIMIT:
                raise TooBig("recurrence of %d rounds" % cnt)
            cur = [ev(x) for x in inits]
            for k in range(cnt):
                self.scopes.append((frozenset((bv,) + phis), dict(zip((bv,) + phis, [k] + cur)), {}))
                try:
                    cur = [self.ev(x) for x in nexts]
                finally:
                    self.scopes.pop()
            return cur[idx]
        if op == "sel":
            if a[1] in self.seqs:
                return self.num(self.seqs[a[1]](tuple(ev(x) for x in a[2]), a[3]))
            raise Undecided("sequence %s" % a[1])
        if op == "app":
            return self.app(t, a)
        if op == "ext":
            k = (a[1],) + tuple(x if not isinstance(x, T) else x for x in a[2:])
            if a[1] in self.funcs:
                return self.funcs[a[1]](*[x for x in a[2:]])
            raise Undecided("external value %s" % a[1])
        raise Undecided("value of %s" % op)

    def bitop(self, o, x, y, b, s):
        m = (1 << b) - 1
        if o in ("BitAnd", "BitOr", "BitXor"):
            r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[o]
        elif o == "Shl":
            r = x << (y % b)
        elif o == "Shr":
            r = x >> (y % b)
        else:
            raise Undecided("bit operation %s" % o)
        r &= m
        if s and r >> (b - 1):
            r -= 1 << b
        return r

    def app(self, t, a):
        name = a[1]
        ev = self.ev
        if name == "tab":
            d = TABLES_()[a[2]]
            for x in a[3:]:
                i = ev(x)
                if not isinstance(d, list) or i < 0 or i >= len(d):
                    raise Undecided("table index out of range")
                d = d[i]
            if d[0] == "f":
                return self.num(frombits(d[1]))
            return d[1]
        if name == "tlen":
            d = TABLES_()[a[2]]
            for x in a[3:]:
                i = ev(x)
                if i < 0 or i >= len(d):
                    raise Undecided("table index out of range")
                d = d[i]
            return len(d)
        if name in ("srt", "eigval", "eigvec", "fel", "flen"):
            return self.reg(name, a)
        if name in self.funcs:
            r = self.funcs[name](*[ev(x) for x in a[2:]])
            return self.num(r) if a[0] == "float" else r
        if name == "powi":
            x, n = ev(a[2]), ev(a[3])
            if self.mode == "f64":
                return _pow(x, float(n))
            return x ** n
        if name == "tcmp":
            x, y = total_key(float(ev(a[2]))), total_key(float(ev(a[3])))
            return 0 if x < y else 1 if x == y else 2
        if name == "pcmp":
            x, y = ev(a[2]), ev(a[3])
            return 0 if x < y else 1 if x == y else 2
        if name in ("ctlz", "cttz", "ctpop"):
            x, w = ev(a[2]), ev(a[3])
            return w - x.bit_length() if name == "ctlz" else bin(x).count("1") if name == "ctpop" else (x & -x).bit_length() - 1 if x else w
        if name == "bits":
            return bits(float(ev(a[2])))
        if name == "frombits":
            return self.num(frombits(ev(a[2])))
        if name == "bits32":
            return struct.unpack("<I", struct.pack("<f", F64["f32"](float(ev(a[2])))))[0]
        if name == "frombits32":
            return self.num(struct.unpack("<f", struct.pack("<I", ev(a[2]) & 0xffffffff))[0])
        if name == "signbit":
            return math.copysign(1.0, float(ev(a[2]))) < 0
        if name in self.lib:
            return self.lib[name](*[ev(x) for x in a[2:]])
        if name == "exp2":
            return self.lib["pow"](self.num(2.0), ev(a[2]))
        raise Undecided("function %s" % name)

    # ---- registry objects
    def reg(self, name, a):
        rid = a[2]
        obj = _val.REG.obj[rid]
        idx = [self.ev(x) for x in ([a[3], a[4]] if name == "eigvec" else [a[4]])]
        pv = tuple(self.ev(x) for x in a[5:])
        key = (rid, pv)
        if key not in self.regcache:
            self.regcache[key] = self.build(obj, dict(zip(obj[3], pv)))
        r = self.regcache[key]
        if name == "flen":
            return len(r)
        if name in ("srt", "fel"):
            if not (0 <= idx[0] < len(r)):
                raise Undecided("index out of range")
            return r[idx[0]][a[3]]
        self.used_eig = True
        vals, vecs = r
        try:
            x = vals[idx[0]] if name == "eigval" else vecs[idx[0], idx[1]]
        except IndexError:
            raise Undecided("index out of range")
        return self.num(float(x)) if self.mode == "f64" else mpf(x)

    def build(self, obj, env):
        self.scopes.append((frozenset(env), dict(env), {}))
        try:
            lam = obj[1]
            if obj[0] == "filter":
                n = self.ev(lam.n[0])
                if n > 3000:
                    raise TooBig("filter of %d elements" % n)
                keep, leaves = lam.body.c[0], vleaves(lam.body)
                rows = []
                for i in range(n):
                    self.scopes.append((frozenset(lam.bv), {lam.bv[0]: i}, {}))
                    try:
                        if self.ev(keep):
                            rows.append([None] + [self.ev(x) for x in leaves[1:]])
                    finally:
                        self.scopes.pop()
                return rows
            if obj[0] == "bsearch":
                n = self.ev(lam.n[0])
                leaves = vleaves(lam.body)
                d, xs = obj[2]

                def cmp(i):
                    self.scopes.append((frozenset(lam.bv), {lam.bv[0]: i}, {}))
                    try:
                        m = dict(zip(xs, [self.ev(x) for x in leaves]))
                    finally:
                        self.scopes.pop()
                    self.scopes.append((frozenset(m), m, {}))
                    try:
                        return self.ev(d)
                    finally:
                        self.scopes.pop()
                if n == 0:
                    return [[None, 1, 0]]
                base, size = 0, n
                while size > 1:
                    half = size // 2
                    base = base if cmp(base + half) == 2 else base + half
                    size -= half
                q = cmp(base)
                return [[None, 0, base] if q == 1 else [None, 1, base + (q == 0)]]
            if obj[0] == "dedup":
                n = self.ev(lam.n[0])
                if n > 3000:
                    raise TooBig("merge of %d elements" % n)
                leaves = vleaves(lam.body)
                same, a, b, xs, ys = obj[2]
                rows = []
                for i in range(n):
                    self.scopes.append((frozenset(lam.bv), {lam.bv[0]: i}, {}))
                    try:
                        row = [self.ev(x) for x in leaves]
                    finally:
                        self.scopes.pop()
                    if not rows:
                        rows.append([None] + row)
                        continue
                    m = dict(zip(xs, row))
                    m.update(zip(ys, rows[-1][1:]))
                    self.scopes.append((frozenset(m), m, {}))
                    try:
                        gone = self.ev(same)
                        cur, rows[-1] = [self.ev(x) for x in a], [None] + [self.ev(x) for x in b]
                    finally:
                        self.scopes.pop()
                    if not gone:
                        rows.append([None] + cur)
                return rows
            if obj[0] == "sort":
                n = self.ev(lam.n[0])
                if n > 3000:
                    raise TooBig("sort of %d elements" % n)
                leaves = vleaves(lam.body)
                rows = []
                for i in range(n):
                    self.scopes.append((frozenset(lam.bv), {lam.bv[0]: i}, {}))
                    try:
                        rows.append([self.ev(x) for x in leaves])
                    finally:
                        self.scopes.pop()
                d, xs, ys = obj[2]
                # an unstable sort may order equal keys in any way: start from a scrambled order
                random.Random(n).shuffle(rows)

                def cmp(p, q):
                    m = {}
                    for v, w in zip(xs, p):
                        m[v] = w
                    for v, w in zip(ys, q):
                        m[v] = w
                    self.scopes.append((frozenset(m), m, {}))
                    try:
                        return self.ev(d) - 1
                    finally:
                        self.scopes.pop()
                rows.sort(key=functools.cmp_to_key(cmp))
                return rows
            import numpy as np
            n, m = self.ev(lam.n[0]), self.ev(lam.n[1])
            if n != m:
                raise Undecided("not square")
            if n > (1100 if banded(obj) else 600):
                raise TooBig("matrix of size %d" % n)
            M = np.zeros((n, n))
            band = banded(obj)
            for i in range(n):
                for j in range(max(0, i - 1) if band else 0, i + 1):
                    self.scopes.append((frozenset(lam.bv), {lam.bv[0]: i, lam.bv[1]: j}, {}))
                    try:
                        M[i, j] = float(self.ev(lam.body))
                    finally:
                        self.scopes.pop()
            if not np.isfinite(M).all():
                return np.full(n, np.nan), np.full((n, n), np.nan)
            M = np.tril(M) + np.tril(M, -1).T
            w, v = np.linalg.eigh(M)
            # the order of the eigenpairs and the signs of the vectors are unspecified
            rr = random.Random(n * 7 + 1)
            perm = list(range(n))
            rr.shuffle(perm)
            sg = np.array([rr.choice((-1.0, 1.0)) for _ in range(n)])
            return w[perm], v[:, perm] * sg
        finally:
            self.scopes.pop()

    # ---- structured values
    def val(self, v):
        if isinstance(v, T):
            return self.ev(v)
        if isinstance(v, N):
            return (v.k,) + tuple(self.val(x) for x in v.c)
        if isinstance(v, IteV):
            return self.val(v.a) if self.ev(v.c) else self.val(v.b)
        if isinstance(v, Adt):
            d = self.ev(v.d)
            return (v.path, d) + tuple(self.val(x) for x in v.vs.get(d, ()))
        if isinstance(v, Lam):
            n = [self.ev(x) for x in v.n]
            if len(n) != 1 or n[0] > LIMIT:
                raise TooBig("sequence")
            return [self.elem(v, (i,)) for i in range(n[0])]
        raise Undecided("value %s" % v)

    def elem(self, lam, idx):
        self.scopes.append((frozenset(lam.bv), dict(zip(lam.bv, idx)), {}))
        try:
            return self.val(lam.body)
        finally:
            self.scopes.pop()


BAND = {}


def banded(obj):
    """the entries of a matrix below the first subdiagonal are zero"""
    r = BAND.get(obj[4])
    if r is None:
        from .linear import simp
        lam = obj[1]
        i, j = lam.bv
        d = fresh("d", "int", 2)
        t = subst(lam.body, {i: iadd(j, d)}) if isinstance(lam.body, T) else None
        t = simp(t, [ile(I(2), d), ile(ZERO, j)]) if t is not None else None
        r = BAND[obj[4]] = t is not None and t.op == "f" and frombits(t.a[0]) == 0.0
    return r


def _cheap(t):
    return 0 if t.knd == "bool" and t.op in ("le0", "eq0") else 1


def TABLES_():
    from .interp import TABLES
    return TABLES
