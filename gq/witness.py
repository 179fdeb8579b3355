"""Search for a point at which a summary and the specification really differ.

Only a concrete point counts as a violation, so a rewriting of the code that leaves its value
unchanged cannot raise an alarm.  The candidates are directed by the summary itself: every condition
in it is turned into inputs on both sides of its boundary, every constant into nearby values."""
import itertools
import math
import random
import mpmath
from mpmath import mpf
from .val import *
from .evalt import Ev, Undecided, TooBig, frombits, LIMIT
from .nf import atoms_of


def deepterms(ts):
    """the terms together with those inside the sorted, filtered and decomposed sequences they mention"""
    from . import val as _v
    out, seen, todo = list(ts), set(), list(ts)
    while todo:
        for x in subterms(todo.pop()):
            if x.op == "app" and x.a[1] in ("srt", "eigval", "eigvec", "fel", "flen") and x.a[2] not in seen:
                seen.add(x.a[2])
                obj = _v.REG.obj[x.a[2]]
                new = vleaves(obj[1].body) + [n for n in obj[1].n]
                if obj[0] in ("sort", "bsearch"):
                    new.append(obj[2][0])
                if obj[0] == "dedup":
                    new += [obj[2][0]] + obj[2][1] + obj[2][2]
                out += new
                todo += new
    return out


def collect(ts):
    """integer and float constants, conditions"""
    ints, fls, conds = set(), set(), set()
    for t in ts:
        for x in subterms(t):
            if x.op == "i":
                ints.add(abs(x.a[0]))
            elif x.op == "poly":
                ints.add(abs(x.a[0]))
                for _, k in x.a[1]:
                    ints.add(abs(k))
            elif x.op == "f":
                v = frombits(x.a[0])
                if v == v:
                    fls.add(v)
            elif x.op in ("le0", "eq0", "flt", "fle", "feq", "isnan", "isfin"):
                conds.add(x)
    return ints, fls, conds


def int_candidates(ts, v, lo=1, hi=(1 << 64) - 1, cap=None, base=(1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33)):
    """values of the integer variable v on both sides of every boundary"""
    ints, fls, conds = collect(ts)
    out = set(base)
    for c in ints:
        for q in (1, 2):
            for d in (-2, -1, 0, 1, 2, 3):
                out.add(c * q + d)
    for f in fls:
        if math.isfinite(f) and abs(f) < 2 ** 60 and abs(f) >= 1:
            for d in (-1, 0, 1, 2):
                out.add(int(abs(f)) + d)
    for t in ts:
        for x in subterms(t):
            if x.op == "wrap":
                out |= {(1 << x.a[1]) + d for d in (-1, 0, 1, 2)}
    if any(x.op == "app" and x.a[1] == "f32" for t in ts for x in subterms(t)):
        out |= {(1 << 24) + 1, (1 << 25) + 3, (1 << 31) + 1}
    for c in conds:
        if c.op in ("le0", "eq0") and v in c.fv:
            d = poly_of(c.a[0])
            a = d.get((v,), 0)
            k = d.get((), 0)
            if a:
                for e in (-1, 0, 1):
                    out.add(-k // a + e)
            a2 = d.get((v, v), 0)
            if a2 and -k // a2 > 0:
                r = math.isqrt(-k // a2)
                out |= {r - 1, r, r + 1}
            for m in d:
                for x in m:
                    if x.op in ("rem", "div") and x.a[1].op == "i":
                        q = abs(x.a[1].a[0])
                        for e in range(-2, 3):
                            out |= {q + e, 2 * q + e, 3 * q + e}
    out = sorted(x for x in out if max(lo, 0) <= x <= hi)
    if cap:
        small = [x for x in out if x <= cap]
        return small
    return out


def float_candidates(ts, extra=()):
    ints, fls, conds = collect(ts)
    out = {0.0, 1.0, -1.0, 0.5, 2.0, -2.5, 3.0, 10.0}
    out |= set(extra)
    for f in fls:
        if math.isfinite(f):
            for g in (f, -f):
                out |= {g, math.nextafter(g, math.inf), math.nextafter(g, -math.inf), g * 0.5, g * 2, g + 1, g - 1}
    return sorted(x for x in out if math.isfinite(x)) + [x for x in extra if not math.isfinite(x)]


def solve_float(cond, v, env, evf):
    """values of float variable v at the boundary of a condition, other variables as in env"""
    if cond.op not in ("flt", "fle", "feq") or v not in cond.fv:
        return []
    L, R = cond.a

    def g(x):
        e = dict(env)
        e[v] = x
        ev = evf(e)
        return ev.ev(L) - ev.ev(R)
    out = []
    try:
        xs = [(-0.7), 1.3]
        ys = [g(x) for x in xs]
        d = ys[1] - ys[0]
        if d != 0 and all(map(math.isfinite, map(float, ys))):
            x = xs[0] - ys[0] * (xs[1] - xs[0]) / d
            x = float(x)
            for _ in range(30):
                y = g(x)
                y2 = g(x + 1e-6 * (abs(x) + 1))
                if y == 0 or y2 == y:
                    break
                nx = float(x - y * (1e-6 * (abs(x) + 1)) / (y2 - y))
                if not math.isfinite(nx) or nx == x:
                    break
                x = nx
            if math.isfinite(x):
                out += [x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x + 0.25, x - 0.25, x + 1, x - 1, x * (1 + 1e-9), x * (1 - 1e-9)]
    except (Undecided, ArithmeticError, ValueError):
        pass
    return [x for x in out if math.isfinite(x)]


def bracket(cond, v, env, evf):
    """parameters above -1 at which a condition changes, on both sides of the change"""
    if cond.op not in ("flt", "fle", "feq") or v not in cond.fv:
        return []
    L, R = cond.a

    def g(t):
        e = dict(env)
        e[v] = float(-1 + t)
        ev = evf(e)
        return ev.ev(L) - ev.ev(R)
    out = []
    try:
        ts = [10.0 ** k for k in range(-15, 3)]
        ys = [g(t) for t in ts]
        for a, b, ya, yb in zip(ts, ts[1:], ys, ys[1:]):
            if (ya < 0) != (yb < 0):
                for _ in range(30):
                    m = math.sqrt(a * b)
                    if (g(m) < 0) == (ya < 0):
                        a = m
                    else:
                        b = m
                out += [-1 + a, -1 + b, -1 + a * 0.7, -1 + b * 1.4, -1 + a * 0.01, -1 + b * 100]
    except (Undecided, ArithmeticError, ValueError):
        pass
    return [x for x in dict.fromkeys(out) if x > -1.0]


def int_bracket(cond, v, env, evf, lo, hi):
    """values of the integer variable v on both sides of a change of a condition, other variables as in env"""
    def g(x):
        e = dict(env)
        e[v] = x
        return bool(evf(e).ev(cond))
    out = []
    try:
        xs = [lo] + [x for k in range(0, 53) for x in ((1 << k) + 1,) if lo < x < hi]
        ys = [g(x) for x in xs]
    except (Undecided, ArithmeticError, ValueError, IndexError):
        return out
    for a, b, ya, yb in zip(xs, xs[1:], ys, ys[1:]):
        if ya != yb:
            while b - a > 1:
                m = (a + b) // 2
                if g(m) == ya:
                    a = m
                else:
                    b = m
            out += [a, b, b + 1, b + 7, 2 * b]
    return [x for x in dict.fromkeys(out) if lo <= x <= hi]


def smooth(i):
    """integrands without symmetry"""
    def f0(x):
        return 1 + 1 / (1 + abs(x - mpf("0.3137"))) + 3 / (2 + abs(x + mpf("1.7193")))

    def f1(x):
        return 2 + x

    def f2(x):
        return 1 + (x - mpf("0.37")) ** 2
    return (f0, f1, f2)[i % 3]


def differ(a, b, tol=1e-9, scale=0):
    """a, b numbers; NaN equals NaN"""
    an, bn = a != a, b != b
    if an or bn:
        return an != bn
    if a == b:
        return False
    if not (mpmath.isfinite(a) and mpmath.isfinite(b)):
        return True
    return abs(a - b) > tol * (abs(a) + abs(b)) + 1e-12 * scale + 1e-300
