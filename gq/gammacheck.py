"""P23: accuracy of the moments (gamma function) in exact arithmetic.

The moment used by a constructor is a closed-form expression in its parameters.  Between the
conditions it contains it is analytic, so its relative error is expanded in a Chebyshev series on each
piece (subdivided geometrically); decaying coefficients bound the error on the whole piece."""
import math
import random
import mpmath
from mpmath import mpf, mp
from .ctor import *
from .evalt import Ev, Undecided
from .domain import EXTREME

TOL = mpf(10) ** -12
HI = 171


def breakpoints(terms, vs):
    """parameter values at which a condition of the terms changes (one variable)"""
    out = set()
    v = vs
    for c in collect(terms)[2]:
        if c.op in ("flt", "fle", "feq") and v in c.fv:
            for x0 in (0.3, 2.0, 50.0, 160.0):
                for x in solve_float(c, v, {v: x0}, lambda e: Ev(e, {}, {}, "f64")):
                    if math.isfinite(x):
                        out.add(x)
    return out


def chebyshev(f, a, b, n):
    """Chebyshev coefficients of f on [a, b]"""
    xs = [mp.cos(mp.pi * (2 * j + 1) / (2 * n)) for j in range(n)]
    fs = [f((a + b) / 2 + (b - a) / 2 * x) for x in xs]
    cs = []
    for k in range(n):
        s = mpf(0)
        for j in range(n):
            s += fs[j] * mp.cos(mp.pi * k * (2 * j + 1) / (2 * n))
        cs.append(s * (2 if k else 1) / n)
    return cs, max(abs(x) for x in fs)


def series_bound(err, pieces, n=24):
    """largest bound of |err| over the pieces, or ('bad', x, value), or ('open', piece)"""
    worst, cnt = mpf(0), 0
    work = list(pieces)
    while work:
        a, b = work.pop()
        cs, mx = chebyshev(err, a, b, n)
        if mx > TOL:
            m = (a + b) / 2
            xs = [m + (b - a) / 2 * mp.cos(mp.pi * (2 * j + 1) / (2 * n)) for j in range(n)]
            x = max(xs, key=lambda x: abs(err(x)))
            return "bad", x, err(x)
        tail = sum(abs(c) for c in cs[-4:])
        if tail > mpf(10) ** -14:
            if cnt > 400 or b - a < mpf(10) ** -6 * abs(b):
                return "open", (a, b), tail
            m = mp.sqrt(a * b) if b / a > 4 else (a + b) / 2
            work += [(a, m), (m, b)]
            continue
        cnt += 1
        worst = max(worst, sum(abs(c) for c in cs) + tail)
    return "ok", worst, cnt


def grid(brk, lo, hi):
    """geometric pieces of (lo, hi) between the break points"""
    pts = sorted({lo, hi} | {mpf(x) for x in brk if lo < x < hi})
    out = []
    for a, b in zip(pts, pts[1:]):
        x = a
        while x < b:
            y = min(b, x * 2 if x > 0 else b)
            out.append((x, y))
            x = y
    return out


def run_gamma(rep, apis, seed, deep=False):
    with mp.workdps(40):
        for cfg, api in apis.items():
            # functions recognised as the gamma function (by value)
            for f, v, x in api.gamma_fns:
                rep.count("gamma functions")
                what = "gamma function: relative error on (0, %d] [%s]" % (HI, cfg)
                err = lambda z: Ev({x: z}, {}, {}, "mp").ev(v) / mpmath.gamma(z) - 1
                settle(rep, "gamma function [%s]" % cfg, what, f.get("ispan"), err, breakpoints([v], x), mpf(2) ** -60, lambda z: dict(argument=mpmath.nstr(z, 20)))
            moments(rep, api, cfg, seed, deep)


def settle(rep, key, what, where, err, brk, lo, wit):
    try:
        r = series_bound(err, grid(brk, lo, mpf(HI)))
        # both sides of every break point
        for b in brk:
            for z in (mpf(b), mpf(b) * (1 + mpf(2) ** -52), mpf(b) * (1 - mpf(2) ** -52)):
                if lo <= z <= HI and not abs(err(z)) <= TOL and r[0] != "bad":
                    r = ("bad", z, err(z))
    except (Undecided, OverflowError, ZeroDivisionError) as e:
        rep.open(what, e)
        return
    if r[0] == "ok":
        rep.ok(what, "Chebyshev bound %s on %d pieces" % (mpmath.nstr(r[1], 3), r[2]))
    elif r[0] == "bad":
        rep.bad(key, what + " exceeds 1e-12", where, dict(wit(r[1]), relative_error=mpmath.nstr(r[2], 5)))
    else:
        rep.open(what, "series does not converge on %s" % (r[1],))


def moments(rep, api, cfg, seed, deep):
    """the scale of the weights as a function of the parameters, gamma function not abstracted"""
    for rule in ("GaussLaguerre", "GaussJacobi"):
        key = "%s::new" % rule
        tag = "%s [%s]" % (key, cfg)
        saved = set(api.p.gamma_insts)
        api.p.gamma_insts.clear()
        try:
            b = Built(api, rule)
        finally:
            api.p.gamma_insts |= saved
        rep.count("constructors")
        rep.count("functions analysed", len(b.s.I.analysed))
        if b.ps is None:
            rep.open(tag, "summary incomplete: %s" % b.s.limits()[:2])
            continue
        params = [b.pval(i) for i in range(1, len(b.args))]
        bv = fresh("i", "int", 0, 1 << 62)
        x, w = b.pair(bv)
        facts = b.facts + [ile(ZERO, bv), ilt(bv, b.ps.n[0])]
        scales = []
        try:
            for fs, (x1, w1) in split([x, w], facts):
                if params and all(pinned(p, fs) is not None for p in params):
                    continue
                if x1.op == "f":
                    x1 = rebuilt_node(w1, bv) or x1
                if x1.op == "app" and x1.a[1] == "srt":
                    r = recognise(x1, w1, bv, fs)
                    if isinstance(r, Eig):
                        if r.scale not in [s for s, _ in scales]:
                            scales.append((r.scale, "moment"))
                    else:
                        rep.open(tag, r)
                elif entails(fs, ieq(b.n, ONE)):
                    scales.append((w1, "degree-1 weight"))
                else:
                    rep.open(tag, "closed form outside degree 1")
        except Give:
            rep.open(tag, "too many cases")
        seen = {}
        for sc, nm in scales:
            rep.count("moments")
            cs = [c for c in subterms(sc) if c.op == "ite" and any(v in params for v in c.a[0].fv)]
            if rule == "GaussLaguerre":
                p = params[0]
                err = lambda z: Ev({p: z - 1, b.n: 2 if nm == "moment" else 1}, {}, {}, "mp").ev(sc) / mpmath.gamma(z) - 1
                brk = {x + 1 for x in breakpoints([sc], p)}
                settle(rep, "%s %s" % (tag, nm), "%s: %s as a function of alpha" % (tag, nm), b.where, err, brk, mpf(2) ** -52, lambda z: dict(alpha=mpmath.nstr(z - 1, 20)))
            else:
                lines(rep, "%s %s" % (tag, nm), "%s: %s" % (tag, nm), b, sc, params, nm, seed, deep)


def lines(rep, key, what, b, sc, params, nm, seed, deep):
    """Jacobi moment: both parameters; chosen points including every break point combination"""
    rnd = random.Random(seed)
    base = list(EXTREME) + [-0.49999999999999994, -0.5000000000000001, 0.49, 3.3, 5.5, 158.4, 80.0, 84.0]
    for p in params:
        for q in (0.25, -0.5, 3.0):
            o = [x for x in params if x is not p][0]
            for c in collect([sc])[2]:
                if c.op in ("flt", "fle", "feq") and p in c.fv:
                    for x in solve_float(c, p, {p: 0.3, o: q}, lambda e: Ev(e, {}, {}, "f64")):
                        base += [x, math.nextafter(x, 1e9), math.nextafter(x, -1e9)]
    base = [x for x in dict.fromkeys(base) if -1 < x <= 169]
    pts = [(x, y) for x in base for y in base if x + y + 2 <= HI]
    rnd.shuffle(pts)
    pts = pts[:2000 if deep else 500] + [(rnd.uniform(-1, 4), rnd.uniform(-1, 4)) for _ in range(600 if deep else 120)] + [(rnd.uniform(-1, 84), rnd.uniform(-1, 84)) for _ in range(400 if deep else 80)]
    worst = mpf(0)
    for p in pts:
        x, y = mpf(p[0]), mpf(p[1])
        env = {b.n: 2 if nm == "moment" else 1}
        env.update(zip(params, (x, y)))
        try:
            g = Ev(env, {}, {}, "mp").ev(sc)
        except (Undecided, OverflowError, ZeroDivisionError) as e:
            rep.open(what, e)
            return
        t = mpf(2) ** (x + y + 1) * mpmath.gamma(x + 1) * mpmath.gamma(y + 1) / mpmath.gamma(x + y + 2)
        e = abs(g / t - 1)
        if not e <= 3 * TOL:
            rep.bad(key, "%s: relative error exceeds 3e-12" % what, b.where, dict(parameters=list(p), got=mpmath.nstr(g, 17), want=mpmath.nstr(t, 17)))
            return
        worst = max(worst, e)
        rep.count("moment values folded")
    rep.ok("%s: relative error" % what, "at most %s at %d parameter pairs (each gamma value is bounded on its whole range)" % (mpmath.nstr(worst, 3), len(pts)))
