"""P10, P11: Gauss-Legendre data.

The summary of the constructor is a closed-form expression over constant tables.  For degrees up to
100 the folding is exhaustive (every degree and index); above, the summary is one analytic expression
between the conditions it contains, and it is folded on both sides of every condition and on a graded
grid of degrees and indices.  Oracle: gq/bessel.py (three-term recurrence; Langer expansion)."""
import math
import os
import random
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
import mpmath
from mpmath import mpf
from .api import *
from .witness import *
from .evalt import Ev, Undecided
from .linear import entails
from .ctor import Built
from . import bessel

TOL = {"f64": (2.5e-15, 3.0e-15), "mp": (5e-16, 5e-16)}


def _rec(nk):
    x, w = bessel.recurrence(*nk)
    return nk, (x, w)


def _lang(nk):
    t, x, w = bessel.pair(*nk)
    return nk, (x, w)


def refs(f, nks):
    """reference pairs computed in worker processes"""
    nks = list(nks)
    if not nks:
        return {}
    bessel.phis()
    with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
        return dict(ex.map(f, nks, chunksize=max(1, len(nks) // 64)))


def built(rep, api, cfg):
    for meth in ("new", "par_new"):
        if api.method("GaussLegendre", meth, need=(meth == "new")) is None:
            continue
        b = Built(api, "GaussLegendre", meth)
        tag = "GaussLegendre::%s [%s]" % (meth, cfg)
        rep.count("constructors")
        rep.count("functions analysed", len(b.s.I.analysed))
        if b.v is None:
            rep.bad(tag, "GaussLegendre::%s never returns" % meth, b.where, "every input")
            continue
        if b.ps is None:
            rep.open(tag, "summary incomplete: %s" % b.s.limits()[:2])
            continue
        yield tag, b


class Folder:
    """values of one rule at a degree, in both arithmetics"""

    def __init__(self, b, n):
        self.e = {m: Ev({b.n: n}, {}, {}, m) for m in ("f64", "mp")}
        self.b, self.n = b, n
        self.ok = all(self.e["f64"].ev(f) for f in b.facts)

    def len(self):
        return self.e["f64"].ev(self.b.ps.n[0])

    def err(self, i, x, w, mode):
        el = self.e[mode].elem(self.b.ps, (i,))
        gx, gw = mpf(el[1]), mpf(el[2])
        ex = abs(gx - x)
        ew = abs(gw - w) / w
        tx, tw = TOL[mode]
        bad = None
        if not (ex <= tx):
            bad = ("node", gx, x)
        elif not (ew <= tw):
            bad = ("weight", gw, w)
        return float(ex) if ex == ex else math.inf, float(ew) if ew == ew else math.inf, bad


def report(rep, key, what, b, n, i, bad, tag):
    nm, g, w = bad
    rep.bad(key, what, b.where, dict(degree=n, index=i, got="%s %s" % (nm, mpmath.nstr(g, 18)), want=mpmath.nstr(w, 18)))


def run_tabulated(rep, apis, seed):
    ref = None
    for cfg, api in apis.items():
        for tag, b in built(rep, api, cfg):
            if ref is None:
                ref = refs(_rec, [(n, k) for n in range(1, 101) for k in range(1, (n + 1) // 2 + 1)])
                rep.count("reference pairs", len(ref))
            worst = {"f64": [0, 0], "mp": [0, 0]}
            und, hit = None, False
            for n in range(1, 101):
                try:
                    f = Folder(b, n)
                    if not f.ok:
                        rep.bad(tag + " panics", "%s does not return for degree %d" % (tag, n), b.where, dict(degree=n))
                        hit = True
                        break
                    if f.len() != n:
                        rep.bad(tag + " length", "%s holds %d pairs for degree %d" % (tag, f.len(), n), b.where, dict(degree=n))
                        hit = True
                        break
                    for i in range(n):
                        k = n - i
                        m = min(k, n + 1 - k)
                        x, w = ref[n, m]
                        if k != m:
                            x = -x
                        if 2 * k == n + 1:
                            x = mpf(0)
                        for mode in ("f64", "mp"):
                            ex, ew, bad = f.err(i, x, w, mode)
                            worst[mode] = [max(worst[mode][0], ex), max(worst[mode][1], ew)]
                            if bad and not hit:
                                hit = True
                                report(rep, tag, "%s: stored data differ from the roots and Christoffel numbers of the Legendre polynomial" % tag, b, n, i, bad, tag)
                        rep.count("pairs folded")
                except (Undecided, OverflowError, ZeroDivisionError, IndexError) as e:
                    und = "degree %d: %s" % (n, e)
                    break
                if hit:
                    break
            if hit:
                continue
            if und:
                rep.open(tag, und)
            else:
                rep.ok("%s: all 5050 pairs" % tag, "largest error: nodes %.1e, weights %.1e (relative); in exact arithmetic %.1e, %.1e" % (worst["f64"][0], worst["f64"][1], worst["mp"][0], worst["mp"][1]))


def degrees(ts, n, seed, deep):
    rnd = random.Random(seed)
    out = set(range(101, 108)) | {110, 120, 127, 128, 129, 150, 151, 200, 255, 256, 300, 301, 500, 999, 1000, 1001, 2048, 5000, 10000, 65535, 65536, 65537, 100001, 10 ** 6, 10 ** 7 + 1, (1 << 24) + 1, 10 ** 9, (1 << 31) + 1, (1 << 32) + 1, (1 << 40) + 1, (1 << 50) + 3}
    out |= {x for x in int_candidates(ts, n, lo=101, hi=1 << 52)}
    for _ in range(60 if deep else 12):
        out.add(int(101 * 10 ** rnd.uniform(0, 6 if deep else 4)))
    if deep:
        out |= set(range(101, 420))
    return sorted(out)


def indices(ts, conds, nv, bv, n, seed, deep):
    """positions i < n to fold: ends, middle, graded grid, both sides of every condition"""
    rnd = random.Random(seed * 1000003 + n)
    h = (n + 1) // 2
    ks = set(range(1, 27)) | {h, h - 1, h - 2} | {int(h * (1 - math.cos(j * math.pi / 16)) / 2) + 1 for j in range(17)} | {rnd.randrange(1, h + 1) for _ in range(12 if deep else 4)}
    ii = set()
    for k in ks:
        if 1 <= k <= n:
            ii.add(n - k)
            ii.add(k - 1)
    for c in conds:
        d = poly_of(c.a[0])
        a = d.get((bv,), 0)
        if not a or any(bv in x.fv for m in d for x in m if x is not bv):
            continue
        try:
            e = Ev({nv: n, bv: 0}, {}, {}, "f64")
            r = e.ev(c.a[0])
        except Undecided:
            continue
        z = -r // a
        ii |= {z - 1, z, z + 1}
    cand = [x for x in int_candidates(ts, bv, lo=0, hi=n - 1)]
    rnd.shuffle(cand)
    ii |= set(cand[:200 if deep else 40])
    return sorted(i for i in ii if 0 <= i < n)


def run_large(rep, apis, seed, deep=False):
    jobs = []
    need = set()
    for cfg, api in apis.items():
        for tag, b in built(rep, api, cfg):
            bv = fresh("i", "int", 0, 1 << 62)
            x, w = b.pair(bv)
            ts = [x, w]
            conds = [c for c in collect(ts)[2] if c.op in ("le0", "eq0") and bv in c.fv]
            rep.count("conditions in the summary", len(collect(ts)[2]))
            facts = b.facts + [ile(ZERO, bv), ilt(bv, b.n)]
            for n in degrees(ts, b.n, seed, deep and cfg == "default"):
                idx = indices(ts, conds, b.n, bv, n, seed, deep)
                jobs.append((tag, b, n, idx))
                for i in idx:
                    need.add((n, min(n - i, i + 1)))
    # the oracle is checked against the recurrence first
    for n, k in ((101, 1), (101, 25), (102, 51), (150, 75), (317, 9)):
        x, w = bessel.recurrence(n, k)
        t, x2, w2 = bessel.pair(n, k)
        if abs(x - x2) > mpf(10) ** -20 or abs(w - w2) > mpf(10) ** -20 * w:
            rep.errors.append("oracle: expansion and recurrence differ at %s" % ((n, k),))
    ref = refs(_lang, sorted(need))
    rep.count("reference pairs", len(ref))
    worst, und, hit, seen = {}, {}, set(), {}
    for tag, b, n, idx in jobs:
        if tag in hit:
            continue
        try:
            f = Folder(b, n)
            if not f.ok:
                continue
            seen[tag] = seen.get(tag, 0) + 1
            if f.len() != n:
                rep.bad(tag + " length", "%s holds %d pairs for degree %d" % (tag, f.len(), n), b.where, dict(degree=n))
                hit.add(tag)
                continue
            for i in idx:
                m = min(n - i, i + 1)
                x, w = ref[n, m]
                if n - i != m:
                    x = -x
                for mode in ("f64", "mp"):
                    ex, ew, bad = f.err(i, x, w, mode)
                    q = worst.setdefault(tag, {"f64": [0, 0], "mp": [0, 0]})
                    q[mode] = [max(q[mode][0], ex), max(q[mode][1], ew)]
                    if bad and tag not in hit:
                        hit.add(tag)
                        report(rep, tag, "%s: stored data differ from the roots and Christoffel numbers of the Legendre polynomial" % tag, b, n, i, bad, tag)
                rep.count("pairs folded")
                if tag in hit:
                    break
        except (Undecided, OverflowError, ZeroDivisionError, IndexError) as e:
            und.setdefault(tag, "degree %d: %s" % (n, e))
    for tag in dict.fromkeys(j[0] for j in jobs):
        if tag in hit:
            continue
        if tag in und:
            rep.open(tag, und[tag])
        elif seen.get(tag, 0) < 30:
            rep.open(tag, "returns for %d of the chosen degrees only" % seen.get(tag, 0))
        else:
            q = worst[tag]
            rep.ok("%s: %d degrees above 100" % (tag, seen[tag]), "largest error: nodes %.1e, weights %.1e (relative); in exact arithmetic %.1e, %.1e" % (q["f64"][0], q["f64"][1], q["mp"][0], q["mp"][1]))
