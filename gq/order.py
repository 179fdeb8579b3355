"""P12: one pair per degree, ascending nodes, every weight next to its own node."""
import math
import random
import time
from .ctor import *
from .legendre import degrees, indices, Folder


def constructors(api):
    for rule in GAUSS:
        for meth in ("new", "par_new"):
            if api.method(rule, meth, need=(meth == "new")) is not None:
                yield rule, meth


def descending_at(b, params, seed, skip=None, big=False, deep=False):
    """degree and position at which the folded nodes are not ascending, or the length is wrong"""
    rnd = random.Random(seed)
    ts = deepterms([b.ps.n[0]] + vleaves(b.ps.body))
    solved = any(x.op == "app" and x.a[1] in ("srt", "eigval", "eigvec", "fel", "flen") for t in ts for x in subterms(t))
    pts = param_points(ts, params, seed) if params else [()]
    if params:
        pts = [p for p in pts if all(abs(x) < 60 for x in p)] + [(x,) * len(params) for x in (20.0, 40.0)]
        if len(params) == 2:
            pts += [(10.0, 0.0), (0.0, 10.0), (-0.9, 8.0), (30.0, 2.0)]
        if any(x.op == "app" and x.a[1] == "flen" for t in ts for x in subterms(t)):
            # elements are dropped on a condition: parameters that push all nodes together, or apart
            wide = [(x,) * len(params) for x in (1e3, 1e18)] + ([(0.25, 1e17), (1e18, 0.3), (1e9, 0.3)] if len(params) == 2 else [])
            pts = wide + pts
    lens = [x for x in int_candidates(ts, b.n, lo=1, hi=(1 << 62))]
    for m in lens:
        for p in pts[:6]:
            env = {b.n: m}
            env.update(zip(params, p))
            try:
                e = Ev(env, {}, {}, "f64")
                if not all(e.ev(f) for f in b.facts):
                    continue
                if e.ev(b.ps.n[0]) != m:
                    return dict(degree=m, parameters=list(p), got="%d pairs" % e.ev(b.ps.n[0]), want="%d pairs" % m)
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                continue
    ns = [x for x in lens if x <= 40]
    jobs = [(n, p) for p in pts for n in (ns if len(pts) < 20 else rnd.sample(ns, min(4, len(ns))) + [2, 3])]
    rnd.shuffle(jobs)
    jobs = jobs[:900 if deep else 300]
    if solved:
        jobs += large_degrees(ts, b, pts, rnd)
    else:
        jobs += [(n, p) for n in lens if 40 < n <= 1 << 40 for p in pts[:2]]
    bv = b.ps.bv[0]
    conds = [c for c in collect(ts)[2] if c.op in ("le0", "eq0") and bv in c.fv]
    clock = Clock(deep)
    for n, p in jobs:
        if clock.over():
            break
        env = {b.n: n}
        env.update(zip(params, p))
        try:
            e = Ev(env, {}, {}, "f64")
            if not all(e.ev(f) for f in b.facts):
                continue
            if e.ev(b.ps.n[0]) != n:
                return dict(degree=n, parameters=list(p), got="%d pairs" % e.ev(b.ps.n[0]), want="%d pairs" % n)
            if n <= 40 or solved:
                idx = range(n - 1)
            else:
                idx = sorted({i for i in list(range(4)) + [n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 3] + [rnd.randrange(n) for _ in range(12)]
                              + indices(ts, conds, b.n, bv, n, seed, deep) if 0 <= i < n - 1})
            xs = {}
            for i in idx:
                for j in (i, i + 1):
                    if j not in xs:
                        xs[j] = float(e.elem(b.ps, (j,))[1])
        except (Undecided, OverflowError, ZeroDivisionError, ValueError, IndexError):
            continue
        for i in idx:
            if skip and (skip(n, i, p) or skip(n, i + 1, p)):
                continue
            if xs[i] > xs[i + 1] + (1e-12 * abs(xs[i]) if n > 40 else 0.0):
                return dict(degree=n, parameters=list(p), index=i, got="node %r before node %r" % (xs[i], xs[i + 1]))
    return None


def run_order(rep, apis, seed, deep=False):
    broken = set()
    for cfg, api in apis.items():
        for rule, meth in constructors(api):
            key = "%s::%s" % (rule, meth)
            tag = "%s [%s]" % (key, cfg)
            b = Built(api, rule, meth)
            rep.count("constructors")
            rep.count("functions analysed", len(b.s.I.analysed))
            if b.v is None:
                rep.bad(tag, "%s never returns" % key, b.where, "every input")
                continue
            if b.ps is None:
                rep.open(tag, "summary incomplete: %s" % b.s.limits()[:2])
                continue
            params = [b.pval(i) for i in range(1, len(b.args))]
            n = b.n
            # length
            if texact(b.ps.n[0], n, b.facts):
                rep.ok("%s: one pair per degree" % tag, "length term equals the degree")
                bad = False
            else:
                bad = None
            # degree()
            dg = api.method(rule, "degree")
            d = b.s.deref(b.s.call(dg, [b.ref]))
            d = d.vs[0][0] if isinstance(d, Adt) and 0 in d.vs and d.vs[0] else d
            what = "%s: degree() reports the degree given" % tag
            if isinstance(d, T) and not has_top(d):
                if texact(d, n, b.facts):
                    rep.ok(what, "equal")
                else:
                    r = refute(d, n, b.facts, seed)
                    if r:
                        rep.bad(tag + " degree", what + " fails", dg.get("ispan"), r)
                    else:
                        rep.open(what, show(d)[:200])
            else:
                rep.open(what, "value not a number")
            rep.count("degree reports")
            # order
            bv = fresh("i", "int", 0, 1 << 62)
            x, w = b.pair(bv)
            facts = b.facts + [ile(ZERO, bv), ilt(bv, b.ps.n[0])]
            skip = None
            if rule == "GaussJacobi":
                skip = lambda m, i, p: m % 2 == 1 and m > 1 and i == m // 2 and p[0] != p[1]
            why, wit = [] if bad is False else ["length"], None
            if rule.startswith("GaussChebyshev"):
                wx, ww = cheb_spec(rule, n, bv)
                if not (equal(x, wx, facts) and equal(w, ww, facts)):
                    why.append("closed form not recognised")
            elif rule == "GaussLegendre":
                if not legendre_order(rep, tag, b, x, w, bv, facts, seed, deep):
                    continue
            else:
                whole = set()
                try:
                    parts = split([x, w], facts)
                except Give:
                    parts = []
                    why.append("too many cases")
                for fs, (x1, w1) in parts:
                    pins = tuple(pinned(p, fs) for p in params)
                    if rule == "GaussJacobi" and pins in SPECIAL:
                        rep.count("delegated cases")
                        ps = other_pairs(api, SPECIAL[pins], n)
                        y = ps.at([bv]).c if ps is not None else None
                        if pins in whole:
                            pass
                        elif y is not None and texact(x1, simp(y[0], fs), fs) and texact(w1, simp(y[1], fs), fs):
                            pass
                        elif y is not None and as_delegated(b, bv, params, pins, y):
                            whole.add(pins)
                        else:
                            why.append("delegated case")
                        continue
                    if x1.op == "f":
                        # a node replaced by a constant
                        sym = [f for f in fs if f.op == "feq" and set(f.a) == set(params)]
                        odd = entails(fs, ieq(irem(n, I(2)), ONE)) and entails(fs, ieq(bv, idiv(n, I(2))))
                        if rule == "GaussJacobi" and odd and fconst(x1) == 0.0:
                            if not sym:
                                rep.bad("GaussJacobi::new middle node", "GaussJacobi::new stores 0.0 as middle node of odd degrees although alpha != beta, which is out of order when all nodes have one sign", b.where,
                                        dict(degree=3, parameters=[10.0, 0.0], got="nodes -0.939..., 0.0, -0.249...", want="ascending nodes"))
                        else:
                            why.append("node replaced by a constant")
                        x1 = rebuilt_node(w1, bv)
                        if x1 is None:
                            why.append("weight of the replaced node")
                            continue
                    if entails(fs, ieq(n, ONE)) and not (x1.op == "app" and x1.a[1] == "srt"):
                        rep.count("sorted cases")
                        continue
                    r = recognise(x1, w1, bv, fs)
                    if not isinstance(r, Eig):
                        why.append("structure: %s" % r)
                    elif r.order != "asc":
                        why.append("sort order")
                        wit = misordered(r.sort, r.node_leaf, rule) or wit
                    elif not entails(fs, ieq(r.slen, n)):
                        why.append("number of sorted pairs")
                    else:
                        rep.count("sorted cases")
            what = "%s: nodes ascend, weights stay with their nodes" % tag
            if not why:
                rep.ok(what, "closed form" if rule.startswith("GaussC") else "structure")
                continue
            if key in broken:
                rep.open(what, "differs in another configuration already")
                continue
            r = wit or descending_at(b, params, seed, skip, deep=deep)
            if r:
                broken.add(key)
                rep.bad(tag + " order", "%s: pairs are not ascending, one per degree" % tag, b.where, r)
            else:
                r = rule_diff(b, GW(rule, n, params), params, seed, skip, deep=deep) if not rule.startswith("GaussC") else None
                if r:
                    broken.add(key)
                    rep.bad(tag + " order", "%s: a weight is not next to its own node" % tag, b.where, r)
                else:
                    rep.open(what, "; ".join(sorted(set(why))))


def legendre_order(rep, tag, b, x, w, bv, facts, seed, deep):
    """exhaustive up to degree 100; neighbours around every condition and on a grid above"""
    ts = [x, w]
    conds = [c for c in collect(ts)[2] if c.op in ("le0", "eq0") and bv in c.fv]
    ns = list(range(1, 101)) + [n for n in degrees(ts, b.n, seed, deep) if n <= 1 << 26]
    done = 0
    for n in ns:
        try:
            f = Folder(b, n)
            if not f.ok:
                continue
            if f.len() != n:
                rep.bad(tag + " order", "%s holds %d pairs for degree %d" % (tag, f.len(), n), b.where, dict(degree=n))
                return False
            e = f.e["f64"]
            if n <= 100:
                idx = list(range(n - 1))
            else:
                idx = [i for i in indices(ts, conds, b.n, bv, n, seed, deep) if i + 1 < n]
            last = None
            for i in idx:
                u = last[1] if last and last[0] == i else e.elem(b.ps, (i,))
                v = e.elem(b.ps, (i + 1,))
                last = (i + 1, v)
                rep.count("neighbouring nodes folded")
                if not u[1] < v[1]:
                    rep.bad(tag + " order", "%s: nodes are not ascending" % tag, b.where, dict(degree=n, index=i, got="node %r before node %r" % (u[1], v[1])))
                    return False
                # weights of neighbouring nodes: w(x) ~ pi/n sqrt(1-x^2), so a misplaced weight shows
                if n > 100 and not (0 < u[2] < 4.0 / n and 0 < v[2] < 4.0 / n):
                    rep.bad(tag + " order", "%s: weight out of range" % tag, b.where, dict(degree=n, index=i, got=repr((u[2], v[2]))))
                    return False
            done += 1
        except (Undecided, OverflowError, ZeroDivisionError, IndexError) as ex:
            rep.open("%s: order at degree %d" % (tag, n), ex)
            return False
    rep.ok("%s: neighbouring nodes ascend" % tag, "degrees 1..100 exhaustively, %d degrees in all" % done)
    return True
