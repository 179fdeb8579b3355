"""Entailment over the facts of a path: Fourier-Motzkin on the integer part (with the defining
inequalities of division atoms and declared variable ranges), syntactic closure on the rest."""
import math
from .term import *

MAXC = 400


def _lin(p):
    """poly -> (dict atom-monomial -> coef, const); monomials are opaque atoms"""
    d = poly_of(p)
    c = d.pop((), 0)
    return d, c


def _bounds_of_mono(m):
    """(lo, hi) from declared ranges of a monomial's atoms, None when unknown"""
    lo, hi = 1, 1
    for x in m:
        l, h = _bounds(x)
        if l is None or l < 0:
            return (l, h) if len(m) == 1 else (None, None)
        lo = None if lo is None else lo * l
        hi = None if hi is None or h is None else hi * h
    return lo, hi


def _bounds(x):
    if x.op == "var":
        return x.a[2], x.a[3]
    if x.op == "rem" and x.a[1].op == "i":
        l, _ = bounds(x.a[0])
        if l is not None and l >= 0:
            return 0, x.a[1].a[0] - 1
    if x.op == "div" and x.a[1].op == "i" and x.a[1].a[0] > 0:
        l, h = bounds(x.a[0])
        q = x.a[1].a[0]
        return (None if l is None or l < 0 else l // q), (None if h is None else h // q)
    if x.op == "wrap":
        b, s = x.a[1], x.a[2]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    if x.op == "ite":
        l1, h1 = bounds(x.a[1])
        l2, h2 = bounds(x.a[2])
        return (None if l1 is None or l2 is None else min(l1, l2)), (None if h1 is None or h2 is None else max(h1, h2))
    if x.op == "trip":
        return 0, None
    if x.op == "i":
        return x.a[0], x.a[0]
    if x.op == "app" and len(x.a) > 2 and x.a[1] == "len":
        return 0, None
    return None, None


def bounds(t):
    """crude interval of an integer term"""
    if t.op != "poly":
        return _bounds(t)
    lo = hi = t.a[0]
    for m, k in t.a[1]:
        l, h = _bounds_of_mono(m)
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def _axioms(ms):
    """linear facts (dict,const<=0) about the atoms occurring in monomials ms"""
    out = []
    seen = set()
    todo = list(ms)
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        l, h = _bounds_of_mono(m)
        if l is not None:
            out.append(({m: -1}, l))
        if h is not None:
            out.append(({m: 1}, -h))
        if len(m) == 1:
            x = m[0]
            if x.op == "div" and x.a[1].op == "i" and x.a[1].a[0] > 0:
                q = x.a[1].a[0]
                d, c = _lin(x.a[0])
                l, _h = bounds(x.a[0])
                if l is None or l < 0:
                    continue
                # a - q*x >= 0 ; a - q*x <= q-1
                d1 = {k: -v for k, v in d.items()}
                d1[m] = d1.get(m, 0) + q
                out.append((d1, -c))
                d2 = dict(d)
                d2[m] = d2.get(m, 0) - q
                out.append((d2, c - (q - 1)))
                todo.extend(d.keys())
                rm = irem(x.a[0], x.a[1])
                if (rm,) in seen or rm.op == "rem":
                    # a = q*x + r
                    d3 = dict(d)
                    d3[m] = d3.get(m, 0) - q
                    d3[(rm,)] = d3.get((rm,), 0) - 1
                    out.append((d3, c))
                    out.append(({k: -v for k, v in d3.items()}, -c))
                    todo.append((rm,))
            if x.op == "rem" and x.a[1].op == "i":
                todo.append((idiv(x.a[0], x.a[1]),)) if idiv(x.a[0], x.a[1]).op == "div" else None
            if x.op == "ite":
                pass
    return out


def _norm(d, c):
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = -((-c) // g)
    return d, c


def _elim_eqs(cs):
    """substitute equalities that have a unit coefficient; None when a contradiction appears"""
    for _ in range(40):
        best = {}
        for d, c in cs:
            if d not in best or best[d] < c:
                best[d] = c
        cs = set(best.items())
        eq = None
        for d, c in cs:
            nd = frozenset((k, -v) for k, v in d)
            c2 = best.get(nd)
            if c2 is None:
                continue
            if c + c2 > 0:
                return None
            if c + c2 == 0:
                u = [(k, v) for k, v in d if abs(v) == 1]
                if u:
                    eq = (d, c, min(u, key=lambda kv: [x.id for x in kv[0]]))
                    break
        if eq is None:
            return cs
        d, c, (m, s) = eq
        # s*m + rest + c = 0  ->  m = -s*(rest + c)
        rest = {k: -s * v for k, v in d if k != m}
        rc = -s * c
        out = set()
        for d2, c2 in cs:
            dd = dict(d2)
            a = dd.pop(m, 0)
            if a:
                for k, v in rest.items():
                    dd[k] = dd.get(k, 0) + a * v
                c2 = c2 + a * rc
                dd = {k: v for k, v in dd.items() if v}
                if not dd:
                    if c2 > 0:
                        return None
                    continue
                dd, c2 = _norm(dd, c2)
            out.add((frozenset(dd.items()), c2))
        cs = out
    return cs


def infeasible(cons):
    """cons: list of (dict, c) meaning sum + c <= 0. Integer-tightened FM; True = certainly infeasible."""
    cs = set()
    for d, c in cons:
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c > 0:
                return True
            continue
        d, c = _norm(d, c)
        cs.add((frozenset(d.items()), c))
    cs = _elim_eqs(cs)
    if cs is None:
        return True
    steps = 0
    while cs:
        # keep strongest per lhs
        best = {}
        for d, c in cs:
            if d not in best or best[d] < c:
                best[d] = c
        # opposite pairs quick check
        cnt = {}
        for d in best:
            for m, v in d:
                p = cnt.setdefault(m, [0, 0])
                p[0 if v > 0 else 1] += 1
        m = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1]))
        pos = [(dict(d), c) for d, c in best.items() if dict(d).get(m, 0) > 0]
        neg = [(dict(d), c) for d, c in best.items() if dict(d).get(m, 0) < 0]
        rest = {(d, c) for d, c in best.items() if m not in dict(d)}
        if _fuel[0] is not None:
            _fuel[0] -= 1 + len(pos) * len(neg)
            if _fuel[0] <= 0:
                return False
        for d1, c1 in pos:
            for d2, c2 in neg:
                a, b = d1[m], -d2[m]
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + b * v
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + a * v
                d = {k: v for k, v in d.items() if v}
                c = b * c1 + a * c2
                if not d:
                    if c > 0:
                        return True
                    continue
                d, c = _norm(d, c)
                rest.add((frozenset(d.items()), c))
        cs = rest
        if len(cs) > MAXC:
            return False
        steps += 1
        if steps > 60:
            return False
    return False


def conj(t):
    return list(t.a[0]) if t.op == "and" else ([] if t is TRUE else [t])


def _ites(t, out):
    for x in subterms(t):
        if x.op == "ite" and x.knd == "int":
            out.append(x)


_pm = {}
FUEL = 1500               # work per question
TOTAL = 2_000_000          # work after which only easy questions are answered
_fuel = [None]
_spent = [0, 0]         # most for one question, total


def entails(facts, goal, depth=0):
    """facts: iterable of bool terms. True if facts => goal is established."""
    if goal is TRUE:
        return True
    fs = []
    for f in facts:
        fs.extend(conj(f))
    fset = frozenset(fs)
    if FALSE in fset:
        return True
    key = (fset, goal)
    r = _pm.get(key)
    if r is None:
        top = _fuel[0] is None
        if top:
            # after a lot of work in total only easy questions are answered
            cap = FUEL if _spent[1] < TOTAL else FUEL // 20
            _fuel[0] = cap
        try:
            r = _entails(fset, goal, depth)
        finally:
            if top:
                _spent[0] = max(_spent[0], cap - _fuel[0])
                _spent[1] += cap - _fuel[0]
                _fuel[0] = None
        _pm[key] = r
    return r


def _entails(fset, goal, depth):
    if goal in fset:
        return True
    if goal.op == "and":
        return all(entails(fset, g, depth) for g in goal.a[0])
    if goal.op == "or":
        gs = goal.a[0]
        if any(entails(fset, g, depth) for g in gs):
            return True
        # assume the negation of all but one
        if depth < 3:
            for i, g in enumerate(gs):
                fs = set(fset)
                for j, h in enumerate(gs):
                    if j != i:
                        fs.update(conj(bnot(h)))
                if entails(fs, g, depth + 1):
                    return True
        return False
    if goal.op == "eq0":
        return entails(fset, le0(goal.a[0]), depth) and entails(fset, le0(iscale(goal.a[0], -1)), depth)
    neg = bnot(goal)
    return inconsistent(fset, neg, depth)


def _root_bound(p):
    """v*v <= c gives v <= isqrt(c); v*v >= c gives v >= ceil(sqrt(c)), for a variable that is not negative"""
    if p.op != "poly" or len(p.a[1]) != 1:
        return None
    (m, k), = p.a[1]
    if len(m) != 2 or m[0] is not m[1] or abs(k) != 1 or m[0].op != "var" or m[0].a[2] is None or m[0].a[2] < 0:
        return None
    c = -p.a[0] * k
    if c < 0:
        return None
    r = math.isqrt(c)
    if k > 0:
        return isub(m[0], I(r))
    return isub(I(r if r * r == c else r + 1), m[0])


def _lits(fset):
    """integer literals usable by FM; disequalities and disjunctions returned apart"""
    cons, ors, neqs, others = [], [], [], []
    for f in fset:
        if f.op == "le0":
            cons.append(f.a[0])
            q = _root_bound(f.a[0])
            if q is not None:
                cons.append(q)
        elif f.op == "eq0":
            cons.append(f.a[0])
            cons.append(iscale(f.a[0], -1))
        elif f.op == "or":
            ors.append(f)
        elif f.op == "not" and f.a[0].op == "eq0":
            neqs.append(f.a[0].a[0])
        else:
            others.append(f)
    return cons, ors, neqs, others


def _fm(polys):
    if _fuel[0] is not None and _fuel[0] <= 0:
        return False
    cons = [_lin(p) for p in polys]
    ms = set()
    for d, _ in cons:
        ms.update(d.keys())
    return infeasible(cons + _axioms(ms))


def _relevant(polys, seed):
    """cone of influence: constraints sharing atoms with seed"""
    sup = []
    for p in polys:
        s = set()
        for m in poly_of(p):
            for x in m:
                s.add(x)
                s.update(x.fv)
        sup.append(s)
    cur = set()
    for p in seed:
        for m in poly_of(p):
            for x in m:
                cur.add(x)
                cur.update(x.fv)
    used = set()
    ch = True
    while ch:
        ch = False
        for i, s in enumerate(sup):
            if i not in used and s & cur:
                used.add(i)
                cur |= s
                ch = True
    return [polys[i] for i in sorted(used)]


def inconsistent(fset, extra, depth=0):
    if _fuel[0] is not None:
        _fuel[0] -= 5
        if _fuel[0] <= 0:
            return False
    fs = set(fset)
    fs.update(conj(extra))
    for f in list(fs):
        if bnot(f) in fs:
            return True
    if FALSE in fs:
        return True
    cons, ors, neqs, others = _lits(fs)
    if _float_inconsistent(others):
        return True
    seed = []
    for f in conj(extra):
        for x in subterms(f):
            if x.op in ("le0", "eq0"):
                seed.append(x.a[0])
    rel = _relevant(cons, seed) if seed else cons
    if rel and _fm(rel):
        return True
    if depth >= 4:
        return False
    # split on integer ite atoms inside the literals
    its = []
    for p in rel:
        _ites(p, its)
    if its:
        it = min(its, key=lambda x: (len(subterms(x)), x.id))
        c = it.a[0]
        m1 = frozenset(_repl_cond(f, c, TRUE) for f in fs) | frozenset(conj(c))
        m2 = frozenset(_repl_cond(f, c, FALSE) for f in fs) | frozenset(conj(bnot(c)))
        return inconsistent(m1, TRUE, depth + 1) and inconsistent(m2, TRUE, depth + 1)
    for p in neqs:
        f1 = (fs - {bnot(eq0(p))}) | {le0(iadd(p, ONE))}
        f2 = (fs - {bnot(eq0(p))}) | {le0(isub(ONE, p))}
        s = {x for q in rel for x in q.fv}
        if not (p.fv & s):
            continue
        if inconsistent(frozenset(f1), TRUE, depth + 1) and inconsistent(frozenset(f2), TRUE, depth + 1):
            return True
    for o in ors[:6]:
        base = frozenset(fs - {o})
        if all(inconsistent(base, x, depth + 1) for x in o.a[0]):
            return True
    return False


def _repl_cond(f, c, v):
    nc = bnot(c)
    nv = bnot(v)

    def g(t):
        if t is c:
            return v
        if t is nc:
            return nv
        if t.op == "ite":
            if t.a[0] is c:
                return t.a[1] if v is TRUE else t.a[2]
            if t.a[0] is nc:
                return t.a[2] if v is TRUE else t.a[1]
        return None
    return rewrite(f, g)


_fcache = {}


def _float_inconsistent(lits):
    """order and NaN reasoning on float comparisons"""
    key = frozenset(l for l in lits if (l.a[0] if l.op == "not" else l).op in ("flt", "fle", "feq", "isnan", "isfin"))
    if len(key) < 2 and not any(fconst(x) is not None for l in key for x in (l.a[0] if l.op == "not" else l).a if isinstance(x, T)):
        return False
    r = _fcache.get(key)
    if r is None:
        r = _fcache[key] = _float_bad(key)
    return r


MAX = float.fromhex("0x1.fffffffffffffp+1023")


def _float_bad(lits):
    from math import inf
    nan, num, infinite = set(), set(), set()
    pos, neg = [], []
    for l in lits:
        p, t = (False, l.a[0]) if l.op == "not" else (True, l)
        if t.op == "isnan":
            (nan if p else num).add(t.a[0])
        elif t.op == "isfin":
            if p:
                num.add(t.a[0])
                pos += [("fle", t.a[0], MAX), ("fle", -MAX, t.a[0])]
            else:
                infinite.add(t.a[0])
        else:
            x, y = (fconst(z) if fconst(z) is not None else z for z in t.a)
            if p:
                if x != x or y != y:
                    return True
                num |= {z for z in (x, y) if isinstance(z, T)}
                pos.append((t.op, x, y))
                if t.op == "flt" and y == inf:
                    pos.append(("fle", x, MAX))
                if t.op == "flt" and x == -inf:
                    pos.append(("fle", -MAX, y))
            else:
                neg.append((t.op, x, y))
    if nan & num:
        return True
    if not pos and not neg:
        return False
    known = lambda z: (z == z) if not isinstance(z, T) else z in num
    edges, apart = [], []
    for o, x, y in pos:
        edges.append((x, y, o == "flt"))
        if o == "feq":
            edges.append((y, x, False))
    for o, x, y in neg:
        if o == "feq":
            apart.append((x, y))
        elif known(x) and known(y):
            edges.append((y, x, o == "fle"))
    ids = {}
    for x, y, _ in edges:
        ids.setdefault(x, len(ids))
        ids.setdefault(y, len(ids))
    for x, y in apart:
        ids.setdefault(x, len(ids))
        ids.setdefault(y, len(ids))
    cs = sorted((c for c in ids if not isinstance(c, T) and c == c))
    edges += [(a, b, True) for a, b in zip(cs, cs[1:])]
    n = len(ids)
    if n > 40:
        return False
    d = [[0] * n for _ in range(n)]
    for x, y, st in edges:
        i, j = ids[x], ids[y]
        d[i][j] = max(d[i][j], 2 if st else 1)
    for k in range(n):
        dk = d[k]
        for i in range(n):
            a = d[i][k]
            if a:
                di = d[i]
                for j in range(n):
                    b = dk[j]
                    if b:
                        c = 2 if a == 2 or b == 2 else 1
                        if c > di[j]:
                            di[j] = c
    if any(d[i][i] == 2 for i in range(n)):
        return True
    for x, y in apart:
        i, j = ids[x], ids[y]
        if i == j:
            if known(x):
                return True
        elif d[i][j] and d[j][i]:
            return True
    if infinite:
        lo, hi = ids.get(-inf), ids.get(inf)
        for x in infinite:
            if x in ids and x in num:
                i = ids[x]
                below = any(d[i][ids[c]] for c in cs if c < inf) or (hi is not None and d[i][hi] == 2)
                above = any(d[ids[c]][i] for c in cs if c > -inf) or (lo is not None and d[lo][i] == 2)
                if below and above:
                    return True
    return False


def simp(t, facts, memo=None):
    """resolve conditions decided by the facts"""
    fs = []
    for f in facts:
        fs.extend(conj(f))
    fset = frozenset(fs)
    memo = {} if memo is None else memo

    def g(x):
        if x.op == "ite":
            c = x.a[0]
            if entails(fset, c):
                return x.a[1]
            if entails(fset, bnot(c)):
                return x.a[2]
            if x.knd == "int":
                d = isub(x.a[1], x.a[2])
                if entails(fset | frozenset(conj(c)), eq0(d)):
                    return x.a[2]
                if entails(fset | frozenset(conj(bnot(c))), eq0(d)):
                    return x.a[1]
        elif x.knd == "bool" and x.op in ("le0", "eq0", "flt", "fle", "feq", "isnan", "isfin", "not"):
            if entails(fset, x):
                return TRUE
            if entails(fset, bnot(x)):
                return FALSE
        elif x.op == "wrap":
            b, s = x.a[1], x.a[2]
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            if entails(fset, ile(I(lo), x.a[0])) and entails(fset, ile(x.a[0], I(hi))):
                return x.a[0]
        return None
    return _rw(t, g, memo)


def _rw(t, g, memo):
    """rewrite that does not descend under binders for conditions on bound variables (conditions on
    free variables inside binders are still resolved, bound ones cannot be entailed by the facts)"""
    return rewrite(t, g, memo)
