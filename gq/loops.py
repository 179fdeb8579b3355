"""Closed forms of loops (scalar evolution): solves the recurrences of every leaf of the state the
body modifies, the trip count, and array writes indexed by the iteration number."""
from .val import *
from .linear import entails, simp, conj


def leaf_paths(v, path=()):
    """yield (path, leaf) where leaf is T, Lam (container) or opaque value"""
    if isinstance(v, T) or isinstance(v, Lam):
        yield path, v
    elif isinstance(v, N) and v.k != "ctab":
        if not v.c:
            yield path, v
        for i, x in enumerate(v.c):
            yield from leaf_paths(x, path + (("c", i),))
        if v.c:
            yield path + ("hd",), (v.k, v.s, len(v.c))
    elif isinstance(v, Adt):
        yield path + ("d",), v.d
        for k in sorted(v.vs):
            for i, x in enumerate(v.vs[k]):
                yield from leaf_paths(x, path + (("v", k, i),))
    else:
        yield path, v


def get_leaf(v, path):
    for p in path:
        if p == "d":
            return v.d
        if p == "hd":
            return (v.k, v.s, len(v.c))
        if p[0] == "c":
            v = v.c[p[1]]
        else:
            v = v.vs[p[1]][p[2]]
    return v


def set_leaf(v, path, x):
    if not path:
        return x
    p = path[0]
    if p == "d":
        return Adt(v.ty, v.path, x, v.vs)
    if p[0] == "c":
        c = list(v.c)
        c[p[1]] = set_leaf(c[p[1]], path[1:], x)
        return N(v.k, v.s, c)
    fs = list(v.vs[p[1]])
    fs[p[2]] = set_leaf(fs[p[2]], path[1:], x)
    vs = dict(v.vs)
    vs[p[1]] = tuple(fs)
    return Adt(v.ty, v.path, v.d, vs)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    if isinstance(a, tuple):
        return a == b
    try:
        return vkey(a) == vkey(b)
    except Exception:
        return False


class PhiLam:
    """unknown contents of a container at the loop head"""

    def __init__(self, name, init, phin):
        self.name, self.init, self.phin = name, init, phin


def phi_container(init, uid):
    """a Lam whose leaves are sel terms of a named unknown"""
    name = "φ%d" % uid
    bvs = [fresh("i", "int", 0) for _ in init.bv]
    cnt = [0]

    def go(v):
        if isinstance(v, T):
            cnt[0] += 1
            return mk("sel", v.knd, name, tuple(bvs), ".%d" % (cnt[0] - 1))
        if isinstance(v, N):
            return N(v.k, v.s, [go(x) for x in v.c])
        if isinstance(v, Adt):
            d = go(v.d)
            return Adt(v.ty, v.path, d, {k: tuple(go(x) for x in fs) for k, fs in v.vs.items()})
        return TopV("container element")
    body = go(init.body)
    ns = [mk("var", "%s.n%d" % (name, i), "int", 0, None) for i in range(len(init.n))]
    return name, Lam(ns, bvs, body)


def body_leaves(v, out):
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, N):
        for x in v.c:
            body_leaves(x, out)
    elif isinstance(v, Adt):
        out.append(v.d)
        for k, fs in v.vs.items():
            for x in fs:
                body_leaves(x, out)
    else:
        out.append(None)
    return out


def rebuild_body(v, it):
    if isinstance(v, T):
        return next(it)
    if isinstance(v, N):
        return N(v.k, v.s, [rebuild_body(x, it) for x in v.c])
    if isinstance(v, Adt):
        d = next(it)
        return Adt(v.ty, v.path, d, {k: tuple(rebuild_body(x, it) for x in fs) for k, fs in v.vs.items()})
    next(it)
    return v


_uid = [0]


def solve_loop(I_, st, body, n=None):
    from .interp import State, Limit
    base_cells = st.cells
    mod = {}          # (cell, path) -> phi (T or ("lam", name, Lam))
    rec = I_.record
    k = mk("var", "k#%d" % fresh("k", "int").id, "int", 0, None)
    fixed = {}        # leaves given up (TopV)
    # vec-like empty arr leaves start as Lam so that pushes can be summarised
    I_.record = False
    nobl = None
    try:
        for rounds in range(12):
            hs, facts = header(I_, st, base_cells, mod, fixed, k, n)
            cont, exits = body(hs, k)
            if cont is None:
                break
            new = diff(I_, hs, cont, mod, fixed, base_cells)
            if not new:
                break
            for key, init in new:
                add_phi(I_, key, init, mod, fixed)
        else:
            raise Limit("loop state does not stabilise")
        if cont is None:
            # body always leaves: at most one iteration
            I_.record = rec
            hs = st.copy()
            cont, exits = body(hs, ZERO)
            return k, ZERO, exits, None
        # ---- solve
        sol, lamsol = solve(I_, hs, cont, mod, k, base_cells)
    finally:
        I_.record = rec
    # ---- final pass with closed forms at the loop head
    fs = st.copy()
    place_sol(fs, base_cells, mod, fixed, sol, lamsol, None)
    kf = ile(ZERO, k)
    if n is not None:
        kf = ilt(k, n)
    fs.pc = band(fs.pc, kf)
    basepc = st.pc
    if n is not None:
        cont, exits = body(fs, k)
        post = st.copy()
        place_sol(post, base_cells, mod, fixed, sol, lamsol, {k: n})
        return k, n, exits, post
    # exit conditions from a dry pass, then the trip count
    I_.record = False
    try:
        cont, exits = body(fs.copy(), k)
    finally:
        I_.record = rec
    conds = []
    bset = set(conj(fs.pc))
    for key, es in exits:
        c = band(*[x for x in conj(es.pc) if x not in bset])
        conds.append(c)
    N_ = trip_count(I_, st, k, conds)
    fs.pc = band(fs.pc, ile(k, N_))
    # every earlier iteration continued
    cont, exits = body(fs.copy(), k)
    outs = []
    for (key, es), c in zip(exits, conds):
        m = {k: N_}
        memo = {}
        cells = {}
        for cn, v in es.cells.items():
            cells[cn] = vsubst(v, m)
        cc = subst(c, m)
        pc = basepc
        if len(exits) > 1:
            cc = simp(cc, I_.facts + conj(basepc))
            pc = band(pc, cc)
        pc = band(pc, le0(iscale(N_, -1)))
        # the exit condition holds at the trip count (a fact useful downstream)
        outs.append((key, State(cells, pc)))
    # reductions: keep relational facts
    return k, N_, outs, None


def header(I_, st, base_cells, mod, fixed, k, n):
    hs = st.copy()
    for (cell, path), phi in mod.items():
        x = phi if isinstance(phi, T) else phi[2]
        hs.cells[cell] = set_leaf(hs.cells[cell], path, x)
    for (cell, path), v in fixed.items():
        hs.cells[cell] = set_leaf(hs.cells[cell], path, v)
    f = [ile(ZERO, k)]
    if n is not None:
        f.append(ilt(k, n))
    hs.pc = band(hs.pc, *f)
    return hs, f


def diff(I_, hs, cont, mod, fixed, base_cells):
    out = []
    for cell in list(base_cells):
        a = hs.cells.get(cell)
        b = cont.cells.get(cell)
        if b is None or a is b:
            continue
        da = dict(leaf_paths(a))
        db = dict(leaf_paths(b))
        if set(da) != set(db) or any(not isinstance(da[q], (T, Lam)) and not same(da[q], db[q]) for q in da):
            # the shape changes: give up on the smallest enclosing value
            if not shape_fix(I_, cell, a, b, base_cells, mod, fixed, out):
                if (cell, ()) not in fixed:
                    out.append(((cell, ()), TopV("loop changes the shape of a value")))
            continue
        for q, x in da.items():
            y = db[q]
            if same(x, y):
                continue
            if (cell, q) in mod or any((cell, q[:i]) in fixed for i in range(len(q) + 1)):
                continue
            out.append(((cell, q), get_leaf(base_cells[cell], q) if (cell, ()) not in fixed else x))
    return out


def shape_fix(I_, cell, a, b, base_cells, mod, fixed, out):
    """array literal turned into Lam by a store, option-like values filled in later"""
    init = base_cells[cell]
    # arr -> Lam
    new = harmonise(init, b)
    if new is None:
        return False
    if same(new, init):
        return False
    base_cells_set(I_, base_cells, cell, new)
    for key in [q for q in mod if q[0] == cell]:
        del mod[key]
    out.append(((cell, "reshape"), new))
    return True


def base_cells_set(I_, base_cells, cell, new):
    base_cells[cell] = new


def harmonise(a, b):
    """variant of a whose shape can also hold b"""
    if isinstance(a, T) and isinstance(b, T):
        return a
    if isinstance(a, N) and a.k == "arr" and isinstance(b, Lam):
        l = arr2lam(a)
        if not a.c:
            return Lam(l.n, l.bv, zero_like(b.body))
        return l
    if isinstance(a, Lam) and isinstance(b, Lam):
        if isinstance(a.body, TopV):
            return Lam(a.n, a.bv, zero_like(b.body))
        return a
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k and a.s == b.s and len(a.c) == len(b.c):
        cs = [harmonise(x, y) for x, y in zip(a.c, b.c)]
        return None if any(c is None for c in cs) else N(a.k, a.s, cs)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
        vs = {}
        for k in sorted(set(a.vs) | set(b.vs)):
            if k in a.vs and k in b.vs:
                fs = [harmonise(x, y) for x, y in zip(a.vs[k], b.vs[k])]
                if any(f is None for f in fs):
                    return None
                vs[k] = tuple(fs)
            elif k in a.vs:
                vs[k] = a.vs[k]
            else:
                vs[k] = tuple(zero_like(x) for x in b.vs[k])
        return Adt(a.ty, a.path, a.d, vs)
    return None


def zero_like(v):
    """placeholder contents for positions that do not exist yet"""
    if isinstance(v, T):
        return {"int": ZERO, "bool": FALSE, "float": F(0.0)}.get(v.knd, ZERO)
    if isinstance(v, N):
        return N(v.k, v.s, [zero_like(x) for x in v.c])
    if isinstance(v, Adt):
        return Adt(v.ty, v.path, v.d if v.d.op == "i" else ZERO, {k: tuple(zero_like(x) for x in fs) for k, fs in v.vs.items()})
    if isinstance(v, Lam):
        return Lam([ZERO for _ in v.n], v.bv, zero_like(v.body))
    return v


def add_phi(I_, key, init, mod, fixed):
    cell, path = key
    if path == "reshape":
        return
    _uid[0] += 1
    if isinstance(init, T):
        mod[key] = fresh("phi", init.knd)
    elif isinstance(init, Lam):
        name, lam = phi_container(init, _uid[0])
        mod[key] = ("lam", name, lam, init)
    else:
        fixed[key] = init if isinstance(init, TopV) else TopV("loop-modified value")


def solve(I_, hs, cont, mod, k, base_cells):
    """closed forms: sol phi -> T(k); lamsol key -> Lam(k)"""
    facts = I_.facts + conj(cont.pc)
    phis, nxt, init = [], {}, {}
    lams = []
    for key, phi in mod.items():
        v = get_leaf(cont.cells[key[0]], key[1])
        i0 = get_leaf(base_cells[key[0]], key[1])
        if isinstance(phi, T):
            phis.append(phi)
            nxt[phi] = simp(v, facts) if isinstance(v, T) else top(phi.knd)
            init[phi] = i0 if isinstance(i0, T) else top(phi.knd)
        else:
            lams.append((key, phi, v))
            for j, (p, q) in enumerate(zip(phi[2].n, v.n if isinstance(v, Lam) else [top("int")] * 9)):
                phis.append(p)
                nxt[p] = simp(q, facts)
                init[p] = phi[3].n[j]
    # a machine word stays one: an inductive bound that removes wrap-around from the updates
    words = [p for p in phis if p.knd == "int" and contains_op(nxt[p], ("wrap",))]
    if words:
        hi = I((1 << 64) - 1)
        inv = [c for p in words for c in (ile(ZERO, p), ile(p, hi))]
        for p in words:
            y = simp(nxt[p], facts + inv)
            if not all(entails(facts, c) for c in (ile(ZERO, init[p]), ile(init[p], hi))) or not all(entails(facts + inv, c) for c in (ile(ZERO, y), ile(y, hi))):
                break
        else:
            for p in phis:
                nxt[p] = simp(nxt[p], facts + inv)
    sol = {}
    pending = list(phis)
    pset = set(phis)
    progress = True
    while pending and progress:
        progress = False
        for p in list(pending):
            e = subst(nxt[p], sol)
            r = closed(p, e, init[p], k, pset, I_, facts)
            if r is not None:
                sol[p] = r
                pending.remove(p)
                progress = True
    # conditional / mutually recursive remainder: explicit recurrence terms
    if pending:
        es = [subst(nxt[p], sol) for p in pending]
        bad = any(contains_op(e, ("top",)) for e in es) or any(x.op == "sel" and x.a[1].startswith("φ") for e in es for x in subterms(e))
        for j, p in enumerate(pending):
            if bad:
                sol[p] = top(p.knd)
            else:
                sol[p] = ("rec", j, pending, es)
        if not bad:
            inits = [init[p] for p in pending]
            for j, p in enumerate(pending):
                sol[p] = mkrec(j, k, mk("var", "kk#", "int", 0, None), pending, inits, [subst(e, {k: mk("var", "kk#", "int", 0, None)}) for e in es])
    lamsol = {}
    # containers
    for key, phi, v in lams:
        lamsol[key] = solve_lam(I_, key, phi, v, sol, k, facts)
    # scalar solutions may mention container contents of the loop head
    names = {phi[1]: (key, phi) for key, phi, v in lams}
    if names:
        for p in list(sol):
            sol[p] = resolve_sel(I_, sol[p], names, lamsol, k)
    return sol, lamsol


def closed(p, e, i0, k, pset, I_, facts):
    """closed form of p := e(p,k) starting from i0, at iteration k; None if not of a known shape"""
    others = pset - {p}
    if e.fv & others:
        return None
    if any(x.op == "sel" and isinstance(x.a[1], str) and x.a[1].startswith("φ") for x in subterms(e)):
        return None
    if e is p:
        return i0
    j = fresh("j", "int", 0)
    if p not in e.fv:
        if k not in e.fv:
            return i0 if e is i0 else ite(le0(k), i0, e)
        return ite(le0(k), i0, subst(e, {k: isub(k, ONE)}))
    if p.knd == "int":
        d = isub(e, p)
        if p not in d.fv:
            if k not in d.fv:
                return iadd(i0, imul(d, k))
            return iadd(i0, binder("isum", j, k, subst(d, {k: j})))
        if e.op == "ite" and p not in e.a[0].fv:
            d1, d2 = isub(e.a[1], p), isub(e.a[2], p)
            if p not in d1.fv and p not in d2.fv:
                return iadd(i0, binder("isum", j, k, subst(ite(e.a[0], d1, d2), {k: j})))
        return None
    if p.knd == "float":
        a = addend(e, p)
        if a is not None:
            return sumt(j, k, subst(a, {k: j}), i0)
        if e.op == "fmul":
            for x, y in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
                if x is p and p not in y.fv:
                    return prodt(j, k, subst(y, {k: j}), i0)
        if e.op == "fneg" and e.a[0] is p:
            return None
    return None


def addend(e, p):
    if e is p:
        return F(-0.0)
    if e.op == "fadd":
        for x, y in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
            if x is p and p not in y.fv:
                return y
    if e.op == "fsub" and e.a[0] is p and p not in e.a[1].fv:
        return mk("fneg", e.a[1])
    if e.op == "ite" and p not in e.a[0].fv:
        x, y = addend(e.a[1], p), addend(e.a[2], p)
        if x is not None and y is not None:
            return ite(e.a[0], x, y)
    if e.op == "fma" and e.a[2] is p and p not in e.a[0].fv and p not in e.a[1].fv:
        return mk("fmul", e.a[0], e.a[1])
    return None


def trip_count(I_, st, k, conds):
    facts = I_.facts + conj(st.pc)
    c = bor(*conds) if conds else FALSE
    if c is TRUE:
        return ZERO
    ns = []
    for d in (list(c.a[0]) if c.op == "or" else [c]):
        r = first_true(d, k, facts)
        if r is None:
            return mktrip(k, c)
        ns.append(r)
    if not ns:
        return mktrip(k, FALSE)
    r = ns[0]
    for x in ns[1:]:
        r = imin(r, x)
    return simp(r, facts)


def first_true(c, k, facts):
    if c.op == "and":
        # the first position of one condition, if the others hold there: earlier ones fail it
        for d in c.a[0]:
            r = first_true(d, k, facts)
            if r is not None and all(entails(facts, simp(subst(e, {k: r}), facts)) for e in c.a[0] if e is not d):
                return r
        return None
    if c.op == "le0":
        d = poly_of(c.a[0])
        a, rest = 0, {}
        for m, v in d.items():
            if m == (k,):
                a = v
            elif any(x is k or k in x.fv for x in m):
                return None
            else:
                rest[m] = v
        if a < 0:
            # rest - |a| k <= 0  <=> k >= ceil(rest/|a|)
            r = from_poly(rest)
            m = imax0(r)
            m = simp(m, facts)
            if a == -1:
                return m
            return idiv(iadd(m, I(-a - 1)), I(-a))
        return None
    if c.op == "eq0":
        d = poly_of(c.a[0])
        a = d.get((k,), 0)
        rest = {m: v for m, v in d.items() if m != (k,)}
        if abs(a) != 1 or any(x is k or k in x.fv for m in rest for x in m):
            return None
        r = iscale(from_poly(rest), -a)
        if entails(facts, ile(ZERO, r)):
            return r
        return None
    return None


def solve_lam(I_, key, phi, v, sol, k, facts):
    """closed form of an array updated once per iteration"""
    _, name, ph, init = phi
    if not isinstance(v, Lam):
        return TopV("container replaced")
    ns = [sol[p] for p in ph.n]
    cur = Lam(v.n, v.bv, v.body)
    b = vsubst(vsubst(cur.body, dict(zip(cur.bv, ph.bv))), sol)
    outs = body_leaves(b, [])
    ins = body_leaves(ph.body, [])
    inits = body_leaves(vsubst(init.body, dict(zip(init.bv, ph.bv))), [])
    if len(outs) != len(ins) or len(inits) != len(ins) or any(x is None for x in outs):
        return TopV("container element shape")
    lfacts = list(facts)
    res = []
    for o, p, i0 in zip(outs, ins, inits):
        r = solve_leaf(I_, o, p, i0, ph.bv, name, k, sol, lfacts)
        if r is None:
            I_.limits.append("stores of a loop not solved")
            res.append(top(p.knd))
        else:
            res.append(r)
    # element reads of the same container inside stored values: only older positions
    final = []
    for r in res:
        final.append(r)
    return Lam(ns, ph.bv, rebuild_body(ph.body, iter(final)))


def solve_leaf(I_, o, p, i0, bvs, name, k, sol, facts):
    """o: leaf after one iteration as function of bvs and k (p = sel at loop head)"""
    stores = []

    def walk(t, g, d):
        """collect stores (guard, value), the first that applies wins; False if t does anything else"""
        while t.op == "ite":
            c, a, b = t.a
            if not mentions(a, name):
                stores.append((band(g, c), a))
                t = b
            elif b is p or not mentions(b, name):
                if b is p:
                    stores.append((band(g, c), a))
                    t = b
                else:
                    stores.append((band(g, bnot(c)), b))
                    t = a
            elif a is p:
                t, g = b, band(g, bnot(c))
            elif a.op == "ite" and d < 8 and has_leaf(a, p):
                if not walk(a, band(g, c), d + 1):
                    return False
                t, g = b, band(g, bnot(c))
            else:
                stores.append((band(g, c), a))
                t = b
        if t is p:
            return True
        if not mentions(t, name):
            stores.append((g, t))
            return True
        return False
    if not walk(subst(o, sol), TRUE, 0):
        return None
    if not stores:
        return i0
    cands = []
    stores = [(d, a) for c, a in stores for d in dnf(c)]
    for c, a in stores:
        kk = solve_k(c, bvs, k)
        if kk is None:
            # condition not of the form index(k) = position
            return None
        valid = band(ile(ZERO, kk), ilt(kk, k), subst(c, {k: kk}))
        val = subst(a, {k: kk})
        cands.append((valid, kk, val, c))
    # values reading the container itself: position being written for the first time holds its initial value
    r = i0
    # later iterations win; within an iteration the earlier entry of `stores` is the later store
    for valid, kk, val, c in reversed(cands):
        if mentions(val, name):
            val2 = replace_self(val, p, i0, name)
            if val2 is None or len(cands) > 1:
                return None
            val = val2
        r = ite(valid, val, r) if r is i0 or len(cands) == 1 else None
        if r is None:
            break
    if r is None:
        if any(mentions(val, name) for _, _, val, _ in cands):
            return None
        bf = facts + [ile(ZERO, x) for x in bvs]
        live = []
        for valid, kk, val, c in cands:
            v2 = simp(valid, bf)
            if v2 is not FALSE and not entails(bf + conj(valid), FALSE):
                live.append((v2, kk, val))
        excl = all(entails(bf + conj(x[0]) + conj(y[0]), FALSE) for i, x in enumerate(live) for y in live[:i])
        if excl:
            r = i0
            for valid, kk, val in reversed(live):
                r = ite(valid, val, r)
            return r
        # several stores: choose the one with the greatest iteration number
        r, rk = i0, I(-1)
        for valid, kk, val in reversed(live):
            take = band(valid, ile(rk, kk))
            r = ite(take, val, r)
            rk = ite(take, kk, rk)
    return r


def has_leaf(t, p):
    while t.op == "ite":
        if has_leaf(t.a[1], p):
            return True
        t = t.a[2]
    return t is p


def dnf(c, cap=16):
    """disjuncts of a condition (few)"""
    if c.op == "or":
        out = [y for x in c.a[0] for y in dnf(x, cap)]
        return out if len(out) <= cap else [c]
    if c.op == "and":
        ors = [x for x in c.a[0] if x.op == "or"]
        if ors:
            rest = [x for x in c.a[0] if x is not ors[0]]
            out = [y for x in ors[0].a[0] for y in dnf(band(x, *rest), cap)]
            return out if len(out) <= cap else [c]
    return [c]


def mentions(t, name):
    return any(x.op == "sel" and x.a[1] == name for x in subterms(t))


def replace_self(val, p, i0, name):
    """reads of the container at exactly the written position yield the initial content"""
    def g(x):
        if x is p:
            return i0
        return None
    r = rewrite(val, g)
    return None if mentions(r, name) else r


def solve_k(c, bvs, k):
    """from the conjunct index(k) == position derive k as a function of the position"""
    for f in conj(c):
        if f.op == "eq0":
            d = poly_of(f.a[0])
            a = d.get((k,), 0)
            rest = {m: v for m, v in d.items() if m != (k,)}
            if abs(a) == 1 and not any(x is k or k in x.fv for m in rest for x in m) and any(b in x.fv for b in bvs for m in rest for x in m):
                return iscale(from_poly(rest), -a)
    return None


def resolve_sel(I_, t, names, lamsol, k):
    if not isinstance(t, T):
        return t
    bad = [False]

    def g(x):
        if x.op == "sel" and x.a[1] in names:
            bad[0] = True
        return None
    rewrite(t, g)
    return top(t.knd) if bad[0] else t


def place_sol(fs, base_cells, mod, fixed, sol, lamsol, m):
    for key, phi in mod.items():
        cell, path = key
        if isinstance(phi, T):
            x = sol[phi]
            if m:
                x = subst(x, m)
        else:
            x = lamsol[key]
            if m:
                x = vsubst(x, m)
        fs.cells[cell] = set_leaf(fs.cells[cell], path, x)
    for (cell, path), v in fixed.items():
        fs.cells[cell] = set_leaf(fs.cells[cell], path, v)
