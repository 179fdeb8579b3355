"""P15 and P16: accessors and iterators of the rules."""
from .api import *
from .decide import *
from .loops import leaf_paths, get_leaf, set_leaf
from .models import OPT, ordering

USIZE = (1 << 64) - 1


def sources(api, rule):
    """ways of obtaining an iterator: (label, function record, component)"""
    out = []
    if rule in GAUSS:
        out.append(("nodes()", api.method(rule, "nodes"), "x"))
        out.append(("weights()", api.method(rule, "weights"), "w"))
        out.append(("iter()", api.method(rule, "iter"), "xw"))
        f = api.trait_method(rule, "IntoIterator", "into_iter", ref=True)
        if f is None:
            raise MissingAnchor("IntoIterator for &%s" % rule)
        out.append(("(&rule).into_iter()", f, "xw"))
        f = api.trait_method(rule, "IntoIterator", "into_iter", ref=False)
        if f is None:
            raise MissingAnchor("IntoIterator for %s" % rule)
        out.append(("rule.into_iter()", f, "xw"))
    else:
        out.append(("iter()", api.method(rule, "iter"), "k"))
        for r, l in ((True, "(&rule).into_iter()"), (False, "rule.into_iter()")):
            f = api.trait_method(rule, "IntoIterator", "into_iter", ref=r)
            if f is None:
                raise MissingAnchor("IntoIterator for %s%s" % ("&" if r else "", rule))
            out.append((l, f, "k"))
    return out


def open_iter(api, rule, f, comp):
    """(session, iterator value, length, element function index -> value) on a symbolic rule"""
    s = Session(api)
    selfty = api.adt(rule)["ty"]
    rv = s.arg(selfty, "rule")
    r = s.newref(rv)
    if rule in GAUSS:
        ps = s.pairs(rule, r)
        if not isinstance(ps, Lam):
            raise Undecided("stored pairs")
        n = ps.n[0]

        def seq(i):
            x, w = [s.deref(y) for y in ps.at([i]).c]
            return {"x": x, "w": w, "xw": tup(x, w)}[comp]
    else:
        n = s.deref(s.call(api.method(rule, "degree"), [r]))

        def seq(i):
            return i2f(i)
    isref = api.p.types[f["inputs"][0]]["k"] == "ref"
    it = s.call(f, [r if isref else s.deref(r)])
    return s, it, n, seq


class Iter:
    """methods of an iterator type"""

    def __init__(self, api, it):
        self.api = api
        self.path = it.path
        self.name = it.path.split("::")[-1]

    def m(self, name):
        api = self.api
        for tr in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator"):
            f = api.trait_method(self.name, tr, name)
            if f:
                return f
        return None

    def inherent(self, name):
        return self.api.method(self.name, name, need=False)

    def asref(self):
        return self.api.trait_method(self.name, "AsRef", "as_ref")

    def clone(self):
        return self.api.trait_method(self.name, "Clone", "clone")


def run_views(rep, apis, seed):
    for cfg, api in apis.items():
        for rule in RULES:
            for label, f, comp in sources(api, rule):
                key = "%s %s [%s]" % (rule, label, cfg)
                where = f.get("ispan") or f.get("span")
                rep.count("views")
                s, it, n, seq = open_iter(api, rule, f, comp)
                if not isinstance(it, Adt):
                    rep.open(key, "iterator summary: %s" % (s.limits() or it))
                    continue
                im = Iter(api, it)
                ln, nth, nxt, back = im.m("len"), im.m("nth"), im.m("next"), im.m("next_back")
                if ln is None and im.m("size_hint") is None:
                    raise MissingAnchor("length of %s" % im.path)
                if ln is not None:
                    s1 = s.fork()
                    v = s1.call(ln, [s1.newref(it)])
                    decide(rep, key + ":len", "%s has one item per stored pair" % key, where, v, n, s.I.facts, seed)
                j = fresh("j", "int", 0, USIZE)
                if nth is not None:
                    s1 = s.fork()
                    v = s1.call(nth, [s1.newref(it), j])
                    want_item(rep, key + ":items", "%s: item j is the j-th stored one" % key, where, s1, v, ilt(j, n), seq(j), s.I.facts, seed)
                if nxt is not None:
                    s1 = s.fork()
                    v = s1.call(nxt, [s1.newref(it)])
                    want_item(rep, key + ":first", "%s: the first item is the first stored one" % key, where, s1, v, ilt(ZERO, n), seq(ZERO), s.I.facts, seed)
                if back is not None:
                    s1 = s.fork()
                    v = s1.call(back, [s1.newref(it)])
                    want_item(rep, key + ":last", "%s: the last item is the last stored one" % key, where, s1, v, ilt(ZERO, n), seq(isub(n, ONE)), s.I.facts, seed)
            if rule in GAUSS:
                s = Session(api)
                rv = s.arg(api.adt(rule)["ty"], "rule")
                r = s.newref(rv)
                ps = s.pairs(rule, r)
                key = "%s [%s]" % (rule, cfg)
                f = api.method(rule, "into_node_weight_pairs")
                v = s.deref(s.call(f, [s.deref(r)]))
                decide(rep, key + ":into_node_weight_pairs", "%s: into_node_weight_pairs() returns the stored pairs" % key, f.get("ispan"), v, ps, s.I.facts, seed)
                f = api.method(rule, "degree")
                v = s.deref(s.call(f, [r]))
                decide(rep, key + ":degree", "%s: degree() is the number of stored pairs" % key, f.get("ispan"), v, ps.n[0], s.I.facts, seed)
                # the only stored sequence: the pairs exposed are the ones stored
                leaves = [x for t in vleaves(ps.body) for x in subterms(t) if x.op == "sel"]
                bv = ps.bv[0]
                if isinstance(ps.body, N) and len(ps.body.c) == 2 and all(isinstance(x, T) and x.op == "sel" and x.a[2] == (bv,) for x in ps.body.c):
                    rep.ok("%s: as_node_weight_pairs() exposes the stored array in place" % key, "identity on the stored pairs")
                else:
                    rep.open("%s: as_node_weight_pairs()" % key, "not a plain view: %s" % str(ps)[:200])
                rep.count("views", 3)
            else:
                degree_history(rep, api, rule, cfg, seed)


def degree_history(rep, api, rule, cfg, seed):
    """degree() reports the degree last set: new(d), From(d), change_degree(d) from any state"""
    key = "%s [%s]" % (rule, cfg)
    deg = api.method(rule, "degree")
    nw = api.method(rule, "new")
    for label, f in (("new", nw), ("From<NonZeroU32>", api.trait_method(rule, "From", "from"))):
        if f is None:
            raise MissingAnchor("%s for %s" % (label, rule))
        s = Session(api)
        args = s.args(f)
        v = s.call(f, args)
        d = s.deref(s.call(deg, [s.newref(v)]))
        decide(rep, key + ":degree-" + label, "%s: degree() after %s is the given degree" % (key, label), f.get("ispan"), d, args[0], s.I.facts, seed)
        rep.count("views")
    f = api.method(rule, "change_degree")
    s = Session(api)
    args = s.args(f)
    before = s.deref(args[0])
    s.call(f, args)
    d = s.deref(s.call(deg, [args[0]]))
    decide(rep, key + ":change_degree", "%s: degree() after change_degree is the given degree" % key, f.get("ispan"), d, args[1], s.I.facts, seed)
    # change_degree leaves exactly the state that new(degree) creates (so no history is remembered)
    s2 = Session(api)
    v2 = s2.call(nw, [args[1]])
    decide(rep, key + ":change_degree-state", "%s: change_degree(d) leaves the state new(d) creates" % key, f.get("ispan"), s.deref(args[0]), v2, s.I.facts, seed)
    rep.count("views", 2)


def option_of(present, payload, like):
    return Adt(like.ty, like.path, ite(present, ONE, ZERO), {0: (), 1: (payload,)})


def deep_deref(s, v):
    if isinstance(v, N) and v.k in ("ref", "box"):
        return deep_deref(s, s.deref(v))
    if isinstance(v, N):
        return N(v.k, v.s, [deep_deref(s, x) for x in v.c])
    if isinstance(v, Adt):
        return Adt(v.ty, v.path, v.d, {k: tuple(deep_deref(s, x) for x in fs) for k, fs in v.vs.items()})
    if isinstance(v, IteV):
        return vite(v.c, deep_deref(s, v.a), deep_deref(s, v.b))
    return v


def want_item(rep, key, what, where, s, v, present, item, facts, seed):
    if not isinstance(v, Adt):
        rep.open(what, "result %s %s" % (str(v)[:100], s.limits()[:1]))
        return None
    v = deep_deref(s, v)
    return decide(rep, key, what, where, v, option_of(present, item, v), facts, seed)


# ---------------------------------------------------------------- P16
def run_iterators(rep, apis, seed):
    for cfg, api in apis.items():
        types = {}
        for rule in RULES:
            for label, f, comp in sources(api, rule):
                ty = api.p.types[f["output"]]
                types.setdefault(ty.get("path"), (rule, label, f, comp))
        # every exported iterator type is reached this way
        for im in api.p.impls:
            if im.get("trait", "").endswith("::Iterator"):
                t = api.p.types[im["self"]]
                nm = t.get("path", "").split("::")[-1]
                if nm in api.adts and t["path"] not in types:
                    rep.open("%s [%s]" % (nm, cfg), "iterator type not obtained from a rule")
        for path, (rule, label, f, comp) in sorted(types.items()):
            rep.count("iterator types")
            iterator_type(rep, api, cfg, rule, label, f, comp, seed)


def iterator_type(rep, api, cfg, rule, label, f, comp, seed):
    s0, it, n, seq = open_iter(api, rule, f, comp)
    key = None
    if not isinstance(it, Adt):
        rep.open("%s %s [%s]" % (rule, label, cfg), "iterator summary")
        return
    im = Iter(api, it)
    key = "%s [%s]" % (im.name, cfg)
    where = f.get("ispan")
    nxt, back = im.m("next"), im.m("next_back")
    if nxt is None or back is None:
        raise MissingAnchor("next/next_back of %s" % im.path)
    facts0 = list(s0.I.facts)
    for t in ("ExactSizeIterator", "FusedIterator", "DoubleEndedIterator"):
        if not api.impls(t, im.name):
            raise MissingAnchor("%s for %s" % (t, im.path))
    # the leaves that move with front / back consumption
    base = dict(leaf_paths(it))

    def after(fn, v):
        s = s0.fork()
        r = s.newref(v)
        s.call(fn, [r])
        return s.deref(r)

    def moved(v):
        d = dict(leaf_paths(v))
        if set(d) != set(base):
            return None
        return [p for p in base if not _same(base[p], d[p])]
    a1, a2 = after(nxt, it), after(back, it)
    m1, m2 = moved(a1), moved(a2)
    if not m1 or not m2 or len(m1) != 1 or len(m2) != 1 or m1 == m2:
        concrete(rep, api, key, where, s0, it, im, n, seq, facts0, seed, "state is not a window")
        return
    lo, hi = fresh("lo", "int", 0, USIZE), fresh("hi", "int", 0, USIZE)
    pl, ph = m1[0], m2[0]
    facts = facts0 + [ile(ZERO, lo), ile(lo, hi), ile(hi, n)]
    tau = set_leaf(set_leaf(it, pl, lo), ph, hi)
    overrides(rep, api, key, where, s0, it, im, n, seq, facts0, base, pl, ph)

    class Tmp:
        """collects verdicts; a failed inductive step is confirmed on reachable states before it counts"""

        def __init__(self):
            self.good, self.rest = [], []

        def ok(self, a, b):
            self.good.append((a, b))

        def open(self, a, b):
            self.rest.append((a, b))

        def bad(self, k, what, wh="", w=None):
            self.rest.append((what, w))
    tmp = Tmp()
    # initial state
    decide(tmp, key, "%s: a fresh iterator covers the whole sequence" % key, where, tup(get_leaf(it, pl), get_leaf(it, ph)), tup(ZERO, n), facts0, seed)
    m = fresh("m", "int", 0, USIZE)
    ops = [("next", [], ilt(lo, hi), lo, iadd(lo, ONE), hi),
           ("next_back", [], ilt(lo, hi), isub(hi, ONE), lo, isub(hi, ONE)),
           ("nth", [m], ilt(iadd(lo, m), hi), iadd(lo, m), iadd(iadd(lo, m), ONE), hi),
           ("nth_back", [m], ilt(iadd(lo, m), hi), isub(isub(hi, ONE), m), lo, isub(isub(hi, ONE), m))]
    for name, extra, present, idx, nlo, nhi in ops:
        fn = im.m(name)
        if fn is None:
            tmp.ok("%s: %s" % (key, name), "provided method: follows from next/next_back")
            continue
        s = s0.fork()
        s.I.facts += [x for x in facts if x not in s.I.facts]
        r = s.newref(tau)
        v = s.call(fn, [r] + extra)
        s.I.facts = list(facts0)
        rep.count("iterator methods")
        if v is None or s.limits():
            tmp.open("%s: %s" % (key, name), s.limits())
            continue
        want_item(tmp, key, "%s: %s returns the right item" % (key, name), where, s, v, present, seq(idx), facts, seed)
        st = s.deref(r)
        d = dict(leaf_paths(st))
        if set(d) != set(base):
            tmp.open("%s: %s" % (key, name), "state changes shape")
            continue
        for p in base:
            if p not in (pl, ph) and not _same(d[p], base[p]):
                tmp.open("%s: %s" % (key, name), "other state changes")
        l2, h2 = get_leaf(st, pl), get_leaf(st, ph)
        # non-empty afterwards: exactly the remaining window; otherwise an empty window inside the sequence
        decide(tmp, key, "%s: %s leaves the remaining window" % (key, name), where, tup(l2, h2), tup(nlo, nhi), facts + [present, ilt(nlo, nhi)], seed)
        decide(tmp, key, "%s: %s leaves an empty window at the end" % (key, name), where, l2, h2, facts + [bor(bnot(present), ile(nhi, nlo))], seed)
        g = band(ile(ZERO, l2), ile(l2, h2), ile(h2, n))
        decide(tmp, key, "%s: %s keeps the window inside the sequence" % (key, name), where, g, TRUE, facts, seed)
    left = isub(hi, lo)
    for name, want in (("len", lambda v: left), ("count", lambda v: left), ("size_hint", None), ("last", None)):
        fn = im.m(name)
        if fn is None:
            tmp.ok("%s: %s" % (key, name), "provided method: follows from next/size_hint")
            continue
        s = s0.fork()
        s.I.facts += [x for x in facts if x not in s.I.facts]
        byref = api.p.types[fn["inputs"][0]]["k"] == "ref"
        v = s.call(fn, [s.newref(tau) if byref else tau])
        s.I.facts = list(facts0)
        rep.count("iterator methods")
        if v is None or s.limits():
            tmp.open("%s: %s" % (key, name), s.limits())
        elif name == "last":
            want_item(tmp, key, "%s: last returns the right item" % key, where, s, v, ilt(lo, hi), seq(isub(hi, ONE)), facts, seed)
        elif name == "size_hint":
            w = tup(left, Adt(v.c[1].ty, v.c[1].path, ONE, {1: (left,), 0: ()})) if isinstance(v, N) and isinstance(v.c[1], Adt) else None
            if w is None:
                tmp.open("%s: size_hint" % key, str(v)[:100])
            else:
                decide(tmp, key, "%s: size_hint is exact" % key, where, v, w, facts, seed)
        else:
            decide(tmp, key, "%s: %s is exact" % (key, name), where, v, left, facts, seed)
    for name, fn in (("as_slice", im.inherent("as_slice")), ("as_ref", im.asref())):
        if fn is None:
            continue
        s = s0.fork()
        s.I.facts += [x for x in facts if x not in s.I.facts]
        v = s.deref(s.call(fn, [s.newref(tau)]))
        s.I.facts = list(facts0)
        rep.count("iterator methods")
        j = fresh("j", "int", 0)
        w = Lam([left], [j], seq(iadd(lo, j)))
        decide(tmp, key, "%s: %s is the remaining slice" % (key, name), where, v, w, facts, seed)
    if im.clone() is not None:
        s = s0.fork()
        s.I.facts += [x for x in facts if x not in s.I.facts]
        r = s.newref(tau)
        v = s.call(im.clone(), [r])
        s.I.facts = list(facts0)
        rep.count("iterator methods")
        what = "%s: a clone has the same remaining items" % key
        d = dict(leaf_paths(deep_deref(s, v))) if isinstance(v, (Adt, N)) else {}
        o = dict(leaf_paths(deep_deref(s, s.deref(r))))
        e = dict(leaf_paths(deep_deref(s, tau)))
        if s.limits() or set(d) != set(e) or set(o) != set(e):
            tmp.open(what, (s.limits() or ["clone has another shape"])[0])
        elif all(_same(d[p], e[p]) and _same(o[p], e[p]) for p in e):
            tmp.ok(what, "every leaf of the state is copied, the original is unchanged")
        else:
            tmp.open(what, "clone differs from its source")
    if not tmp.rest:
        for a, b in tmp.good:
            rep.ok(a, b)
        return
    concrete(rep, api, key, where, s0, it, im, n, seq, facts0, seed, tmp.rest[0], tmp.good, tmp.rest)


HANDLED = {"next", "next_back", "nth", "nth_back", "size_hint", "len", "count", "last"}


def overridden(api, im):
    """iterator methods the crate implements itself although the standard traits provide them"""
    out = []
    for tr in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator"):
        for q in api.impls(tr, im.name):
            out += [(nm, it) for nm, it in q["items"].items() if nm not in HANDLED and it and not (nm[:1].isupper())]
    return out


def overrides(rep, api, key, where, s0, it, im, n, seq, facts0, base, pl, ph):
    """consumers the crate implements itself: called on windows of every small length with a function that records
    the items it is handed, in order"""
    for name, item in overridden(api, im):
        rep.count("overridden consumers")
        what = "%s: %s visits the remaining items in order" % (key, name)
        fn = next((f for f in api.p.fns if f.get("inst") is not None and f["inst"] == item.get("inst")), None)
        if name in SEARCHES and fn is not None:
            searches(rep, api, key, where, s0, it, im, n, seq, facts0, pl, ph, name, fn, what)
            continue
        if name not in ("fold", "rfold", "for_each") or fn is None:
            rep.open(what, "no rule for an overridden %s" % name)
            continue
        bad = why = None
        for lo, hi, total in ((0, 0, 1), (0, 0, 3), (0, 1, 1), (0, 3, 3), (1, 3, 4), (2, 2, 2), (0, 5, 7), (3, 7, 7), (0, 8, 8), (1, 10, 12), (0, 2, 2), (1, 2, 3)):
            s = s0.fork()
            s.I.facts += [ieq(n, I(total))]
            s.I.unroll = 16
            try:
                v = subst_len(set_leaf(set_leaf(it, pl, I(lo)), ph, I(hi)), n, total)
                cell = s.I.alloc(s.st, N("acc0", None, ()))
                v = s.call(fn, [v, N("acc0", None, ()), N("rec", cell, ())] if name != "for_each" else [v, N("rec", cell, ())])
                got = v if name != "for_each" else s.st.cells.get(cell)
            finally:
                s.I.facts = list(facts0)
                s.I.unroll = 0
            lim = s.limits()
            items = []
            while isinstance(got, N) and got.k == "acc":
                items.append(got.c[1])
                got = got.c[0]
            items.reverse()
            if lim or not (isinstance(got, N) and got.k == "acc0"):
                why = lim or "not a fold: %s" % str(got)[:80]
                continue
            pos = range(lo, hi) if name != "rfold" else range(hi - 1, lo - 1, -1)
            want = [deep_deref(s, seq(I(i))) for i in pos]
            if len(want) != len(items) or any(vkey(deep_deref(s, x)) != vkey(y) for x, y in zip(items, want)):
                try:
                    e = Ev({x: total for x in n.fv}, {}, hashed_seqs([x for x in vleaves(tup(seq(ZERO), *items))]), "f64")
                    a, b = [e.val(deep_deref(s, x)) for x in items], [e.val(x) for x in want]
                except Undecided:
                    why = "items visited are not recognised"
                    continue
                if a != b:
                    bad = dict(length=total, front=lo, back=hi, got="%d items: %s" % (len(a), str(a)[:200]), want="%d items: %s" % (len(b), str(b)[:200]))
                    break
        if bad:
            rep.bad(key + " " + name, "%s: %s does not visit the remaining items in order" % (key, name), fn.get("ispan") or where, bad)
        elif why:
            rep.open(what, why)
        else:
            rep.ok(what, "windows of every length up to nine")


SEARCHES = {"all", "any", "find", "rfind", "position", "rposition", "reduce", "max_by", "min_by", "is_sorted"}
WINDOWS = ((0, 0, 1), (0, 1, 1), (0, 3, 3), (1, 3, 4), (2, 2, 2), (0, 5, 7), (3, 7, 7), (1, 10, 12))


class Answers:
    """a function argument with known answers: recognises the item it is handed by what it is"""

    def __init__(self, s, items):
        self.s, self.ids = s, {vkey(x): k for k, x in enumerate(items)}
        self.hits, self.rank = (), {}

    def ident(self, I_, st, v):
        return self.ids.get(vkey(I_.deepall(st, v)))


class Pred(Answers):
    def __call__(self, I_, st, args):
        k = self.ident(I_, st, args[-1])
        return (top("bool") if k is None else TRUE if k in self.hits else FALSE), st


class Compare(Answers):
    def __call__(self, I_, st, args):
        a, b = (self.ident(I_, st, x) for x in args)
        if a is None or b is None:
            return TopV("comparison"), st
        x, y = self.rank[a], self.rank[b]
        return ordering(I(0 if x < y else 1 if x == y else 2)), st


class Joiner(Answers):
    def __call__(self, I_, st, args):
        return N("acc", None, tuple(I_.deepall(st, x) for x in args)), st


def searches(rep, api, key, where, s0, it, im, n, seq, facts0, pl, ph, name, fn, what):
    """consumers that search, compare or combine: called on windows of small length with functions of known answers"""
    bad = why = None
    for lo, hi, total in WINDOWS:
        m = hi - lo
        cases = [()] if name in ("reduce", "is_sorted") else [(0,) * m, tuple(range(m)), tuple(range(m, 0, -1)), tuple(k % 2 for k in range(m)), tuple((k * 3) % 5 for k in range(m))] if name.endswith("_by") else \
            [(), tuple(range(m))] + [(k,) for k in sorted({0, m // 2, m - 1}) if 0 <= k < m] + ([(0, m - 1)] if m > 1 else []) + [tuple(range(1, m))]
        for case in cases:
            s = s0.fork()
            s.I.facts += [ieq(n, I(total))]
            s.I.unroll = 16
            lim0 = list(s.I.limits)
            try:
                items = [s.I.deepall(s.st, vsubst(deep_deref(s, seq(I(i))), {})) for i in range(lo, hi)]
                v = subst_len(set_leaf(set_leaf(it, pl, I(lo)), ph, I(hi)), n, total)
                byval = name in ("reduce", "max_by", "min_by", "is_sorted")
                r = v if byval else s.newref(v)
                f = None if name == "is_sorted" else (Joiner if name == "reduce" else Compare if name.endswith("_by") else Pred)(s, items)
                if f is not None:
                    f.hits, f.rank = case, dict(enumerate(case))
                got = s.call(fn, [r] + ([] if f is None else [N("py", f, ())]))
                lim = s.limits()[len(lim0):]
                if got is None or lim:
                    why = lim or "does not return"
                    if lim:
                        break
                    continue
                got = deep_deref(s, got)
                left = None
                if not byval:
                    left = s.fork().call(im.m("len"), [r])
            finally:
                s.I.facts = list(facts0)
                s.I.unroll = 0
                s.I.limits[:] = lim0
            if name == "is_sorted":
                if not isinstance(got, T) or any(x.op == "app" for x in subterms(got)):
                    why = "result is not recognised"
                    continue
                env, seqs = {x: total for x in n.fv}, ascending_seqs([x for x in vleaves(tup(*items)) if isinstance(x, T)] + [got])
                try:
                    e = Ev(env, {}, seqs, "f64")
                    vals, g = [e.val(x) for x in items], bool(e.ev(got))
                except Undecided:
                    why = "result is not recognised"
                    continue
                vals = [flat(x) for x in vals]
                w = all(a <= b for a, b in zip(vals, vals[1:]))
                if g != w:
                    bad = dict(length=total, front=lo, back=hi, items=str(vals)[:200], got=g, want=w)
                continue
            hits = sorted(case) if name not in ("reduce",) and not name.endswith("_by") else []
            used, back = m, False
            if name in ("any", "find", "position"):
                used = hits[0] + 1 if hits else m
            elif name == "all":
                miss = [k for k in range(m) if k not in case]
                used = miss[0] + 1 if miss else m
            elif name in ("rfind", "rposition"):
                used, back = (m - hits[-1] if hits else m), True
            if name == "any":
                want = TRUE if hits else FALSE
            elif name == "all":
                want = FALSE if miss else TRUE
            elif name in ("position", "rposition"):
                want = some_(I(hits[0 if name == "position" else -1])) if hits else none_()
            elif name in ("find", "rfind"):
                want = some_(items[hits[0 if name == "find" else -1]]) if hits else none_()
            elif name == "reduce":
                a = items[0] if items else None
                for x in items[1:]:
                    a = N("acc", None, (a, x))
                want = none_() if a is None else some_(a)
            else:
                if not m:
                    want = none_()
                else:
                    k = max(range(m), key=lambda k: (case[k], k)) if name == "max_by" else min(range(m), key=lambda k: (case[k], k))
                    want = some_(items[k])
            g = outcome(got)
            if g is None:
                why = "result is not recognised"
                continue
            if g != outcome(want):
                bad = dict(length=total, front=lo, back=hi, answers=list(case), got=describe(got, items), want=describe(want, items))
                break
            if left is not None:
                k = iconst(left) if isinstance(left, T) else None
                if k is None:
                    why = "items left are not recognised"
                elif k != m - used:
                    bad = dict(length=total, front=lo, back=hi, answers=list(case), got="%d items left" % k, want="%d items left" % (m - used))
                    break
        if bad:
            break
    if bad:
        rep.bad(key + " " + name, "%s: %s does not do what it does for the sequence of remaining items" % (key, name), fn.get("ispan") or where, bad)
    elif why:
        rep.open(what, why)
    else:
        rep.ok(what, "windows of lengths up to nine, every kind of answer")


def flat(x):
    return tuple(flat(y) for y in x) if isinstance(x, (tuple, list)) else x


def some_(v):
    return Adt(None, OPT, ONE, {0: (), 1: (v,)})


def none_():
    return Adt(None, OPT, ZERO, {0: ()})


def outcome(v):
    """truth value, or nothing / the payload's identity; None when it is not one known thing"""
    if isinstance(v, T):
        return v if v in (TRUE, FALSE) else None
    if isinstance(v, Adt) and isinstance(v.d, T):
        k = iconst(v.d)
        if k == 0:
            return "none"
        if k == 1 and not has_top(v.vs[1][0]):
            return vkey(v.vs[1][0])
    return None


def describe(v, items):
    if isinstance(v, Adt) and iconst(v.d) == 1:
        for k, x in enumerate(items):
            if vkey(x) == vkey(v.vs[1][0]):
                return "item %d" % k
        return str(v.vs[1][0])[:120]
    return "None" if isinstance(v, Adt) else str(v)


def ascending_seqs(ts):
    """pairs with ascending nodes and arbitrary positive weights"""
    names = {x.a[1] for t in ts for x in subterms(t) if x.op == "sel"}

    def mkf(nm):
        def f(idx, path):
            k = idx[0] if isinstance(idx, (tuple, list)) else idx
            return -1.0 + 0.1 * k if path.endswith("0") else 0.1 + 0.07 * ((k * 3) % 5)
        return f
    return {nm: mkf(nm) for nm in names}


def subst_len(v, n, total):
    return vsubst(v, {n: I(total)}) if n.op == "var" else v


def _same(a, b):
    from .loops import same
    return same(a, b)


def concrete(rep, api, key, where, s0, it, im, n, seq, facts0, seed, why, good=(), suspects=()):
    """reachable histories: every sequence of up to three consuming calls followed by every observation,
    composed symbolically over the length; a history on which the summary differs from the standard
    behaviour is a violation"""
    cons = [("next", ()), ("next_back", ()), ("nth", (0,)), ("nth", (1,)), ("nth", (2,)), ("nth", (7,)), ("nth_back", (0,)), ("nth_back", (1,)), ("nth_back", (2,)), ("nth_back", (7,)), ("nth", (USIZE,)), ("nth_back", (USIZE,))]
    obs = ["len", "count", "size_hint", "last", "as_slice", "as_ref", "next", "next_back", "clone/len", "clone/size_hint", "clone/next", "clone/next_back"]
    nv = n
    import itertools
    hist = [()] + [(c,) for c in cons] + list(itertools.product(cons[:3] + cons[4:5] + cons[6:7] + cons[9:11], repeat=2)) + [(a, b, c) for a in cons[:2] for b in cons[:2] for c in cons[:3]]
    hist = [(h, (1, 2, 3, 5, 9)) for h in hist]
    # the state in which an inductive step fails is reached by one call from each end
    for what, w in suspects:
        if not isinstance(w, dict) or "inputs" not in w:
            continue
        e = {k.split("#")[0]: v for k, v in w["inputs"].items()}
        ln = [v for k, v in w["inputs"].items() if k.endswith(".len") or k.endswith(".degree")]
        if len(ln) != 1 or "lo" not in e or "hi" not in e or not 0 <= e["lo"] <= e["hi"] <= ln[0]:
            continue
        h = ([("nth", (e["lo"] - 1,))] if e["lo"] else []) + ([("nth_back", (ln[0] - e["hi"] - 1,))] if e["hi"] < ln[0] else [])
        op = [o for o in ("next_back", "next", "nth_back", "nth") if ": %s " % o in what]
        if op:
            h.append((op[0], (e["m"],) if "m" in e and op[0].startswith("nth") else ()))
        hist.insert(0, (tuple(h), (ln[0],)))
    seqs = None
    tried = 0
    for h, lengths in hist:
        s = s0.fork()
        r = s.newref(it)
        fail = False
        results = []
        for name, a in h:
            fn = im.m(name)
            if fn is None:
                fail = True
                break
            v = s.call(fn, [r] + [I(x) for x in a])
            if v is None:
                rep.bad(key, "%s: %s panics" % (key, list(h)), where, "history %s" % (list(h),))
                return
            results.append((name, a, deep_deref(s, v)))
        if fail:
            continue
        ob = []
        for o in obs:
            via, o = o.startswith("clone/"), o.split("/")[-1]
            fn = im.asref() if o == "as_ref" else im.inherent("as_slice") if o == "as_slice" else im.m(o)
            if fn is None or via and im.clone() is None:
                continue
            s1 = s.fork()
            byref = api.p.types[fn["inputs"][0]]["k"] == "ref"
            cell = s1.newref(s1.deref(r))
            if via:
                v = s1.call(im.clone(), [cell])
                if v is None:
                    continue
                cell = s1.newref(v)
            v = s1.call(fn, [cell if byref else s1.deref(cell)])
            if v is not None:
                v = deep_deref(s1, s1.deref(v)) if isinstance(v, (N, Adt)) else v
            ob.append((o, v))
        for N_ in lengths:
            want = range(N_)
            ok = True

            def item(i):
                return seq(I(i))
            ts = []
            if not isinstance(nv, T):
                break
            envn = {x: N_ for x in nv.fv}

            def ev(v):
                e = Ev(envn, {}, hashed_seqs([x for x in vleaves(v)] + [x for x in vleaves(tup(seq(ZERO)))]), "f64")
                return e.val(v)
            for name, a, v in results + [(o, (), v) for o, v in ob]:
                tried += 1
                obs_only = name in ("len", "count", "size_hint", "last", "as_slice", "as_ref")
                k = a[0] if a else 0
                if name in ("as_slice", "as_ref") and len(want) > 1000:
                    continue
                try:
                    got = ev(v)
                    if name in ("next", "nth"):
                        w = want[k] if k < len(want) else None
                        if (name, a, v) in results:
                            want = want[k + 1:]
                    elif name in ("next_back", "nth_back"):
                        w = want[len(want) - 1 - k] if k < len(want) else None
                        if (name, a, v) in results:
                            want = want[:max(0, len(want) - k - 1)]
                    elif name == "last":
                        w = want[-1] if want else None
                    elif name in ("len", "count"):
                        if got != len(want):
                            rep.bad(key, "%s: %s() is not the number of remaining items" % (key, name), where, dict(length=N_, history=[x[:2] for x in results], got=got, want=len(want)))
                            return
                        continue
                    elif name == "size_hint":
                        if got[1] != len(want) or got[2][1] != 1 or got[2][2] != len(want):
                            rep.bad(key, "%s: size_hint() is not exact" % key, where, dict(length=N_, history=[x[:2] for x in results], got=str(got), want=len(want)))
                            return
                        continue
                    else:
                        if got != [ev(item(i)) for i in want]:
                            rep.bad(key, "%s: %s() is not the remaining slice" % (key, name), where, dict(length=N_, history=[x[:2] for x in results], got=str(got)[:200], want=list(want)))
                            return
                        continue
                    wv = None if w is None else ev(item(w))
                    g = None if got[1] == 0 else got[2]
                    if g != wv:
                        rep.bad(key, "%s: %s returns the wrong item" % (key, name), where, dict(length=N_, history=[x[:2] for x in results], call=[name, a], got=str(g), want=str(wv)))
                        return
                except Undecided:
                    ok = False
                    break
            if not ok:
                break
    for a, b in good:
        rep.ok(a, b)
    rep.open("%s: all call sequences" % key, "%s; agrees on %d observations of bounded histories" % (why, tried))
