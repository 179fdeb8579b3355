"""P22: no heap allocation in integration and views, no_std, steps linear in the degree."""
from .api import *
from .views import sources
from .features import feats
from .linear import entails
from .evalt import Ev, Undecided
from .interp import Limit
from .decide import hashed_seqs, apps

CLOSED = ("GaussLegendre", "GaussChebyshevFirstKind", "GaussChebyshevSecondKind")
OWNED = ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::string::String", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::collections::", "std::collections::")
# functions of alloc that touch the heap only to read, move or free
PASSIVE = ("len", "is_empty", "as_slice", "as_mut_slice", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "iter", "iter_mut", "next", "next_back", "nth", "nth_back", "size_hint", "last", "count", "into_iter",
           "drop", "index", "index_mut", "as_ptr", "as_mut_ptr", "first", "get", "get_unchecked", "capacity", "new", "eq", "ne", "cmp", "partial_cmp", "hash", "into_raw", "from_raw", "leak", "into_inner", "into_vec", "pop",
           "truncate", "clear", "swap_remove", "remove", "retain", "drain", "as_str", "as_bytes", "fold", "try_fold", "rfold", "advance_by", "sort_unstable", "sort_unstable_by", "swap", "reverse", "is_some", "as_deref")
ACTIVE = ("with_capacity", "push", "push_str", "collect", "from_iter", "to_vec", "to_owned", "to_string", "clone", "into_boxed_slice", "extend", "extend_from_slice", "reserve", "reserve_exact", "insert", "append", "resize", "resize_with",
          "sort", "sort_by", "sort_by_key", "sort_by_cached_key", "concat", "join", "repeat", "format", "from_elem", "box_new", "exchange_malloc", "alloc", "alloc_zeroed", "__rust_alloc", "__rust_alloc_zeroed", "realloc", "split_off",
          "from", "into", "box_assume_init_into_vec_unsafe", "box_uninit_array_into_vec_unsafe", "write_via_move", "new_uninit", "new_uninit_in", "new_uninit_slice", "push_back", "push_front", "entry", "default_boxed", "try_reserve")
QUIET = {"alloc::vec::Vec::<T>::new", "alloc::string::String::new"}


def owned(p, ty, d=0):
    """does a value of the type own heap memory (visible in the type; generic parameters do not count)"""
    t = p.types[ty]
    if t["k"] == "adt":
        if str(t.get("path", "")).startswith(OWNED):
            return True
        kids = list(t.get("args") or [])
        if t.get("local"):
            kids += [f["ty"] for v in t.get("variants") or [] for f in v["fields"]]
        return d < 6 and any(owned(p, x, d + 1) for x in kids if isinstance(x, int))
    if t["k"] in ("tuple", "array"):
        return d < 6 and any(owned(p, x, d + 1) for x in list(t.get("args") or []) + ([t["ty"]] if isinstance(t.get("ty"), int) else []))
    return False


def behind(p, ty):
    """owned heap memory in the type or behind a reference"""
    t = p.types[ty]
    while t["k"] in ("ref", "ptr"):
        ty, t = t["ty"], p.types[t["ty"]]
    return owned(p, ty) or t["k"] in ("closure", "param", "fnptr")


def fn_operands(x):
    """function items used as values"""
    if isinstance(x, dict):
        v = x.get("v")
        if isinstance(v, dict):
            for k in ("fn", "closure"):
                if isinstance(v.get(k), dict):
                    yield v[k]
        for y in x.values():
            yield from fn_operands(y)
    elif isinstance(x, list):
        for y in x:
            yield from fn_operands(y)


class Allocs:
    """calls that allocate, in every body reached from a function on a path that returns"""

    def __init__(self, api):
        self.api, self.p = api, api.p
        self.memo = {}

    def live(self, i):
        """blocks on a path from the entry to the return"""
        bl = self.p.bodies[i]["blocks"]
        from .prog import succs
        pred = {}
        for n, b in enumerate(bl):
            for q in succs(b["t"]):
                pred.setdefault(q, []).append(n)
        seen, todo = set(), [n for n, b in enumerate(bl) if b["t"][0] == "ret"]
        while todo:
            n = todo.pop()
            if n not in seen and not bl[n].get("cleanup"):
                seen.add(n)
                todo += pred.get(n, [])
        return seen

    def scan(self, i):
        """(direct findings, callees): findings are (certain, what, where)"""
        if i in self.memo:
            return self.memo[i]
        b = self.p.bodies[i]
        out, kids = [], []
        self.memo[i] = (out, kids)
        if not isinstance(b, dict) or "blocks" not in b:
            return self.memo[i]
        for n in sorted(self.live(i)):
            bl = b["blocks"][n]
            for st in bl["s"]:
                if st[0] == "=":
                    r = st[2]
                    if r[0] == "agg" and r[1][0] == "closure" and r[1][2] is not None:
                        kids.append(r[1][2])
                for f in fn_operands(st):
                    self.callee(f, None, None, b, None, out, kids)
            t = bl["t"]
            if t[0] != "call":
                continue
            for f in fn_operands(t[2]):
                self.callee(f, None, None, b, t[5], out, kids)
            if "def" in t[1]:
                self.callee(t[1]["def"], t[6], t[7], b, t[5], out, kids)
        return self.memo[i]

    def callee(self, f, argtys, destty, b, span, out, kids):
        r = f.get("r") or f
        path = r.get("path") or f["path"]
        crate = r.get("crate") or f.get("crate")
        name = path.split("::")[-1]
        if f.get("inst") is not None and (f.get("local") or r.get("local")):
            kids.append(f["inst"])
            return
        if f.get("local") or r.get("local"):
            return
        where = span or b.get("span")
        if crate in ("alloc", "std") or path.startswith(("alloc::", "std::")):
            if path in QUIET or path.startswith("std::f64") or path.startswith("std::f32") or "<impl f64>" in path or "<impl f32>" in path:
                return
            if path.endswith("Box::<T>::new") or name in ACTIVE:
                out.append((True, path, where, b["path"]))
            elif name not in PASSIVE:
                out.append((False, path, where, b["path"]))
            return
        if crate in ("nalgebra", "rayon", "rayon_core"):
            out.append((False, path, where, b["path"]))
            return
        # core: only a result that owns memory while no argument does can be an allocation
        if destty is not None and owned(self.p, destty) and not any(behind(self.p, x) for x in argtys or []):
            out.append((name in ("collect", "from_iter", "clone", "to_owned", "into", "from", "unzip", "partition", "sum"), path, where, b["path"]))

    def of(self, root):
        seen, todo, found = set(), [root], []
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            o, k = self.scan(i)
            found += o
            todo += k
        return found, len(seen)


def silent(api):
    """the functions that must not allocate"""
    p = api.p
    roots = {}
    view_types = {}
    for rule in RULES:
        roots["%s::integrate" % rule] = api.method(rule, "integrate")
        for label, f, comp in sources(api, rule):
            by_value = rule not in NEWTON and p.types[f["inputs"][0]]["k"] != "ref"
            if not by_value:
                roots["%s %s" % (rule, label)] = f
                view_types[p.types[f["output"]].get("path")] = rule
        if rule not in NEWTON:
            f = api.method(rule, "as_node_weight_pairs", need=False)
            if f is not None:
                roots["%s::as_node_weight_pairs" % rule] = f
    news = {api.adt(r)["path"]: r for r in NEWTON}
    for f in p.fns:
        if f.get("inst") is None or "::_::" in f["path"] or any(x in str(f.get("trait_ref")) for x in ("rkyv", "serde", "zerocopy", "core::fmt::")):
            continue
        st = f.get("self_ty")
        t = p.types[st] if st is not None else {}
        if f.get("impl_trait") is None and st is None and f.get("impl_self"):
            t = {"path": f["impl_self"].split("<")[0]}
        path = t.get("path")
        if path in news and (f.get("exported") or f.get("trait_ref")) and "par_" not in f["name"]:
            roots.setdefault(f["path"], f)
        elif path in view_types and f.get("trait_ref"):
            roots.setdefault(f["path"], f)
    return roots


def ev_cost(n, D):
    """value of a trip count at size D (indices of outer loops in the middle)"""
    env = {}
    for v in n.fv:
        if v.a[1] == "int":
            env[v] = D // 2 if "#" in v.a[0] else D
        elif v.a[1] == "float":
            env[v] = 0.5
        else:
            env[v] = True
    try:
        r = Ev(env, apps([n]), hashed_seqs([n])).ev(n)
        return r if isinstance(r, int) else None
    except (Undecided, OverflowError, ZeroDivisionError, ValueError, IndexError):
        return None


def size_of(n):
    return [v for v in n.fv if v.a[1] == "int" and "#" not in v.a[0]]


def bounded(rec, c):
    n = rec["n"]
    if n is None:
        return False
    if n.op == "i":
        return n.a[0] <= c
    return entails(rec["facts"], ile(n, I(c)))


def linear(rec):
    n = rec["n"]
    if n is None:
        return False
    if n.op == "i":
        return True
    vs = size_of(n)
    tot = I(64)
    for v in vs:
        tot = iadd(tot, iscale(v, 4))
    return entails(rec["facts"] + [ile(ZERO, v) for v in vs], ile(n, tot))


def growth(rec):
    """steps of the loop together with the loops around it at two sizes"""
    out = []
    for D in (10_000, 1_000_000):
        tot, r = 1, rec
        while r is not None:
            if r["n"] is None:
                return None
            x = ev_cost(r["n"], D)
            if x is None:
                return None
            tot *= max(x, 1)
            r = r["parent"]
        out.append((D, tot))
    return out


def run_steps(rep, api, cfg, key, f, seed):
    s = Session(api)
    what = "%s takes steps linear in the degree [%s]" % (key, cfg)
    where = f.get("ispan") or f.get("span")
    try:
        s.call(f, s.args(f))
    except (Limit, Undecided) as e:
        rep.open(what, str(e))
        return
    rep.count("step counts")
    if s.limits():
        rep.open(what, s.limits()[:2])
        return
    n = 0
    seen = set()
    for rec in s.I.costs:
        k = (rec["fn"], rec["kind"], rec["n"], rec["parent"]["n"] if rec["parent"] else None)
        if k in seen:
            continue
        seen.add(k)
        n += 1
        par, small = rec["parent"], 1
        while par is not None and bounded(par, 1000):
            par = par["parent"]
        fine = linear(rec) if par is None else bounded(rec, 1000)
        if fine:
            continue
        g = growth(rec)
        if g and g[1][1] > 50 * g[1][0] and g[1][1] > 1000 * g[0][1]:
            rep.bad("steps %s" % key, "%s: a %s in %s takes more than linearly many steps" % (what, rec["kind"], rec["fn"]), where, {"degree": g[1][0], "steps": g[1][1]})
        else:
            rep.open(what, "trip count of a %s in %s: %s" % (rec["kind"], rec["fn"], rec["n"]))
        return
    rep.ok(what, "%d loops, trip counts linear, none nested in a loop over the degree" % n)
    rep.count("loops", n)


def run_cost(rep, apis, seed):
    for cfg, api in apis.items():
        rep.count("configurations")
        # no_std
        if not feats(cfg) & {"std", "rayon"}:
            what = "the crate does not link std [%s]" % cfg
            ns = any("NoStd" in x for x in api.p.d["krate_attrs"])
            if "std" in api.p.d["crates"]:
                rep.bad("links std", "%s: the standard library is linked without the feature std" % what, "src/lib.rs", {"configuration": cfg, "crates": api.p.d["crates"][:12]})
            elif not ns:
                rep.bad("no_std attribute", "%s: the crate is not no_std" % what, "src/lib.rs", {"configuration": cfg})
            else:
                rep.ok(what, "no_std and %d crates, std not among them" % len(api.p.d["crates"]))
            rep.count("no_std configurations")
        # allocation
        al = Allocs(api)
        for key, f in silent(api).items():
            found, nb = al.of(f["inst"])
            rep.count("functions without allocation")
            rep.count("bodies searched", nb)
            name = "%s does not allocate [%s]" % (key, cfg)
            sure = [x for x in found if x[0]]
            if sure:
                rep.bad("allocates %s" % key, "%s: %s calls %s" % (name, sure[0][3], sure[0][1]), sure[0][2] or f.get("span"), {"call": sure[0][1], "in": sure[0][3]})
            elif found:
                rep.open(name, "calls %s" % found[0][1])
            else:
                rep.ok(name, "%d bodies, no allocating call" % nb)
        # steps
        for rule in RULES:
            run_steps(rep, api, cfg, "%s::integrate" % rule, api.method(rule, "integrate"), seed)
            if rule in CLOSED:
                run_steps(rep, api, cfg, "%s::new" % rule, api.method(rule, "new"), seed)
