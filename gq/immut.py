"""P19: rules are immutable values without hidden state; equality and cloning cover every field."""
import random
from .api import *
from .decide import decide, texact, flatten
from .param import reach, json_paths, contains_ty, mut_float_out
from .evalt import Ev
from .models import value_eq

CELLS = ("core::cell::", "std::sync::", "core::sync::atomic", "once_cell", "alloc::rc::Weak", "std::cell", "parking_lot", "std::thread::local", "rayon_core", "crossbeam")
BENIGN_CELLS = ("alloc::sync::Arc", "alloc::rc::Rc", "std::sync::Arc")
LAZY = ("OnceLock", "LazyLock", "LazyCell", "OnceCell", "Once", "OnceBox", "Lazy")
EFFECTS = ("std::env::", "std::fs::", "std::io::", "std::net::", "std::process::", "std::time::", "std::thread::sleep", "std::thread::current", "std::thread::spawn", "std::hash::random", "std::collections::hash_map::RandomState", "std::os::", "std::sys::")


def walk_types(p, ty, path=(), seen=None):
    """(field path, type) of everything a value of the type contains"""
    seen = seen if seen is not None else set()
    if ty in seen:
        return
    seen.add(ty)
    t = p.types[ty]
    yield path, t
    if isinstance(t.get("ty"), int):
        yield from walk_types(p, t["ty"], path, seen)
    for x in t.get("args", []):
        if isinstance(x, int):
            yield from walk_types(p, x, path, seen)
    for v in t.get("variants", []) or []:
        for f in v["fields"]:
            yield from walk_types(p, f["ty"], path + (f["name"],), seen)


def interior(p, ty):
    for path, t in walk_types(p, ty):
        nm = t.get("path") or t.get("s") or ""
        if any(nm.startswith(c) for c in CELLS) and not any(nm.startswith(c) for c in BENIGN_CELLS) and not nm.startswith("std::sync::poison::Poison"):
            return ".".join(path), t["s"]
    return None


def value_types(api):
    """rules, parameter, errors and iterators of the public API"""
    out = {n: "rule" for n in RULES}
    out[PARAM] = "parameter"
    for n, a in api.adts.items():
        if n in out:
            continue
        if any((im.get("trait") or "").split("::")[-1] in ("Iterator", "IntoIterator") and api.p.types[im["self"]].get("path") == a["path"] for im in api.p.impls):
            out[n] = "iterator"
        elif any((im.get("trait") or "").split("::")[-1] == "Error" and api.p.types[im["self"]].get("path") == a["path"] for im in api.p.impls):
            out[n] = "error"
    return out


def public_fns(api):
    for f in api.p.fns:
        if f.get("inst") is not None and f.get("local", True) and not f.get("unsafe") and (f.get("exported") or f.get("reachable") or f.get("trait_ref")):
            yield f


def run_immutable(rep, apis, seed):
    for cfg, api in apis.items():
        p = api.p
        kinds = value_types(api)
        rules = {api.adt(n)["ty"]: n for n in RULES}
        # 1. shape of the types
        for n, k in kinds.items():
            a = api.adt(n)
            rep.count("types")
            if k in ("rule", "parameter"):
                pub = [f["name"] for v in p.types[a["ty"]]["variants"] for f in v["fields"] if f["vis"] == "pub"]
                if pub:
                    rep.bad("public field %s.%s" % (n, pub[0]), "field %s of %s can be assigned by anyone" % (pub[0], n), a.get("span"), {"statement": "rule.%s = ..." % pub[0]})
                else:
                    rep.ok("%s: fields are private [%s]" % (n, cfg), "%d fields" % sum(len(v["fields"]) for v in p.types[a["ty"]]["variants"]))
                w = interior(p, a["ty"])
                if w or not a["freeze"]:
                    rep.bad("interior mutability %s" % n, "%s holds state that changes behind a shared reference: field %s of type %s" % ((n,) + (w or ("?", "?"))), a.get("span"), {"field": (w or ("?",))[0]})
                else:
                    rep.ok("%s: no interior mutability [%s]" % (n, cfg), "all field types walked")
            for tr in ("Send", "Sync"):
                if a["auto"].get(tr):
                    rep.ok("%s is %s [%s]" % (n, tr, cfg), "trait solver")
                else:
                    rep.bad("%s not %s" % (n, tr), "%s (%s) is not %s" % (n, k, tr), a.get("span"), {"program": "fn f<T: %s>() {} f::<%s>()" % (tr, n)})
        # 2. functions with exclusive access to a rule
        for f in public_fns(api):
            for i, x in enumerate(f["inputs"]):
                t = p.types[x]
                if t["k"] == "ref" and t.get("mut") and t["ty"] in rules:
                    mutator(rep, api, cfg, f, i, rules[t["ty"]], seed)
                elif t["k"] == "ref" and not t.get("mut") and t["ty"] in rules and f.get("output") is not None and mut_float_out(api, f["output"], api.param_ty()):
                    rep.bad("mutable view %s" % f["path"], "%s hands out mutable access through a shared reference" % f["path"], f.get("ispan"), None)
        # 3. hidden state and side effects
        hidden(rep, api, cfg)
        # 4. equality and cloning
        for n in list(RULES) + [PARAM]:
            eq_clone(rep, api, cfg, n, seed)
        for n, k in kinds.items():
            if k == "iterator":
                clone_only(rep, api, cfg, n, seed)


ALLOWED = {"change_degree": NEWTON, "clone_from": RULES, "deserialize_in_place": RULES}


def mutator(rep, api, cfg, f, i, rule, seed):
    p = api.p
    name = f["name"]
    key = "%s %s [%s]" % (rule, name, cfg)
    rep.count("functions with exclusive access")
    out = f.get("output")
    if out is not None:
        for path, t in walk_types(p, out):
            if t["k"] == "ref" and t.get("mut") and not contains_other(p, t, f):
                rep.bad("mutable access %s::%s" % (rule, name), "%s hands out a mutable reference into the rule" % f["path"], f.get("ispan"), {"type": p.ts(out)})
                return
    if name in ALLOWED and rule in ALLOWED[name]:
        rep.ok(key, "the one mutator the property allows" if name == "change_degree" else "assignment of a whole value")
        return
    s = Session(api)
    args = s.args(f)
    from .views import deep_deref
    before = deep_deref(s, args[i])
    v = s.call(f, args)
    if v is None:
        rep.ok(key, "never returns")
        return
    after = deep_deref(s, args[i])
    leaves = []
    if has_top(after) or not flatten(after, before, list(s.I.facts), leaves):
        rep.open(key, "state after the call not resolved")
        return
    if all(texact(a, b, fs) for a, b, fs in leaves):
        rep.ok(key, "leaves the rule unchanged")
        return
    from .decide import refute
    for a, b, fs in leaves:
        w = refute(a, b, fs, seed)
        if w:
            rep.bad("mutator %s::%s" % (rule, name), "%s changes the data of an existing rule" % f["path"], f.get("ispan"), w)
            return
    rep.open(key, "change of state not decided")


def contains_other(p, t, f):
    """a mutable reference that belongs to another argument (a formatter, a serializer, ...)"""
    for x in f["inputs"]:
        u = p.types[x]
        if u["k"] == "ref" and u.get("mut") and u["ty"] == t["ty"] and p.types[t["ty"]]["k"] in ("adt", "param") and not p.types[t["ty"]].get("local"):
            return True
    return False


def hidden(rep, api, cfg):
    p = api.p
    # statics with hidden state
    bad = {}
    for nm, s in p.statics.items():
        if not s.get("local"):
            continue
        rep.count("statics")
        w = interior(p, s["ty"])
        if s.get("mut") or s.get("tls") or not s["freeze"] or w:
            bad[nm] = (s, w)
    for c in p.d.get("consts", []):
        w = interior(p, c["ty"])
        if w or "LocalKey" in p.ts(c["ty"]):
            bad[c["path"]] = (c, w or ("", p.ts(c["ty"])))
    cache = {}
    users = {}
    for f in public_fns(api):
        rep.count("functions searched")
        rs = reach(p, f["inst"], cache)
        for b in rs:
            users.setdefault(b, f)
    effects = 0
    for b, f in users.items():
        body = p.bodies[b]
        if not isinstance(body, dict) or "blocks" not in body or not body.get("local"):
            continue
        rep.count("bodies searched")
        raw = repr(body["blocks"])
        for nm, (s, w) in bad.items():
            if "'%s'" % nm in raw:
                ty = p.ts(s["ty"])
                if any(l in ty for l in LAZY) and not s.get("mut") and not captures(p, body):
                    rep.ok("%s is initialised once with a value that depends on nothing [%s]" % (nm, cfg), ty)
                    continue
                rep.bad("hidden state %s" % nm, "%s (reached from %s) reads or writes the global state %s: %s" % (body["path"], f["path"], nm, ty), body.get("span"), {"static": nm, "function": f["path"]})
        for path in set(json_paths(body["blocks"])):
            if any(path.startswith(e) for e in EFFECTS) and "fmt" not in path:
                rep.bad("effect %s" % path, "%s (reached from %s) calls %s" % (body["path"], f["path"], path), body.get("span"), {"function": f["path"], "call": path})
                effects += 1
        for l, shared in raw_writes(p, body):
            if shared:
                rep.bad("write through a shared reference in %s" % body["path"], "%s (reached from %s) writes through a pointer made from a shared reference" % (body["path"], f["path"]), l, {"function": f["path"]})
            else:
                rep.open("raw pointer write in %s" % body["path"], str(l))
    if not effects:
        rep.ok("no function of the crate calls into the environment, files, clocks, threads or random numbers [%s]" % cfg, "%d bodies" % rep.counts.get("bodies searched", 0))
    if not bad:
        rep.ok("every static of the crate is immutable [%s]" % cfg, "%d statics" % rep.counts.get("statics", 0))


def captures(p, body):
    """closures with captured values built in a body"""
    for bl in body["blocks"]:
        for s in bl["s"]:
            if s[0] == "=" and s[2][0] == "agg" and str(s[2][1][0]).startswith("clo") and s[2][2]:
                return True
    return False


PTR_CALLS = ("core::ptr::", "core::slice::", "core::str::", "core::mem::transmute", "core::intrinsics::", "alloc::vec::Vec::<T, A>::as_ptr", "std::ptr::")
PTR_WRITES = ("write", "write_unaligned", "write_volatile", "write_bytes", "replace", "swap", "copy_from", "copy_from_nonoverlapping", "atomic_store")


def callee_path(t):
    d = t[1].get("def")
    return d.get("path") or "" if isinstance(d, dict) else ""


def op_local(o):
    """local read by an operand"""
    if isinstance(o, list) and o and o[0] in ("cp", "mv") and isinstance(o[1], list):
        return o[1]
    return None


def raw_writes(p, body):
    """(span, shared) of every write through a raw pointer; shared: the pointer was made from a shared reference"""
    tys = body["locals"]
    ptr = lambda l: p.types[tys[l]]["k"] == "ptr"
    shared = {i for i, t in enumerate(tys) if p.types[t]["k"] == "ref" and not p.types[t].get("mut")}
    refs = set(shared)

    def root(pl):
        return pl[0]

    def kind(pl):
        """type of the pointer a place goes through last"""
        cur, last = tys[pl[0]], None
        for el in pl[1:]:
            if el[0] == "d":
                last = p.types[cur]
            if el[0] == "f":
                cur = el[2]
            elif el[0] != "v":
                cur = p.types[cur].get("ty", cur)
        return last
    changed = True
    while changed:
        changed = False
        for bl in body["blocks"]:
            for st in bl["s"]:
                if st[0] != "=" or len(st[1]) != 1:
                    continue
                d, rv = st[1][0], st[2]
                if d in shared or not (ptr(d) or p.types[tys[d]]["k"] == "ref"):
                    continue
                src = None
                if rv[0] in ("use", "cast"):
                    src = op_local(rv[1] if rv[0] == "use" else rv[2])
                elif rv[0] in ("ref", "rawptr") and isinstance(rv[-1], list):
                    src = rv[-1]
                if src is not None and src and isinstance(src[0], int) and src[0] in shared and (len(src) == 1 or src[1][0] == "d"):
                    shared.add(d)
                    changed = True
            t = bl["t"]
            if t[0] == "call" and isinstance(t[1], dict) and len(t[3]) == 1:
                d = t[3][0]
                nm = callee_path(t)
                if d not in shared and ptr(d) and any(nm.startswith(c) for c in PTR_CALLS) and t[2] and op_local(t[2][0]) and op_local(t[2][0])[0] in shared:
                    shared.add(d)
                    changed = True
    for bl in body["blocks"]:
        for st in bl["s"]:
            if st[0] != "=":
                continue
            k = kind(st[1])
            if k is not None and k["k"] == "ptr" and k.get("mut"):
                yield st[-1], st[1][0] in shared
            if st[2][0] == "ref" and st[2][1] is True and isinstance(st[2][2], list):
                k = kind(st[2][2])
                if k is not None and k["k"] == "ptr" and st[2][2][0] in shared - refs:
                    yield st[-1], True
        t = bl["t"]
        if t[0] == "call" and isinstance(t[1], dict):
            nm = callee_path(t)
            if (nm.startswith("core::ptr::") or nm.startswith("std::ptr::") or nm.startswith("core::intrinsics::")) and nm.split("::")[-1] in PTR_WRITES and t[2] and op_local(t[2][0]):
                yield t[5] if len(t) > 5 else None, op_local(t[2][0])[0] in shared


# ---------------------------------------------------------------- equality and cloning
def perturbations(ts, prefix_a, prefix_b):
    """concrete environments in which two values agree except in one place"""
    names = {x.a[1] for t in ts for x in subterms(t) if x.op == "sel"}
    fv = sorted(set().union(*[t.fv for t in ts]), key=lambda v: v.a[0])
    base = {v.a[0]: v for v in fv}
    sel_paths = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "sel":
                sel_paths.setdefault(x.a[1], set()).add(x.a[3] if len(x.a) > 3 else "")
    avars = [v for v in fv if v.a[0].startswith(prefix_a)]
    twin = {v: base.get(prefix_b + v.a[0][len(prefix_a):]) for v in avars}

    def env(length, pert=None, delta=1, salt=0):
        r = random.Random("%d/%d" % (length, salt))
        e = {}
        for v in avars:
            if v.a[0].endswith(".len"):
                val = length
            elif v.a[1] == "int":
                val = r.randrange(1, 50)
            elif v.a[1] == "float":
                val = r.uniform(0.1, 5) if salt % 2 == 0 else 0.0
            else:
                val = bool(r.getrandbits(1))
            e[v] = val
            if twin[v] is not None:
                w = val
                if pert == v:
                    w = val + delta if not isinstance(val, bool) else not val
                e[twin[v]] = w
        for v in fv:
            if v not in e:
                e[v] = 1
        return e

    def seqs(pert=None, delta=0.5, salt=0):
        out = {}
        for n in names:
            core = n[len(prefix_a):] if n.startswith(prefix_a) else n[len(prefix_b):]
            isb = n.startswith(prefix_b)

            def f(idx, path, core=core, isb=isb):
                r = random.Random("%s/%s/%s/%d" % (core, idx, path, salt))
                x = r.uniform(0.1, 1)
                if isb and pert == (core, tuple(idx) if not isinstance(idx, int) else (idx,), path):
                    x += delta
                return x
            out[n] = f
        return out
    yield "all equal", env(3), seqs()
    for v in avars:
        short = v.a[0][len(prefix_a):].lstrip(".")
        if v.a[0].endswith(".len"):
            for d in (1, -1, -3, 5):
                yield "length of %s differs by %d" % (short[:-4], d), env(3, v, d), seqs()
        elif v.a[1] == "int":
            for d in (1, 2, 256, 1 << 16, 1 << 31):
                yield "differs by %d in %s" % (d, short), env(3, v, d), seqs()
        elif v.a[1] == "float":
            for d in (1.0, -0.05, 1e-7, 1e-12, 4e-15):
                for salt in (0, 1):
                    yield "differs by %g in %s" % (d, short), env(3, v, d, salt), seqs()
        elif v.a[1] == "bool":
            yield "differs in %s" % short, env(3, v), seqs()
    for n in names:
        if n.startswith(prefix_a):
            for path in sorted(sel_paths.get(n, {""}) | {".0", ".1"}):
                for length, j in ((1, 0), (3, 0), (3, 1), (3, 2), (2, 1), (40, 39), (40, 20), (40, 3)):
                    for d in (0.5, 1e-7, 4e-16):
                        pr = (n[len(prefix_a):], (j,), path)
                        yield "differs by %g in element %d%s of %s (length %d)" % (d, j, path, n[len(prefix_a):].lstrip("."), length), env(length), seqs(pr, d)


def eq_spec(api, s, a, b):
    """conjunction over every field"""
    def go(x, y, d=0):
        x, y = s.deref(x), s.deref(y)
        if isinstance(x, Adt) and isinstance(y, Adt):
            rs = [go(u, v) for u, v in zip(x.vs[0], y.vs[0])]
            return None if any(r is None for r in rs) else band(TRUE, *rs)
        return value_eq(s.I, s.st, x, y)
    return go(a, b)


def eq_clone(rep, api, cfg, n, seed):
    f = api.trait_method(n, "PartialEq", "eq")
    key = "%s == [%s]" % (n, cfg)
    if f is None:
        rep.bad("no PartialEq %s" % n, "%s cannot be compared" % n, api.adt(n).get("span"), {"program": "a == b"})
    else:
        rep.count("equality functions")
        s = Session(api)
        ty = api.adt(n)["ty"]
        a, b = s.arg(ty, "a"), s.arg(ty, "b")
        v = s.call(f, [s.newref(a), s.newref(b)])
        want = eq_spec(api, s, a, b)
        judge_eq(rep, n, key, f, s, v, want, seed)
        g = api.trait_method(n, "PartialEq", "ne")
        if g is not None:
            s = Session(api)
            a, b = s.arg(ty, "a"), s.arg(ty, "b")
            v = s.call(g, [s.newref(a), s.newref(b)])
            want = eq_spec(api, s, a, b)
            judge_eq(rep, n, "%s != [%s]" % (n, cfg), g, s, v, bnot(want) if want is not None else None, seed)
    clone_only(rep, api, cfg, n, seed)


def judge_eq(rep, n, key, f, s, v, want, seed):
    if want is None or not isinstance(v, T) or has_top(v):
        rep.open(key, "summary incomplete: %s %s" % (str(v)[:200], s.limits()[:2]))
        return
    if texact(v, want, s.I.facts):
        rep.ok(key, "conjunction over every field")
        return
    for label, env, seqs in perturbations([v, want], "a", "b"):
        try:
            e = Ev(env, {}, seqs)
            if not all(e.ev(x) for x in s.I.facts if not (x.fv - set(env))):
                continue
            x, y = e.ev(v), e.ev(want)
        except (Undecided, ArithmeticError, KeyError, ValueError, TypeError, IndexError):
            continue
        if bool(x) != bool(y):
            rep.bad("equality of %s" % n, "%s: two values with '%s' compare %s" % (f["path"], label, "equal" if x else "unequal"), f.get("ispan") or f.get("span"), {"case": label})
            return
    rep.open(key, "not shown to be the conjunction over every field: %s" % str(v)[:200])


def clone_only(rep, api, cfg, n, seed):
    f = api.trait_method(n, "Clone", "clone")
    key = "%s::clone [%s]" % (n, cfg)
    if f is None:
        if n in RULES or n == PARAM:
            rep.bad("no Clone %s" % n, "%s cannot be cloned" % n, api.adt(n).get("span"), {"program": "a.clone()"})
        return
    rep.count("clone functions")
    ty = api.adt(n)["ty"]
    s = Session(api)
    a = s.arg(ty, "a")
    if has_top(a):
        # iterators: opaque contents; their cloning is the library's or decided by P16
        if f.get("derived"):
            rep.ok(key, "derived: clones every field")
        else:
            rep.open(key, "contents not symbolic")
        return
    v = s.call(f, [s.newref(a)])
    if v is None:
        rep.bad("clone of %s" % n, "%s never returns" % f["path"], f.get("ispan"), None)
        return
    from .views import deep_deref
    decide(rep, "clone of %s" % n, key, f.get("ispan") or f.get("span"), deep_deref(s, v), deep_deref(s, a), s.I.facts, seed)
