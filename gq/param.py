"""P13 and P14: the validated parameter type."""
import itertools
import math
import random
import re
from .api import *
from .decide import decide, refute, texact, flatten
from .linear import entails
from .models import FMT
from .report import Report
from .text import FLOAT, INTS, f32_parse, int_parse, rust_parse, S


def fop(op):
    return lambda a, b: fbin(op, a, b)

SPECIAL = [float("nan"), float("inf"), float("-inf"), -1.0, math.nextafter(-1.0, 0), math.nextafter(-1.0, -2), -2.0, 0.0, -0.0, 0.5, -0.5, 1.0, 2.0, 3.0, 1e300, -1e300,
           5e-324, 1.7976931348623157e308, 1 / 3, 0.1, 1e-300, 0.7, 40.0, -0.75]
TEXTS = ["0.5", "nan", "NaN", "-nan", "inf", "-inf", "infinity", "-1", "-1.0", "-0.9999999999999999", "-2", "1e400", "-1e400", "-0.0", "0", "+3", "abc", "", " 0.5", "0.5 ", "0x10", "1,5", "1_000", ".5", "5.", "e5", "1e-320",
         "0.1", "1.7976931348623157e308", "16777217", "0.30000000000000004", "0.5f", "-.5", "+", "-", "1e5", "1E5", "0.5\n", "\"0.5\"", "1/2", "50%"]
def strfns(ts):
    """concrete meaning of the text functions occurring in the terms"""
    out = {}
    for t in ts:
        for x in subterms(t):
            if x.op != "app" or x.a[1] in out:
                continue
            nm = x.a[1]
            if nm == "parse_tag_f64":
                out[nm] = lambda s: 0 if rust_parse(s) is not None else 1
            elif nm == "parsed":
                out[nm] = lambda s: rust_parse(s) if rust_parse(s) is not None else 0.0
            elif nm in ("parse_tag_f32",):
                out[nm] = lambda s: 0 if rust_parse(s) is not None else 1
            elif nm == "parsed_f32":
                out[nm] = lambda s: f32_parse(s) if f32_parse(s) is not None else 0.0
            elif nm.startswith("parse_tag_") and nm[10:] in INTS:
                out[nm] = lambda s, k=nm[10:]: 0 if int_parse(s, k) is not None else 1
            elif nm.startswith("parsed_") and nm[7:] in INTS:
                out[nm] = lambda s, k=nm[7:]: int_parse(s, k) or 0
            elif nm == "trim":
                out[nm] = str.strip
            elif nm == "trim_start":
                out[nm] = str.lstrip
            elif nm == "trim_end":
                out[nm] = str.rstrip
            elif nm in ("to_lowercase", "to_ascii_lowercase"):
                out[nm] = str.lower
            elif nm in ("to_uppercase", "to_ascii_uppercase"):
                out[nm] = str.upper
            elif nm == "str_len":
                out[nm] = lambda s: len(s.encode())
            elif ":" in nm:
                k, a = nm.split(":", 1)
                a = a.split("\x1f")
                if k == "replace":
                    out[nm] = lambda s, a=a: s.replace(a[0], a[1])
                elif k in ("trim_matches", "trim_start_matches", "trim_end_matches"):
                    def tm(s, a=a, k=k):
                        if k != "trim_end_matches":
                            while a[0] and s.startswith(a[0]):
                                s = s[len(a[0]):]
                        if k != "trim_start_matches":
                            while a[0] and s.endswith(a[0]):
                                s = s[:-len(a[0])]
                        return s
                    out[nm] = tm
                elif k == "strip_prefix":
                    out[nm] = lambda s, a=a: s[len(a[0]):] if s.startswith(a[0]) else s
                elif k == "strip_suffix":
                    out[nm] = lambda s, a=a: s[:-len(a[0])] if s.endswith(a[0]) else s
                elif k == "starts_with":
                    out[nm] = lambda s, a=a: s.startswith(a[0])
                elif k == "ends_with":
                    out[nm] = lambda s, a=a: s.endswith(a[0])
                elif k == "contains":
                    out[nm] = lambda s, a=a: a[0] in s
                elif k == "eq_ignore_ascii_case":
                    out[nm] = lambda s, a=a: s.lower() == a[0].lower()
                elif k == "str_eq":
                    out[nm] = lambda s, a=a: s == a[0]
                elif k == "has_strip_prefix":
                    out[nm] = lambda s, a=a: s.startswith(a[0])
                elif k == "has_strip_suffix":
                    out[nm] = lambda s, a=a: s.endswith(a[0])
            elif nm.startswith("parse_error_"):
                out[nm] = lambda s, nm=nm: "error of parsing %r as %s" % (s, nm[12:])
    return out


def valid(x):
    return band(isfin(x), fcmp("flt", F(-1.0), x))


def generalise(ts):
    """replace every value of an unknown function by an arbitrary number (for searching counterexamples only when the function is arbitrary)"""
    return ts


def search(a, b, facts, seed):
    ts = [a, b] + list(facts)
    ranges = {}
    for t in ts:
        for v in t.fv:
            if v.a[1] == "str":
                ranges[v] = TEXTS
    return refute(a, b, facts, seed, floats=SPECIAL, ranges=ranges, fns=strfns(ts), tries=4000)


# ---------------------------------------------------------------- types
def contains_ty(api, ty, want, seen=None):
    """does a value of the type hold (by value, reference or container) a value of the type `want`"""
    seen = seen if seen is not None else set()
    if ty == want:
        return True
    if ty in seen:
        return False
    seen.add(ty)
    t = api.p.types[ty]
    if t["k"] == "ptr" or (t["k"] == "adt" and t["path"].endswith("NonNull")):
        return False                      # only unsafe code reads through it
    kids = []
    if isinstance(t.get("ty"), int):
        kids.append(t["ty"])
    kids += [x for x in t.get("args", []) if isinstance(x, int)]
    for v in t.get("variants", []) or []:
        kids += [f["ty"] for f in v["fields"]]
    return any(contains_ty(api, k, want, seen) for k in kids)


def holders(api, v, st, I_, conds, out, depth=0):
    """(conditions, value) of every parameter value reachable in a value"""
    if depth > 12:
        return
    if isinstance(v, N) and v.k in ("ref", "box"):
        holders(api, I_.load(st, v), st, I_, conds, out, depth + 1)
    elif isinstance(v, Adt):
        if v.path == api.adt(PARAM)["path"]:
            for fs in v.vs.values():
                for x in fs:
                    out.append((list(conds), x))
            return
        for k, fs in v.vs.items():
            c = conds if len(v.vs) == 1 and iconst(v.d) is not None else conds + [ieq(v.d, I(k))]
            if any(x is FALSE for x in c):
                continue
            for x in fs:
                holders(api, x, st, I_, c, out, depth + 1)
    elif isinstance(v, N) and v.k in ("tup", "arr"):
        for x in v.c:
            holders(api, x, st, I_, conds, out, depth + 1)
    elif isinstance(v, IteV):
        holders(api, v.a, st, I_, conds + [v.c], out, depth + 1)
        holders(api, v.b, st, I_, conds + [bnot(v.c)], out, depth + 1)
    elif isinstance(v, Lam):
        holders(api, v.body, st, I_, conds, out, depth + 1)


def raw_builds(p, path):
    """bodies (generic ones included) that build a value of the type field by field or by reinterpretation,
    or that write or mutably borrow its field"""
    out = {}
    tid = p.adts[path]["ty"] if path in p.adts else None

    def through(b, place):
        cur = b["locals"][place[0]]
        for el in place[1:]:
            if el[0] == "d":
                cur = p.types[cur].get("ty", cur)
            elif el[0] == "f":
                if cur == tid:
                    return True
                cur = el[2]
            elif el[0] not in ("v",):
                cur = p.types[cur].get("ty", cur)
        return False
    for bid, b in enumerate(p.bodies):
        if not isinstance(b, dict) or "blocks" not in b or not b.get("local"):
            continue
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][3] == path:
                    out.setdefault(bid, []).append(("aggregate", s[-1]))
                elif rv[0] == "cast" and "ransmute" in str(rv[1]) and rv[3] == tid:
                    out.setdefault(bid, []).append(("transmute", s[-1]))
                elif through(b, s[1]):
                    out.setdefault(bid, []).append(("field write", s[-1]))
                elif rv[0] in ("ref", "addr") and rv[1] and through(b, rv[2]):
                    out.setdefault(bid, []).append(("field borrowed mutably", s[-1]))
            t = bl["t"]
            if t[0] == "call":
                if through(b, t[3]):
                    out.setdefault(bid, []).append(("field write", t[5]))
                nm = json_paths(t[1])
                if any(x.split("::")[-1] in ("transmute", "transmute_copy", "zeroed", "read", "read_unaligned", "uninit", "assume_init", "from_raw", "transmute_unchecked") for x in nm) and b["locals"][t[3][0]] == tid:
                    out.setdefault(bid, []).append(("reinterpretation", t[5]))
    return out


def json_paths(x, out=None):
    out = out if out is not None else []
    if isinstance(x, dict):
        if isinstance(x.get("path"), str):
            out.append(x["path"])
        for v in x.values():
            json_paths(v, out)
    elif isinstance(x, list):
        for v in x:
            json_paths(v, out)
    return out


def json_consts(x, ty, out):
    if isinstance(x, dict):
        if x.get("ty") == ty and isinstance(x.get("v"), dict):
            out.append(x["v"])
        for v in x.values():
            json_consts(v, ty, out)
    elif isinstance(x, list):
        for v in x:
            json_consts(v, ty, out)


def json_insts(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("inst"), int):
            out.add(x["inst"])
        for v in x.values():
            json_insts(v, out)
    elif isinstance(x, list):
        for v in x:
            json_insts(v, out)


def reach(p, bid, cache):
    """bodies reachable from a body through calls, function values and closures"""
    seen, todo = set(), [bid]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if b not in cache:
            s = set()
            if isinstance(p.bodies[b], dict):
                json_insts(p.bodies[b].get("blocks"), s)
            cache[b] = s
        todo += [x for x in cache[b] if x not in seen]
    return seen


# construction from bytes or archives without running the crate's own validation
BYTES = {"TryFromBytes": "zerocopy::TryFromBytes accepts every bit pattern", "FromBytes": "zerocopy::FromBytes builds a value from arbitrary bytes", "CheckBytes": "bytecheck accepts every bit pattern of the archived value",
         "Pod": "bytemuck::Pod builds a value from arbitrary bytes", "AnyBitPattern": "bytemuck::AnyBitPattern builds a value from arbitrary bytes", "NoUninit": None, "Unaligned": None}


def run_valid(rep, apis, seed):
    for cfg, api in apis.items():
        p = api.p
        path = api.adt(PARAM)["path"]
        pty = api.param_ty()
        t = p.types[pty]
        rep.count("configurations")
        # 1. the representation is private
        for v in t["variants"]:
            for f in v["fields"]:
                rep.count("fields")
                if f["vis"] == "pub":
                    rep.bad("field %s" % f["name"], "the field of %s is public, so any value can be stored" % PARAM, api.adt(PARAM).get("span"), {"construct": "%s(f64::NAN)" % PARAM})
                else:
                    rep.ok("%s: field %s is private [%s]" % (PARAM, f["name"], cfg), f["vis"])
        # 2. every function that returns or may modify a value
        builders = raw_builds(p, path)
        cache = {}
        for f in p.fns:
            if f.get("inst") is None or f.get("unsafe") or not (f.get("crate") in (None, "gauss_quad") and f.get("local", True)):
                continue
            foreign = f.get("trait_ref") is not None
            if not (f.get("exported") or f.get("reachable") or foreign):
                continue
            muts = [i for i, x in enumerate(f["inputs"]) if p.types[x]["k"] == "ref" and p.types[x].get("mut") and contains_ty(api, p.types[x]["ty"], pty)]
            gives = f.get("output") is not None and contains_ty(api, f["output"], pty)
            generic_builder = f["inst"] in builders
            if not (muts or gives or generic_builder):
                continue
            key = f["path"].replace("gauss_quad::", "")
            rep.count("functions")
            if not (reach(p, f["inst"], cache) & set(builders)):
                rep.ok("%s yields only finite values above -1 [%s]" % (key, cfg), "only moves existing values: no body it reaches builds or modifies one")
                continue
            if f.get("output") is not None and muts and mut_float_out(api, f["output"], pty):
                rep.bad("mutable access %s" % key, "%s hands out a mutable reference to the stored number" % key, f.get("ispan"), {"write": "NaN"})
                continue
            check_fn(rep, api, cfg, f, key, muts, seed)
        # 3. bytes and archives
        for im in p.impls:
            tr = (im.get("trait") or "").split("::")[-1]
            st = p.types[im["self"]]
            s = st["s"]
            if tr in BYTES and BYTES[tr] and (s == path or s.endswith("Archived" + PARAM) or s == p.types[pty]["s"]):
                rep.count("byte-level traits")
                rep.bad("%s %s" % (tr, s.split("::")[-1]), "%s: %s implements it, so bytes of NaN or -5.0 become a value" % (BYTES[tr], s.split("::")[-1]), im.get("span"), {"bytes": "f64::NAN.to_ne_bytes()", "configuration": cfg})
        # constants: named ones and those embedded in code
        cs = [(c["path"], c["ty"], c.get("v"), c.get("span")) for c in p.d.get("consts", [])]
        cs += [("static " + k, v["ty"], v.get("value"), v.get("span")) for k, v in p.statics.items() if v.get("local")]
        for bid, b in enumerate(p.bodies):
            if isinstance(b, dict) and "blocks" in b and b.get("local"):
                l = []
                json_consts(b["blocks"], pty, l)
                cs += [("constant in %s" % b["path"], pty, x, b.get("span")) for x in l]
        for nm, ty, v, span in cs:
            if v is None or not contains_ty(api, ty, pty):
                continue
            rep.count("constants")
            s = Session(api)
            hs = []
            try:
                holders(api, s.I.constv(s.st, ty, v), s.st, s.I, [], hs)
            except (KeyError, IndexError, TypeError) as e:
                rep.open("%s [%s]" % (nm, cfg), e)
                continue
            for _, x in hs:
                c = fconst(x) if isinstance(x, T) else None
                if c is None:
                    rep.open("%s [%s]" % (nm, cfg), "value not evaluated")
                elif math.isfinite(c) and c > -1:
                    rep.ok("%s is valid [%s]" % (nm, cfg), str(c))
                else:
                    rep.bad("constant %s" % nm, "%s holds an invalid number" % nm, span, {"value": str(c)})
        # 4. bodies that build values and are not reached from an analysed function
        for bid, l in builders.items():
            rep.count("construction sites", len(l))


def mut_float_out(api, ty, pty, inref=False, seen=None):
    """the type contains a mutable reference (or raw mutable pointer) to a float that is not wrapped in the parameter type"""
    seen = seen if seen is not None else set()
    if (ty, inref) in seen or ty == pty:
        return False
    seen.add((ty, inref))
    t = api.p.types[ty]
    if t["k"] == "float":
        return inref
    if t["k"] in ("ref", "ptr") and t.get("mut"):
        return mut_float_out(api, t["ty"], pty, True, seen)
    kids = [t["ty"]] if isinstance(t.get("ty"), int) else []
    kids += [x for x in t.get("args", []) if isinstance(x, int)]
    for v in t.get("variants", []) or []:
        kids += [f["ty"] for f in v["fields"]]
    return any(mut_float_out(api, k, pty, inref, seen) for k in kids)


def havoc_session(api):
    s = Session(api)
    s.I.havoc = True

    def onsym(v, d=0):
        if d > 8:
            return
        if isinstance(v, Adt):
            if v.path == api.adt(PARAM)["path"]:
                s.param_facts(v)
                return
            for fs in v.vs.values():
                for x in fs:
                    onsym(x, d + 1)
        elif isinstance(v, N):
            for x in v.c:
                onsym(x, d + 1)
            if v.k == "ref" and v.s in s.st.cells:
                onsym(s.st.cells[v.s], d + 1)
    s.I.onsym = onsym
    return s, onsym


def check_fn(rep, api, cfg, f, key, muts, seed):
    what = "%s yields only finite values above -1 [%s]" % (key, cfg)
    s, onsym = havoc_session(api)
    try:
        args = [s.I.sym(s.st, t, "a%d" % i) for i, t in enumerate(f["inputs"])]
        for a in args:
            onsym(a)
            if isinstance(a, N) and a.k == "ref":
                onsym(s.I.load(s.st, a))
        v = s.call(f, args)
    except (KeyError, IndexError, TypeError, AttributeError, Undecided) as e:
        return unreachable_or_open(rep, api, f, key, what, "%s: %s" % (type(e).__name__, e))
    if not s.ok:
        rep.ok(what, "never returns")
        return
    hs = []
    holders(api, v, s.st, s.I, [], hs)
    for i in muts:
        holders(api, s.I.load(s.st, args[i]), s.st, s.I, [], hs)
    if has_top(v) and not hs and contains_ty(api, f["output"], api.param_ty()):
        return unreachable_or_open(rep, api, f, key, what, s.limits()[:2])
    n = 0
    for conds, x in hs:
        if not isinstance(x, T):
            return unreachable_or_open(rep, api, f, key, what, "value %s" % (x,))
        facts = list(s.I.facts) + list(conds) + ([s.st.pc] if s.st.pc is not TRUE else [])
        if entails(facts, valid(x)) or by_cases(x, facts):
            n += 1
            continue
        w = search(valid(x), B(True), facts, seed)
        if w is None:
            # values of unknown calls are arbitrary: already variables. Unknown functions: not decided
            rep.open(what, "not entailed: %s" % str(x)[:200])
            return
        if archived(api, f):
            return unreachable_or_open(rep, api, f, key, what, "")
        w.pop("got", None)
        w.pop("want", None)
        rep.bad("invalid value %s" % key, "%s can return a value that is not finite or not above -1" % key, f.get("ispan") or f.get("span"), w)
        return
    rep.ok(what, "%d stored numbers entailed valid" % n)
    rep.count("stored numbers", n)


def by_cases(x, facts):
    """entailed on every case of the conditionals in the value"""
    from .nf import cases, Give
    try:
        for fs, (y,) in cases([x], facts, cap=32):
            if not entails(fs, valid(y)):
                return False
        return True
    except Give:
        return False


def archived(api, f):
    tr = f.get("trait_ref") or ""
    return f.get("derived") and "rkyv" in tr and "Deserialize" in tr and not any((im.get("trait") or "").split("::")[-1] == "CheckBytes" for im in api.p.impls)


def unreachable_or_open(rep, api, f, key, what, why):
    if archived(api, f):
        rep.ok(what, "reads an archived value, which safe code obtains only from a valid one (no byte validation trait is implemented)")
        return
    rep.open(what, why)


# ---------------------------------------------------------------- P14
def run_faithful(rep, apis, seed):
    for cfg, api in apis.items():
        p = api.p
        path = api.adt(PARAM)["path"]

        def param(x):
            return Adt(api.param_ty(), path, ZERO, {0: (x,)})

        def opt(v, x):
            return Adt(v.ty, v.path, ite(valid(x), ONE, ZERO), {0: (), 1: (param(x),)}) if isinstance(v, Adt) else v

        def go(label, f, args, want, s):
            key = "%s [%s]" % (label, cfg)
            rep.count("operations")
            if f is None:
                raise MissingAnchor("%s (configuration %s)" % (label, cfg))
            v = s.call(f, args)
            if v is None:
                rep.bad("%s never returns" % label, "%s panics for every input" % label, f.get("ispan"), None)
                return
            pan = [o for o in s.I.obls if not o.ok]
            v = deepd(s, v)
            decide_p(rep, label, key, f.get("ispan"), v, want(v), s.I.facts, seed)

        M = lambda m: api.method(PARAM, m)
        s = Session(api)
        x = var("x", "float")
        go("new", M("new"), [x], lambda v: opt(v, x), s)
        s = Session(api)
        a = s.arg(api.param_ty(), "a")
        a0 = a.vs[0][0]
        go("get", M("get"), [s.newref(a)], lambda v: a0, s)
        f = next((f for f in p.fns if f["name"] == "from" and (f.get("trait_ref") or "").endswith("From<%s>>" % path) and p.ts(f["output"]) == "f64"), None)
        s = Session(api)
        s.param_facts(a)
        go("f64::from", f, [a], lambda v: a0, s)
        f = api.trait_method(PARAM, "TryFrom", "try_from", args=["f64"]) or api.trait_method(PARAM, "TryFrom", "try_from")
        s = Session(api)

        def want_try(v):
            return Adt(v.ty, v.path, ite(valid(x), ZERO, ONE), {0: (param(x),), 1: v.vs.get(1, ())}) if isinstance(v, Adt) else v
        go("TryFrom<f64>", f, [x], want_try, s)
        b = var("b", "float")
        for m, op in (("checked_add", fop("fadd")), ("checked_sub", fop("fsub")), ("checked_mul", fop("fmul")), ("checked_div", fop("fdiv")), ("checked_pow", lambda u, w: mk("app", "float", "pow", u, w))):
            s = Session(api)
            s.param_facts(a)
            r = op(a0, b)
            go(m, M(m), [a, b], lambda v, r=r: opt(v, r), s)
        f = api.trait_method(PARAM, "Default", "default")
        s = Session(api)
        go("default", f, [], lambda v: param(F(0.0)), s)
        run_parse(rep, api, cfg, seed, param, path)
        for tr, kind in (("Display", "display"), ("LowerExp", "lower_exp"), ("UpperExp", "upper_exp")):
            run_fmt(rep, api, cfg, tr, kind)
        run_cmp(rep, api, cfg, seed)


def deepd(s, v):
    from .views import deep_deref
    return deep_deref(s, v)


def decide_p(rep, label, key, where, got, want, facts, seed):
    if got is None or has_top(got) or has_top(want):
        rep.open(key, "summary incomplete: %s" % str(got)[:200])
        return
    out = []
    if not flatten(got, want, list(facts), out):
        rep.open(key, "values of different shape: %s" % str(got)[:200])
        return
    ok = True
    for a, b, fs in out:
        if texact(a, b, fs):
            continue
        w = search(a, b, fs, seed)
        if w:
            rep.bad(label, "%s returns something else than the specified value" % label, where, w)
            return
        if ok:
            why = "not decided: %s against %s" % (str(a)[:160], str(b)[:160])
        ok = False
    if ok:
        rep.ok(key, "%d leaves equal" % len(out))
    else:
        rep.open(key, why)


def run_parse(rep, api, cfg, seed, param, path):
    f = api.trait_method(PARAM, "FromStr", "from_str")
    if f is None:
        raise MissingAnchor("FromStr for %s" % PARAM)
    key = "from_str [%s]" % cfg
    rep.count("operations")
    s = Session(api)
    t = var("text", "str")
    v = s.call(f, [s.newref(t)])
    if v is None:
        rep.bad("from_str", "from_str panics for every input", f.get("ispan"), None)
        return
    v = deepd(s, v)
    et = api.p.types[api.p.types[f["output"]]["args"][1]]
    names = [x["name"] for x in et.get("variants", [])]
    if "ParseError" not in names or "InvalidValue" not in names:
        raise MissingAnchor("the two parse error cases")
    pe, iv = names.index("ParseError"), names.index("InvalidValue")
    x = mk("app", "float", "parsed", t)
    parses = ieq(mk("app", "int", "parse_tag_f64", t), ZERO)
    mine = Report("P14", "quick", seed)
    if not isinstance(v, Adt) or not isinstance(v.vs.get(1, (None,))[0], (Adt, IteV)):
        mine.open(key, "summary incomplete: %s %s" % (str(v)[:200], s.limits()[:2]))
    else:
        e = v.vs[1][0]
        ivp = e.vs.get(iv, ()) if isinstance(e, Adt) else ()
        err = Adt(getattr(e, "ty", None), et["path"], ite(parses, I(iv), I(pe)), {pe: (mk("app", "opaque", "parse_error_f64", t),), iv: ivp})
        want = Adt(v.ty, v.path, ite(band(parses, valid(x)), ZERO, ONE), {0: (param(x),), 1: (err,)})
        # the error is compared where there is one
        decide_p(mine, "from_str", key, f.get("ispan"), v, want, s.I.facts, seed)
    if not mine.undecided:
        rep.proved += mine.proved
        for b in mine.violations:
            rep.bad(b["key"], b["what"], b["where"], b["witness"])
        return
    w = on_texts(api, f, lambda t, r, s2: wrong_parse(t, r, pe, iv), s.I.seen)
    if w:
        rep.bad("from_str", "from_str does not do what parsing a number and validating it does", f.get("ispan"), w)
    else:
        rep.undecided += mine.undecided


MORE_TEXTS = ["++0.5", "+-0.5", "--1", "-abc", "+abc", "abc-", "_0.5", "é", "0.5é", "−0.5", "0,5", "NAN", "INF", "-INF", "+inf", "1e", "1e+", ".", "+.", "1.2.3", "0.25x", "  ", "\t1", "1\u00a0", "0b1", "1e-400", "-1e-400", "-0.999999999999999999999", "-1.0000000000000000000001",
              "1e308", "1.8e308", "0" * 40 + "1", "0." + "3" * 40, "007", "-0", "+0", "0e0", "1.e2", "1f64", "(1)", "1%", "$1", "½", "١", "1 2", "1;", "0.5,", "-.9", "-.99999", "-1e0", "-10e-1", "1e1000000", "-2e-1", "nan0", "infin", "Infinity", "iNf", "true", "null", "None", "pi", "e", "3.14", "100", "65535", "2147483648", "4294967296",
              "9007199254740993", "1e16", "123456789012345678901234567890", "a" * 60, "1" * 400, "-" + "0" * 50, "0x1p3"]


def texts_about(seen):
    """texts at the edges of what the code mentions: as long as its numbers, with its characters and literals in every place"""
    out = []
    for n in sorted(x for x in seen if isinstance(x, int) and not isinstance(x, bool) and 2 <= x <= 4096)[:12]:
        out += ["0" * (k - 1) + "1" for k in (n, n + 1, n + 2)]
        out += ["1" * n + "é", "1" * (n - 1) + "é", "1" + "é" * n, "é" * n, "0." + "3" * n, "1" + "0" * n, "-0." + "0" * n + "1", " " * n + "1"]
    lits = [x for x in seen if isinstance(x, str) and 0 < len(x) <= 40][:12]
    lits += [chr(x) for x in seen if isinstance(x, int) and not isinstance(x, bool) and (33 <= x < 127 or 0xa0 <= x < 0x3000)][:24]
    for q in lits:
        for w in ("0.5", "1", "-1", "inf", "nan", "1e1", "-0.25", ""):
            out += [w + q, q + w, q + w + q, w + q + w, w + q + q, q + q + w]
        out += [q.upper(), q.lower(), q[:-1], q[1:], "+" + q, "-" + q]
    return list(dict.fromkeys(out))


def on_texts(api, f, judge, seen=()):
    """the function folded on texts known at analysis time; the first one it gets wrong"""
    seen = dict.fromkeys(seen)
    done = set()
    for round in range(2):
        for t in (TEXTS + MORE_TEXTS if round == 0 else []) + texts_about(seen):
            if t in done:
                continue
            done.add(t)
            s = Session(api)
            s.I.unroll = max(16, len(t) + 2)
            v = s.call(f, [s.newref(S(t))])
            seen.update(s.I.seen)
            if s.limits() or any(not o.ok and o.goal is not FALSE for o in s.I.obls):
                continue
            w = judge(t, None if v is None else deepd(s, v), s)
            if w:
                return dict(text=t if len(t) <= 60 else "%s... (%d characters: %s)" % (t[:20], len(t), ", ".join("%d x %r" % (len(list(g)), k) for k, g in itertools.groupby(t))), **w)
    return None


def wrong_parse(t, v, pe, iv):
    x = rust_parse(t)
    want = "accepted as %r" % x if x is not None and math.isfinite(x) and x > -1.0 else "refused as not a number" if x is None else "refused as out of range"
    if v is None:
        return dict(got="panics", want=want)
    if not isinstance(v, Adt) or not isinstance(v.d, T) or iconst(v.d) is None:
        return None
    if iconst(v.d) == 0:
        y = fconst(v.vs[0][0].vs[0][0]) if isinstance(v.vs[0][0], Adt) and isinstance(v.vs[0][0].vs[0][0], T) else None
        if y is None:
            return None
        got = "accepted as %r" % y
    else:
        e = v.vs[1][0]
        k = iconst(e.d) if isinstance(e, Adt) and isinstance(e.d, T) else None
        if k not in (pe, iv):
            return None
        got = "refused as not a number" if k == pe else "refused as out of range"
    return dict(got=got, want=want) if got != want else None


def fmt_pieces(api, f, args, s):
    s.st.cells[FMT] = N("tup", None, [])
    v = s.call(f, args)
    if v is None:
        return None
    return s.st.cells.get(FMT)


DEMO = {"display": lambda x: repr(x), "lower_exp": lambda x: "%e" % x, "upper_exp": lambda x: "%E" % x}


def run_fmt(rep, api, cfg, tr, kind):
    f = api.trait_method(PARAM, tr, "fmt")
    label = "%s::fmt" % tr
    key = "%s [%s]" % (label, cfg)
    rep.count("operations")
    if f is None:
        raise MissingAnchor("%s for %s" % (tr, PARAM))
    s = Session(api)
    a = s.arg(api.param_ty(), "a")
    a0 = a.vs[0][0]
    ps = fmt_pieces(api, f, [s.newref(a), s.newref(TopV("formatter"))], s)
    # a top of unknown formatting shows up as a limit
    if not isinstance(ps, N) or s.limits() or any(x.k == "piece" and x.s == "unknown" for x in ps.c):
        rep.open(key, "formatting not resolved: %s %s" % (str(ps)[:200], s.limits()[:2]))
        return
    real = [x for x in ps.c if not (x.k == "lit" and x.s == "")]
    if not real:
        if not s.I.extcalls or all("fmt" not in c for c in s.I.extcalls):
            rep.bad(label, "%s writes nothing" % label, f.get("ispan"), {"value": 0.5})
        else:
            rep.open(key, "nothing recorded")
        return
    lits = [x.s for x in real if x.k == "lit"]
    args = [x for x in real if x.k == "piece"]
    if lits or len(args) != 1:
        rep.bad(label, "%s writes more than the number: %s" % (label, [x.s for x in real]), f.get("ispan"), {"value": 0.5, "extra text": lits})
        return
    k, opts = args[0].s
    val = args[0].c[0]
    if isinstance(val, Adt) and val.path == api.adt(PARAM)["path"]:
        rep.open(key, "formats itself through another path")
        return
    if k != kind:
        rep.bad(label, "%s uses the %s format" % (label, k), f.get("ispan"), {"value": 1.0, "format used": k})
        return
    if opts and opts != ("inherit",):
        rep.bad(label, "%s fixes formatting options %s" % (label, opts), f.get("ispan"), {"value": 1 / 3, "options": [list(o) for o in opts]})
        return
    if not isinstance(val, T):
        rep.open(key, "value %s" % val)
        return
    if texact(val, a0, s.I.facts):
        rep.ok(key, "one %s argument, the stored number, default options" % k)
        return
    w = search(val, a0, s.I.facts, 1)
    if w:
        rep.bad(label, "%s writes another number" % label, f.get("ispan"), w)
    else:
        rep.open(key, "value written: %s" % str(val)[:200])


def run_cmp(rep, api, cfg, seed):
    """comparison of parameters is comparison of the numbers"""
    for tr, m, spec in (("PartialEq", "eq", lambda x, y: fcmp("feq", x, y)), ("PartialOrd", "partial_cmp", None)):
        f = api.trait_method(PARAM, tr, m)
        rep.count("operations")
        key = "%s::%s [%s]" % (tr, m, cfg)
        if f is None:
            raise MissingAnchor("%s for %s" % (tr, PARAM))
        s = Session(api)
        a, b = s.arg(api.param_ty(), "a"), s.arg(api.param_ty(), "b")
        x, y = a.vs[0][0], b.vs[0][0]
        v = s.call(f, [s.newref(a), s.newref(b)])
        if v is None or has_top(v):
            rep.open(key, "summary incomplete: %s" % (s.limits()[:2],))
            continue
        if spec:
            decide_p(rep, "%s::%s" % (tr, m), key, f.get("ispan"), v, spec(x, y), s.I.facts, seed)
            continue
        # Some(ordering) with the ordering of the numbers (both are ordinary numbers)
        if not isinstance(v, Adt) or not isinstance(v.vs.get(1, (None,))[0], (T, Adt)):
            rep.open(key, "value %s" % str(v)[:200])
            continue
        o = v.vs[1][0]
        d = o.d if isinstance(o, Adt) else o
        less = api.p.types[api.p.types[f["output"]]["args"][0]]
        want = {nm["name"]: k for k, nm in enumerate(less["variants"])}
        rep.samples.append("%s: %s" % (key, str(v)[:200]))
        sp = ite(fcmp("flt", x, y), I(want["Less"]), ite(fcmp("feq", x, y), I(want["Equal"]), I(want["Greater"])))
        present = v.d
        w = None if entails(s.I.facts, ieq(present, ONE)) else search(present, ONE, s.I.facts, seed)
        if w:
            rep.bad("%s::%s" % (tr, m), "comparison of two parameters gives no ordering", f.get("ispan"), w)
            continue
        if d is mk("app", "int", "pcmp", x, y) or texact(d, sp, s.I.facts):
            rep.ok(key, "ordering of the numbers")
            continue
        w = search(d, sp, s.I.facts, seed)
        if w:
            rep.bad("%s::%s" % (tr, m), "comparison of two parameters is not the comparison of their numbers", f.get("ispan"), w)
        else:
            rep.open(key, "ordering %s against %s" % (str(d)[:200], str(sp)[:200]))
