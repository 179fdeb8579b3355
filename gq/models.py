"""Semantics of the library functions the crate may call, by resolved path."""
import re
from .val import *
from .linear import entails, conj, simp
from .interp import Limit, NC, State, FnKey


def short(path):
    """trait/impl-independent short name of a resolved path"""
    m = re.search(r"<impl (.+?)>::([A-Za-z_0-9]+)$", path)
    if m:
        t = m.group(1)
        t = re.sub(r"^.* for ", "", t)
        t = re.sub(r"<.*", "", t)
        if not t.startswith("["):
            t = t.split("::")[-1]
        return t + "::" + m.group(2)
    p = re.sub(r"::<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>", "", path)
    seg = p.split("::")
    return "::".join(seg[-2:])


OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"


def some(v, ty=None):
    return Adt(ty, OPT, ONE, {0: (), 1: (v,)})


def none(ty=None):
    return Adt(ty, OPT, ZERO, {0: ()})


def option(d, v, ty=None):
    return Adt(ty, OPT, ite(d, ONE, ZERO), {0: (), 1: (v,)})


def ordering(d):
    return Adt(None, ORD, d, {0: (), 1: (), 2: ()})


def mkit(lo, hi, src):
    return N("it", None, (lo, hi, src))


def isit(v):
    return isinstance(v, N) and v.k == "it"


# ------------------------------------------------------------------ iterator sources
def item(I_, st, src, i):
    k = src.k
    if k == "s_range":
        return iadd(src.c[0], i), st
    if k == "s_slice":
        r = src.c[0]
        if isinstance(r, IteV):
            f = lambda x: IteV(x.c, f(x.a), f(x.b)) if isinstance(x, IteV) else elref(I_, st, x, i)
            return f(r), st
        return elref(I_, st, r, i), st
    if k == "s_owned":
        return I_.index(st, src.c[0], i), st
    if k == "s_map":
        v, st = item(I_, st, src.c[0], i)
        if st is None:
            return None, None
        return I_.call_value(st, src.c[1], [v])
    if k == "s_rev":
        return item(I_, st, src.c[0], isub(src.c[1], i))
    if k == "s_enum":
        v, st = item(I_, st, src.c[0], i)
        return tup(isub(i, src.c[1]), v), st
    if k == "s_shift":
        return item(I_, st, src.c[0], iadd(i, src.c[1]))
    if k == "s_zip":
        a, st = item(I_, st, src.c[0], iadd(i, src.c[1]))
        b, st = item(I_, st, src.c[2], iadd(i, src.c[3]))
        return tup(a, b), st
    if k == "s_step":
        return item(I_, st, src.c[0], iadd(src.c[1], imul(i, src.c[2])))
    if k == "s_chain":
        a, st1 = item(I_, st, src.c[0], iadd(i, src.c[1]))
        b, st2 = item(I_, st, src.c[3], iadd(isub(i, src.c[2]), src.c[4]))
        return vite(ilt(i, src.c[2]), a, b), st
    if k == "s_copied":
        v, st = item(I_, st, src.c[0], i)
        return (I_.load(st, v) if is_refish(v) else v), st
    if k == "s_filter":
        v, st = item(I_, st, src.c[0], i)
        if st is None:
            return None, None
        arg = v if src.s == "map" else I_.newref(st, v)
        r, s2 = I_.call_value(st, src.c[1], [arg])
        if s2 is None:
            return None, None
        if src.s == "map":
            if not isinstance(r, Adt):
                I_.limit("filter_map result")
                return TopV("filter_map"), s2
            g = ieq(I_.simp(s2, r.d), ONE)
            v = r.vs.get(1, (TopV("none"),))[0]
        else:
            g = I_.simp(s2, r) if isinstance(r, T) else top("bool")
        if g is TRUE:
            return v, s2
        if not I_.guards:
            I_.limit("filtered iterator used by position")
            return TopV("filtered item"), s2
        no = s2.copy()
        no.pc = band(no.pc, bnot(g))
        yes = s2.copy()
        yes.pc = band(yes.pc, g)
        I_.guards[-1].append((g, no))
        if g is FALSE:
            return v, None
        return v, yes
    if k == "s_windows":
        return sub_ref(I_, st, src.c[0], i, iadd(i, src.c[1])), st
    if k == "s_chunks":
        ln = I_.vlen(I_.load(st, src.c[0]))
        a = imul(i, src.c[1])
        b = iadd(a, src.c[1])
        return sub_ref(I_, st, src.c[0], a, b if src.s == "exact" else imin(b, ln)), st
    return TopV("iterator source %s" % k), st


def is_refish(v):
    return isinstance(v, IteV) or (isinstance(v, N) and v.k in ("ref", "box", "ctab"))


def elref(I_, st, r, i):
    if isinstance(r, N) and r.k == "ref":
        cell, projs = I_.unref(r)
        if projs and projs[-1][0] == "s":
            return I_.ref(cell, projs[:-1] + [("i", iadd(projs[-1][1], i))])
        return I_.ref(cell, projs + [("i", i)])
    if isinstance(r, N) and r.k == "box":
        return I_.ref(r.s, [("i", i)])
    if isinstance(r, N) and r.k == "ctab":
        return I_.newref(st, I_.ctab_index(r, i))
    return TopV("element of %r" % (r,))


def sub_ref(I_, st, r, a, b):
    if isinstance(r, N) and r.k == "ref":
        cell, projs = I_.unref(r)
        if projs and projs[-1][0] == "s":
            o = projs[-1][1]
            return I_.ref(cell, projs[:-1] + [("s", iadd(o, a), iadd(o, b))])
        return I_.ref(cell, projs + [("s", a, b)])
    if isinstance(r, N) and r.k == "box":
        return I_.ref(r.s, [("s", a, b)])
    if isinstance(r, N) and r.k == "ctab":
        return I_.newref(st, I_.slice(st, r, a, b))
    if isinstance(r, IteV):
        return IteV(r.c, sub_ref(I_, st, r.a, a, b), sub_ref(I_, st, r.b, a, b))
    return TopV("subslice")


# ------------------------------------------------------------------ conversions to iterators
def as_it(I_, st, v):
    """-> (it value, state)"""
    if isit(v):
        return v, st
    if isinstance(v, IteV):
        a, st = as_it(I_, st, v.a)
        b, st = as_it(I_, st, v.b)
        return vite(v.c, a, b), st
    if isinstance(v, Adt):
        if v.path.endswith("range::Range"):
            s, e = v.vs[0][:2]
            if isinstance(s, T) and isinstance(e, T) and s.knd == "int":
                return mkit(ZERO, I_.simp(st, imax0(isub(e, s))), N("s_range", None, (s,))), st
        if v.path.endswith("range::RangeInclusive"):
            s, e = v.vs[0][:2]
            if isinstance(s, T) and isinstance(e, T) and s.knd == "int":
                return mkit(ZERO, I_.simp(st, imax0(iadd(isub(e, s), ONE))), N("s_range", None, (s,))), st
        if v.path.endswith("range::RangeFrom"):
            s = v.vs[0][0]
            return mkit(ZERO, I(1 << 63), N("s_range", None, (s,))), st
        nx = iter_fn(I_, v, "next")
        if nx is not None:
            return local_iter(I_, st, v, nx)
    if isinstance(v, N):
        if v.k == "ref":
            inner = I_.load(st, v)
            if isit(inner):
                return inner, st        # by_ref: caller handles write-back when it matters
            if isinstance(inner, Adt) and (iter_fn(I_, inner, "next") or "range::Range" in inner.path):
                return as_it(I_, st, inner)
            if isinstance(inner, N) and inner.k == "box":
                return as_it(I_, st, I_.ref(inner.s))
            if isinstance(inner, N) and inner.k == "ref":
                return as_it(I_, st, inner)
            return mkit(ZERO, I_.vlen(inner), N("s_slice", None, (v,))), st
        if v.k == "ctab":
            return mkit(ZERO, I_.vlen(v), N("s_slice", None, (v,))), st
        if v.k == "box":
            inner = I_.load(st, v)
            return mkit(ZERO, I_.vlen(inner), N("s_owned", None, (inner,))), st
        if v.k == "arr":
            return mkit(ZERO, I(len(v.c)), N("s_owned", None, (v,))), st
    if isinstance(v, Lam) and len(v.n) == 1:
        return mkit(ZERO, v.n[0], N("s_owned", None, (v,))), st
    return None, st


def iter_fn(I_, v, name, trait="Iterator"):
    """inst of a local iterator type's method"""
    if not isinstance(v, Adt):
        return None
    for im in I_.p.impls:
        tr = im.get("trait") or ""
        if not tr.endswith("::" + trait):
            continue
        t = I_.p.types[im["self"]]
        if t["k"] == "adt" and t["path"] == v.path:
            it = im["items"].get(name)
            if it and it.get("inst") is not None:
                return it["inst"]
    return None


def local_iter(I_, st, v, nx):
    cell = I_.alloc(st, v)
    cap = {}

    def body(s, k):
        s = s.copy()
        r, s2 = I_.run(nx, [I_.ref(cell, mut=True)], s)
        if s2 is None:
            return None, []
        if not isinstance(r, Adt):
            raise Limit("iterator next() result")
        d = I_.simp(s2, r.d)
        c = ieq(d, ONE)
        ex, co = s2.copy(), s2.copy()
        ex.pc = band(ex.pc, bnot(c))
        co.pc = band(co.pc, c)
        cap["item"] = vmap(r.vs.get(1, (TopV("none"),))[0], lambda t: I_.simp(co, t)) if 1 in r.vs else TopV("none")
        exits = [] if I_.ent(s2, c) else [(("end",), ex)]
        cont = None if I_.ent(s2, bnot(c)) else co
        return cont, exits
    k, n, exits, _ = I_.loop(st, body, None)
    if not exits:
        raise Limit("iterator never ends")
    es = exits[0][1]
    es.pc = st.pc
    es.cells.pop(cell, None)
    it = cap.get("item")
    bv = fresh("i", "int", 0)
    return mkit(ZERO, n, N("s_owned", None, (Lam([n], [bv], vsubst(it, {k: bv})),))), es


def guarded_item(I_, st, src, i):
    """item of a possibly filtered source: (value, state in which it is delivered, [(state, cond) in which it is not])"""
    I_.guards.append([])
    try:
        v, s2 = item(I_, st, src, i)
        gs = I_.guards[-1]
    finally:
        I_.guards.pop()
    I_.kept = band(*[g for g, no in gs])
    return v, s2, [(no, no.pc) for g, no in gs]


def isfiltered(src):
    if not isinstance(src, N):
        return False
    if src.k == "s_filter":
        return True
    return any(isfiltered(x) for x in src.c if isinstance(x, N) and x.k.startswith("s_"))


def prefix(I_, st, it, f, neg, byref=True):
    """number of leading items that satisfy (neg: fail) the predicate, at most the length"""
    lo, hi, src = it.c
    if isfiltered(src):
        return None
    n = I_.simp(st, isub(hi, lo))
    fr = f if isinstance(f, N) and f.k in ("ref", "fn") else I_.newref(st, f)
    k = fresh("k", "int", 0)
    s = st.copy()
    s.pc = band(s.pc, ile(ZERO, k), ilt(k, n))
    v, s = item(I_, s, src, iadd(lo, k))
    if s is None:
        return None
    r, s2 = I_.call_value(s, fr, [I_.newref(s, v) if byref else v])
    if s2 is None or not isinstance(r, T):
        return None
    for cn, x in st.cells.items():
        if s2.cells.get(cn) is not x and vkey(s2.cells.get(cn)) != vkey(x):
            return None         # a predicate with effects
    stop = I_.simp(s2, r if neg else bnot(r))
    if stop is FALSE:
        return n
    if stop is TRUE:
        return imin(ZERO, n)
    from .loops import first_true
    c = bor(stop, ile(n, k))
    t = None
    if stop.op == "le0":
        t = first_true(stop, k, I_.facts + conj(st.pc))
    return I_.simp(st, imin(t, n)) if t is not None else mktrip(k, c)


def consume(I_, st, it, step):
    """run step(state, k, item) -> state for every remaining item; returns final state"""
    lo, hi, src = it.c
    n = I_.simp(st, isub(hi, lo))
    if n is ZERO:
        return st

    def body(s, k):
        v, s2, skipped = guarded_item(I_, s.copy(), src, iadd(lo, k))
        s3 = step(s2, k, v) if s2 is not None else None
        if not skipped:
            return s3, []
        outs = skipped + ([(s3, s3.pc)] if s3 is not None else [])
        m = I_.merge(outs, s.pc) if len(outs) > 1 else outs[0][0]
        if s3 is not None:
            m.pc = s.pc
        return m, []
    if I_.unroll and iconst(n) is not None and iconst(n) <= I_.unroll:
        pc = st.pc
        for j in range(iconst(n)):
            st, _ = body(st, I(j))
            if st is None:
                return None
        st.pc = pc
        return st
    k, _, _, post = I_.loop(st, body, n)
    if post is None:
        return None
    post.pc = st.pc
    return post


# ------------------------------------------------------------------ dispatch
TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


class Ctx:
    __slots__ = ("I", "st", "f", "destty", "argtys", "span", "name", "origin")

    def __init__(self, I_, st, f, destty, argtys, span, name):
        self.I, self.st, self.f, self.destty, self.argtys, self.span, self.name = I_, st, f, destty, argtys, span, name

    def ty(self, i):
        return self.I.p.types[i]


def call(I_, st, f, args, destty, argtys, span):
    v, st = call_(I_, st, f, args, destty, argtys, span)
    if isinstance(v, T) and v.knd == "float" and destty is not None and I_.p.types[destty].get("bits") == 32 and v.op != "top":
        v = f32(v)
    return v, st


def f32(v):
    """value rounded to single precision"""
    if v.op == "app" and v.a[1] == "f32":
        return v
    if v.op == "f":
        import struct
        c = fconst(v)
        try:
            return F(struct.unpack("<f", struct.pack("<f", c))[0])
        except OverflowError:
            return F(float("inf") if c > 0 else float("-inf"))
    return mk("app", "float", "f32", v)


def call_(I_, st, f, args, destty, argtys, span):
    path = f["path"]
    if I_.hook is not None:
        r = I_.hook(I_, st, f, args, destty, argtys, span)
        if r is not None:
            return r
    if f.get("local") and f.get("inst") is not None and f["inst"] in I_.gamma and I_.opaque_gamma and isinstance(args[0], T):
        return gamma_app(args[0]), st
    r = f.get("r") or {}
    local = f.get("local") or r.get("local")
    kind = f.get("kind")
    # closures and Fn* traits
    if path.startswith("core::ops::function::Fn"):
        a = args[1]
        xs = list(a.c) if isinstance(a, N) and a.k == "tup" else [a]
        return I_.call_value(st, args[0], xs)
    if local and f.get("inst") is not None:
        return I_.run(f["inst"], args, st.copy())
    name = short(path)
    c = Ctx(I_, st.copy(), f, destty, argtys, span, name)
    key = None
    for q in (name, short(r.get("path", path)), r.get("path", ""), path):
        if q in TABLE:
            key = q
            break
    I_.extcalls[path] = I_.extcalls.get(path, 0) + 1
    if args and isinstance(args[0], (N, T)):
        from .text import folded
        res = folded(c, args)
        if res is not None:
            return res
    if key is not None:
        try:
            res = TABLE[key](c, *args)
        except TypeError as e:
            if "positional" in str(e):
                res = None
            else:
                raise
        if res is not None:
            return res
    if r.get("crate") == "libm" or path.startswith("libm::"):
        return libm(c, path.split("::")[-1], args)
    if f.get("inst") is not None:
        return I_.run(f["inst"], args, st.copy())
    if path.startswith(("core::fmt", "alloc::fmt")) and not any(isinstance(x, N) and x.k == "clo" for x in args):
        return TopV("formatting"), st        # formatting reads its arguments and nothing else
    if destty is not None and c.ty(destty)["k"] == "never" or is_panic(path):
        I_.obligation("panic:" + path.split("::")[-1], st, FALSE, span)
        return None, None
    return unknown(c, args)


def is_panic(path):
    return any(x in path for x in ("panicking::", "unwrap_failed", "expect_failed", "handle_alloc_error", "slice_index_fail", "begin_panic"))


def unknown(c, args):
    I_, st = c.I, c.st
    I_.limit("unmodelled call %s" % c.f["path"])
    for i, a in enumerate(args):
        t = c.ty(c.argtys[i]) if c.argtys and i < len(c.argtys) else None
        if t is not None and t["k"] == "ref" and t.get("mut"):
            havoc(I_, st, a)
        elif isinstance(a, N) and a.k in ("clo",):
            for x in a.c:
                havoc(I_, st, x)
            st.cells[NC] = top("int")
        elif isinstance(a, N) and a.k == "fsym":
            st.cells[NC] = top("int")
    if I_.havoc and c.destty is not None:
        v = I_.sym(st, c.destty, "result%d of %s" % (I_.calls, c.f["path"].split("::")[-1]))
        if I_.onsym:
            I_.onsym(v)
        return v, st
    return topval(c, c.destty), st


def havoc(I_, st, a):
    if isinstance(a, N) and a.k in ("ref", "box"):
        v = I_.load(st, a)
        if isinstance(v, N) and v.k == "fsym":
            st.cells[NC] = top("int")
            return
        I_.store(st, a, TopV("havoc") if not isinstance(v, T) else top(v.knd))


def topval(c, ty):
    if ty is None:
        return TopV("unknown")
    t = c.ty(ty)
    if t["k"] in ("int", "bool", "float"):
        return top(t["k"])
    if t["k"] == "tuple":
        return tup(*[topval(c, a) for a in t["args"]])
    return TopV("result of %s" % c.f["path"])


def gamma_app(x):
    return mk("app", "float", "gamma", x)


def on_construct(I_, st, ty, vi, vals, frame):
    I_.constructs.append((ty, vi, tuple(vals), tuple(I_.fset(st)), frame.b["path"], frame.b.get("span")))


# ------------------------------------------------------------------ floats
def fl(c, *xs):
    out = []
    for x in xs:
        x = c.I.deep(c.st, x)
        out.append(x if isinstance(x, T) else top("float"))
    return out


def fapp(name, *xs):
    v = [fconst(x) for x in xs]
    return mk("app", "float", name, *xs)


def libm(c, name, args):
    xs = fl(c, *args)
    m = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "pow": "pow", "tgamma": "gamma", "fabs": "fabs", "exp": "exp", "log": "ln", "fma": "fma", "tan": "tan",
         "floor": "floor", "ceil": "ceil", "acos": "acos", "asin": "asin", "exp2": "exp2", "lgamma": "lgamma", "cbrt": "cbrt", "atan": "atan", "round": "round", "trunc": "trunc", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh"}
    if name not in m and name.endswith("f") and name[:-1] in m:
        name = name[:-1]      # single precision
    if name in m and all(x.knd == "float" for x in xs):
        return fmath(m[name], xs), c.st
    return unknown(c, args)


def fmath(name, xs):
    if name == "fma":
        return mk("fma", *xs)
    if name == "fabs" and fconst(xs[0]) is not None:
        return F(abs(fconst(xs[0])))
    return fapp(name, *xs)


for _rn, _nm in [("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("sqrt", "sqrt"), ("exp", "exp"), ("ln", "ln"), ("powf", "pow"), ("abs", "fabs"), ("gamma", "gamma"),
                 ("floor", "floor"), ("ceil", "ceil"), ("acos", "acos"), ("asin", "asin"), ("exp2", "exp2"), ("cbrt", "cbrt"), ("atan", "atan"), ("round", "round"), ("trunc", "trunc"),
                 ("sinh", "sinh"), ("cosh", "cosh"), ("tanh", "tanh")]:
    def _mkf(nm):
        def g(c, *a):
            xs = fl(c, *a)
            return fmath(nm, xs), c.st
        return g
    TABLE["f64::" + _rn] = TABLE["f32::" + _rn] = _mkf(_nm)     # `call` rounds what an f32 function returns


@model("intrinsics::fabs", "intrinsics::fabsf64")
def _fabs(c, x):
    return fmath("fabs", fl(c, x)), c.st


@model("f64::powi", "f32::powi")
def _powi(c, x, n):
    x, = fl(c, x)
    n = c.I.deep(c.st, n)
    if isinstance(n, T) and n.op == "i" and 0 <= n.a[0] <= 12:
        if n.a[0] == 0:
            return F(1.0), c.st
        r = x
        for _ in range(n.a[0] - 1):
            r = mk("fmul", r, x)
        return r, c.st
    return mk("app", "float", "powi", x, n if isinstance(n, T) else top("int")), c.st


@model("f64::mul_add", "f32::mul_add")
def _fma(c, a, b, d):
    return mk("fma", *fl(c, a, b, d)), c.st


@model("f64::recip", "f32::recip")
def _recip(c, x):
    return mk("fdiv", F(1.0), fl(c, x)[0]), c.st


@model("f64::midpoint")
def _mid(c, a, b):
    a, b = fl(c, a, b)
    return mk("fdiv", mk("fadd", a, b), F(2.0)), c.st


@model("f64::sin_cos")
def _sincos(c, x):
    x, = fl(c, x)
    return tup(fapp("sin", x), fapp("cos", x)), c.st


@model("f64::min", "f64::max")
def _fminmax(c, a, b):
    a, b = fl(c, a, b)
    lt = fcmp("flt", a, b)
    nan_a, nan_b = isnan(a), isnan(b)
    if c.name.endswith("min"):
        r = ite(lt, a, b)
    else:
        r = ite(lt, b, a)
    return ite(nan_a, b, ite(nan_b, a, r)), c.st


@model("f64::clamp")
def _fclamp(c, x, a, b):
    x, a, b = fl(c, x, a, b)
    return ite(fcmp("flt", x, a), a, ite(fcmp("flt", b, x), b, x)), c.st


@model("f64::is_nan")
def _isnan(c, x):
    return isnan(fl(c, x)[0]), c.st


@model("f64::is_finite")
def _isfin(c, x):
    return isfin(fl(c, x)[0]), c.st


@model("f64::is_infinite")
def _isinf(c, x):
    x, = fl(c, x)
    return band(bnot(isfin(x)), bnot(isnan(x))), c.st


@model("f64::classify")
def _classify(c, x):
    x, = fl(c, x)
    t = c.ty(c.destty)
    tiny = fcmp("flt", mk("app", "float", "fabs", x), F(2.2250738585072014e-308))
    d = ite(isnan(x), ZERO, ite(bnot(isfin(x)), ONE, ite(fcmp("feq", x, F(0.0)), I(2), ite(tiny, I(3), I(4)))))
    return Adt(c.destty, t["path"], d, {k: () for k in range(5)}), c.st


@model("f64::is_sign_negative")
def _isneg(c, x):
    x, = fl(c, x)
    return mk("app", "bool", "signbit", x), c.st


@model("f64::is_sign_positive")
def _ispos(c, x):
    x, = fl(c, x)
    return bnot(mk("app", "bool", "signbit", x)), c.st


@model("f64::to_bits")
def _tobits(c, x):
    x, = fl(c, x)
    return mk("app", "int", "bits", x), c.st


@model("f32::to_bits")
def _tobits32(c, x):
    x, = fl(c, x)
    return mk("app", "int", "bits32", x), c.st


@model("f32::from_bits")
def _frombits32(c, x):
    if isinstance(x, T) and x.op == "app" and x.a[1] == "bits32":
        return x.a[2], c.st
    return mk("app", "float", "frombits32", x if isinstance(x, T) else top("int")), c.st


@model("f64::from_bits")
def _frombits(c, x):
    if isinstance(x, T) and x.op == "i":
        return Fbits(x.a[0]), c.st
    if isinstance(x, T) and x.op == "app" and x.a[1] == "bits":
        return x.a[2], c.st
    return mk("app", "float", "frombits", x if isinstance(x, T) else top("int")), c.st


@model("f64::total_cmp")
def _tcmp(c, a, b):
    a, b = fl(c, a, b)
    return ordering(mk("app", "int", "tcmp", a, b)), c.st


@model("PartialOrd::partial_cmp")
def _pcmp(c, a, b):
    a, b = c.I.deep(c.st, a), c.I.deep(c.st, b)
    if isinstance(a, T) and isinstance(b, T):
        if a.knd == "float":
            d = mk("app", "int", "pcmp", a, b)
            return option(band(bnot(isnan(a)), bnot(isnan(b))), ordering(d)), c.st
        if a.knd == "int":
            return some(ordering(ite(ilt(a, b), ZERO, ite(ieq(a, b), ONE, I(2))))), c.st
    return None


@model("Ord::cmp")
def _cmp(c, a, b):
    a, b = c.I.deep(c.st, a), c.I.deep(c.st, b)
    if isinstance(a, T) and isinstance(b, T) and a.knd == "int":
        return ordering(ite(ilt(a, b), ZERO, ite(ieq(a, b), ONE, I(2)))), c.st
    return None


@model("Ordering::reverse")
def _oreverse(c, o):
    if isinstance(o, Adt):
        return ordering(isub(I(2), o.d)), c.st


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max")
def _ominmax(c, a, b):
    if isinstance(a, T) and isinstance(b, T) and a.knd == "int":
        return (imin if c.name.endswith("min") else imax)(a, b), c.st


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _plt(c, a, b):
    r = lexless(c, c.name[-2:], c.I.deepall(c.st, a), c.I.deepall(c.st, b))
    return None if r is None else (r, c.st)


def lexless(c, n, a, b):
    """the order of the core types: numbers, and tuples component by component"""
    if isinstance(a, T) and isinstance(b, T):
        if a.knd == "float":
            return {"lt": fcmp("flt", a, b), "le": fcmp("fle", a, b), "gt": fcmp("flt", b, a), "ge": fcmp("fle", b, a)}[n]
        if a.knd == "int":
            return {"lt": ilt(a, b), "le": ile(a, b), "gt": ilt(b, a), "ge": ile(b, a)}[n]
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k == "tup" and len(a.c) == len(b.c) and a.c:
        r = lexless(c, n, a.c[-1], b.c[-1])
        for x, y in list(zip(a.c, b.c))[-2::-1]:
            q = lexless(c, n[0] + "t", x, y)
            e = value_eq(c.I, c.st, x, y)
            if r is None or q is None or e is None:
                return None
            r = bor(q, band(e, r))
        return r
    return None


def value_eq(I_, st, a, b):
    """structural equality as derived for core types: sequences element by element"""
    a, b = I_.deep(st, a), I_.deep(st, b)
    if isinstance(a, T) and isinstance(b, T):
        if a.knd != b.knd or a.knd not in ("int", "float", "bool"):
            return None
        return {"int": ieq, "float": lambda x, y: fcmp("feq", x, y), "bool": beq}[a.knd](a, b)
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k == "tup" and len(a.c) == len(b.c):
        rs = [value_eq(I_, st, x, y) for x, y in zip(a.c, b.c)]
        return None if any(r is None for r in rs) else band(TRUE, *rs)
    a = arr2lam(a) if isinstance(a, N) and a.k == "arr" else a
    b = arr2lam(b) if isinstance(b, N) and b.k == "arr" else b
    if isinstance(a, Lam) and isinstance(b, Lam) and len(a.n) == len(b.n) == 1:
        k = fresh("k", "int", 0)
        r = value_eq(I_, st, a.at([k]), b.at([k]))
        if r is None:
            return None
        return band(ieq(a.n[0], b.n[0]), ieq(mktrip(k, bor(bnot(r), ile(a.n[0], k))), a.n[0]))
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path and set(a.vs) == set(b.vs) == {0}:
        t = I_.p.types[a.ty] if a.ty is not None else {}
        if t.get("local"):
            return None                   # has its own implementation
        rs = [value_eq(I_, st, x, y) for x, y in zip(a.vs[0], b.vs[0])]
        return None if any(r is None for r in rs) else band(TRUE, *rs)
    return None


@model("PartialEq::eq", "PartialEq::ne")
def _peq(c, a, b):
    a, b = c.I.deep(c.st, a), c.I.deep(c.st, b)
    r = None
    if isinstance(a, T) and isinstance(b, T) and a.knd == b.knd:
        g = {"int": ieq, "float": lambda x, y: fcmp("feq", x, y), "bool": beq}.get(a.knd)
        r = g(a, b) if g else None
    elif isinstance(a, N) and isinstance(b, T) and a.k == "str" and b.knd == "str":
        r = mk("app", "bool", "str_eq:" + a.s, b)
    elif isinstance(b, N) and isinstance(a, T) and b.k == "str" and a.knd == "str":
        r = mk("app", "bool", "str_eq:" + b.s, a)
    elif isinstance(a, N) and isinstance(b, N) and a.k == b.k == "tup" and not a.c:
        r = TRUE
    elif isinstance(a, N) and isinstance(b, N) and a.k == b.k == "str":
        r = B(a.s == b.s)
    elif isinstance(a, (Lam, N, Adt)) and isinstance(b, (Lam, N, Adt)):
        r = value_eq(c.I, c.st, a, b)
    if r is None:
        return None
    return (bnot(r) if c.name.endswith("ne") else r), c.st


def _arith(op):
    def g(c, a, b):
        a, b = c.I.deep(c.st, a), c.I.deep(c.st, b)
        if isinstance(a, T) and isinstance(b, T) and a.knd == "float" and b.knd == "float":
            return mk(op, a, b), c.st
        if isinstance(a, T) and isinstance(b, T) and a.knd == "int" and op in ("fadd", "fsub", "fmul"):
            v = {"fadd": iadd, "fsub": isub, "fmul": imul}[op](a, b)
            t = c.ty(c.destty)
            if t["k"] == "int":
                s = bool(t.get("signed"))
                lo, hi = (-(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1) if s else (0, (1 << t["bits"]) - 1)
                ok = band(ile(I(lo), v), ile(v, I(hi)))
                c.I.obligation("overflow", c.st, ok, c.span)
                c.I.assume(c.st, ok)
            return v, c.st
    return g


TABLE["Add::add"] = _arith("fadd")
TABLE["Sub::sub"] = _arith("fsub")
TABLE["Mul::mul"] = _arith("fmul")
TABLE["Div::div"] = _arith("fdiv")


@model("Neg::neg")
def _neg(c, a):
    a = c.I.deep(c.st, a)
    if isinstance(a, T) and a.knd == "float":
        return mk("fneg", a), c.st


def _arith_assign(op):
    def g(c, r, b):
        a, b = c.I.deep(c.st, r), c.I.deep(c.st, b)
        if isinstance(a, T) and isinstance(b, T) and a.knd == "float":
            c.I.store(c.st, r, mk(op, a, b))
            return UNIT, c.st
        if isinstance(a, T) and isinstance(b, T) and a.knd == "int":
            c.I.store(c.st, r, {"fadd": iadd, "fsub": isub, "fmul": imul, "fdiv": idiv}[op](a, b))
            return UNIT, c.st
    return g


TABLE["AddAssign::add_assign"] = _arith_assign("fadd")
TABLE["SubAssign::sub_assign"] = _arith_assign("fsub")
TABLE["MulAssign::mul_assign"] = _arith_assign("fmul")
TABLE["DivAssign::div_assign"] = _arith_assign("fdiv")


# ------------------------------------------------------------------ ints
@model("NonZero::get")
def _nzget(c, x):
    return c.I.deep(c.st, x), c.st


@model("NonZero::new")
def _nznew(c, x):
    if isinstance(x, T):
        return option(bnot(ieq(x, ZERO)), x), c.st


@model("NonZero::new_unchecked")
def _nznewu(c, x):
    c.I.obligation("nonzero", c.st, bnot(ieq(x, ZERO)), c.span)
    return x, c.st


def _range_of(c, x, tyid=None):
    t = None
    if c.argtys:
        t = c.ty(c.argtys[0])
    elif c.destty is not None:
        t = c.ty(c.destty)
    if t is not None and t["k"] == "adt" and t.get("args"):
        t = c.ty(t["args"][0])
    if t is None or t["k"] != "int":
        return None
    b = t["bits"]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1, b, True) if t.get("signed") else (0, (1 << b) - 1, b, False)


def _chk(op):
    def g(c, a, b):
        r = _range_of(c, a)
        if r is None or not isinstance(a, T) or not isinstance(b, T):
            return None
        v = op(a, b)
        ok = band(ile(I(r[0]), v), ile(v, I(r[1])))
        return option(c.I.simp(c.st, ok), v), c.st
    return g


def _sat(op):
    def g(c, a, b):
        r = _range_of(c, a)
        if r is None or not isinstance(a, T) or not isinstance(b, T):
            return None
        v = op(a, b)
        v = ite(ilt(v, I(r[0])), I(r[0]), ite(ilt(I(r[1]), v), I(r[1]), v))
        return c.I.simp(c.st, v), c.st
    return g


def _wrp(op):
    def g(c, a, b):
        r = _range_of(c, a)
        if r is None or not isinstance(a, T) or not isinstance(b, T):
            return None
        return c.I.simp(c.st, wrap(op(a, b), r[2], r[3])), c.st
    return g


for _t in ("usize", "u32", "u64", "i32", "i64", "isize", "u8", "u16", "NonZero"):
    for _n, _o in (("add", iadd), ("sub", isub), ("mul", imul)):
        TABLE["%s::checked_%s" % (_t, _n)] = _chk(_o)
        TABLE["%s::saturating_%s" % (_t, _n)] = _sat(_o)
        if _t != "NonZero":
            TABLE["%s::wrapping_%s" % (_t, _n)] = _wrp(_o)
    TABLE["%s::div_ceil" % _t] = lambda c, a, b: (idiv(iadd(a, b, I(-1)), b), c.st)
    TABLE["%s::is_multiple_of" % _t] = lambda c, a, b: (ite_b(ieq(b, ZERO), ieq(a, ZERO), ieq(irem(a, b), ZERO)), c.st)
    TABLE["%s::abs_diff" % _t] = lambda c, a, b: (ite(ile(a, b), isub(b, a), isub(a, b)), c.st)


for _n, _o in (("add", iadd), ("sub", isub), ("mul", imul)):
    TABLE["intrinsics::saturating_%s" % _n] = _sat(_o)
    TABLE["intrinsics::wrapping_%s" % _n] = _wrp(_o)


def _bitcount(op):
    def g(c, a):
        r = _range_of(c, a)
        if r is None or r[3] or not isinstance(a, T):
            return None
        v = mk("app", "int", op, a, I(r[2]))
        c.I.facts.append(band(ile(ZERO, v), ile(v, I(r[2]))))
        return v, c.st
    return g


for _n in ("ctlz", "cttz", "ctpop"):
    TABLE["intrinsics::%s" % _n] = _bitcount(_n)


def ite_b(cc, a, b):
    return bite(cc, a, b)


# ------------------------------------------------------------------ conversions
@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def _into(c, x):
    args = c.f.get("args") or []
    if c.name.startswith(("Into", "TryInto")):
        src, dst = args[0], args[1]
    else:
        dst, src = args[0], args[1] if len(args) > 1 else None
    d = c.ty(dst)
    tryv = c.name.startswith("Try")
    trait = "convert::TryFrom" if tryv else "convert::From"
    if src == dst and not tryv:
        return x, c.st
    # local impls
    for im in c.I.p.impls:
        if (im.get("trait") or "").endswith(trait) and same_ty(c, im["self"], dst) and im.get("args") and any(same_ty(c, a, src) for a in im["args"]):
            it = im["items"].get("try_from" if tryv else "from")
            if it and it.get("inst") is not None:
                return c.I.run(it["inst"], [x], c.st)
    if isinstance(x, T):
        if d["k"] == "float":
            return (i2f(x) if x.knd == "int" else x), c.st
        if d["k"] == "int" and x.knd == "int":
            if tryv:
                b = d["bits"]
                lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if d.get("signed") else (0, (1 << b) - 1)
                ok = c.I.simp(c.st, band(ile(I(lo), x), ile(x, I(hi))))
                return Adt(None, RES, ite(ok, ZERO, ONE), {0: (x,), 1: (TopV("TryFromIntError"),)}), c.st
            return x, c.st
        if d["k"] == "int" and x.knd == "bool":
            return ite(x, ONE, ZERO), c.st
        if d["k"] == "adt" and d["path"].endswith("NonZero") and tryv:
            ok = c.I.simp(c.st, bnot(ieq(x, ZERO)))
            return Adt(None, RES, ite(ok, ZERO, ONE), {0: (x,), 1: (TopV("TryFromIntError"),)}), c.st
    if d["k"] == "adt" and d["path"].endswith("boxed::Box") and not tryv:
        if isinstance(x, (Lam,)) or (isinstance(x, N) and x.k == "arr"):
            return N("box", c.I.alloc(c.st, x), ()), c.st
        if isinstance(x, N) and x.k == "ref":
            return N("box", c.I.alloc(c.st, c.I.load(c.st, x)), ()), c.st
    if d["k"] == "adt" and d["path"].endswith("vec::Vec") and not tryv:
        if isinstance(x, N) and x.k == "box":
            return c.I.load(c.st, x), c.st
        if isinstance(x, N) and x.k == "ref":
            return c.I.load(c.st, x), c.st
        if isinstance(x, Lam) or (isinstance(x, N) and x.k == "arr"):
            return x, c.st
    return None


def same_ty(c, a, b):
    if a == b:
        return True
    if a is None or b is None:
        return False
    x, y = c.ty(a), c.ty(b)
    if x["k"] == "adt" and y["k"] == "adt":
        return x["path"] == y["path"]
    return x["s"] == y["s"]


def parsed(c, s):
    """Result of parsing a number from text: a function of the text and the target type"""
    s = c.I.deep(c.st, s)
    t = c.ty(c.destty)
    val = c.ty(t["args"][0]) if t.get("args") else None
    if not (isinstance(s, T) and s.knd == "str") or val is None or val["k"] not in ("int", "float"):
        return None
    nm = "parsed" if val["s"] == "f64" else "parsed_" + val["s"]
    ok = ieq(mk("app", "int", "parse_tag_" + val["s"], s), ZERO)
    return Adt(c.destty, RES, ite(ok, ZERO, ONE), {0: (mk("app", val["k"], nm, s),), 1: (mk("app", "opaque", "parse_error_" + val["s"], s),)}), c.st


@model("str::parse")
def _parse(c, s):
    return parsed(c, s)


@model("FromStr::from_str")
def _from_str(c, s):
    return parsed(c, s)


@model("str::trim", "str::trim_start", "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::to_string", "str::to_owned", "ToString::to_string", "ToOwned::to_owned", "String::from", "String::as_str")
def _strfn(c, s):
    s = c.I.deep(c.st, s)
    if not (isinstance(s, T) and s.knd == "str"):
        return None
    r = s if c.name.split("::")[-1] in ("to_string", "to_owned", "from", "as_str") else mk("app", "str", c.name.split("::")[-1], s)
    return c.I.newref(c.st, r), c.st


@model("str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::replace", "str::strip_prefix", "str::strip_suffix", "str::starts_with", "str::ends_with", "str::contains", "str::eq_ignore_ascii_case")
def _strfn2(c, s, *a):
    s = c.I.deep(c.st, s)
    cs = []
    for x in a:
        x = c.I.deep(c.st, x)
        if isinstance(x, N) and x.k == "str":
            cs.append(x.s)
        elif isinstance(x, T) and iconst(x) is not None:
            cs.append(chr(iconst(x)))
        else:
            return None
    if not (isinstance(s, T) and s.knd == "str"):
        return None
    nm = c.name.split("::")[-1]
    if nm in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case"):
        return mk("app", "bool", "%s:%s" % (nm, cs[0]), s), c.st
    t = mk("app", "str", nm + ":" + "\x1f".join(cs), s)
    if nm.startswith("strip_"):
        has = mk("app", "bool", "has_" + nm + ":" + cs[0], s)
        return Adt(c.destty, OPT, ite(has, ONE, ZERO), {0: (), 1: (c.I.newref(c.st, t),)}), c.st
    return c.I.newref(c.st, t), c.st


@model("str::is_empty", "str::len")
def _strq(c, s):
    s = c.I.deep(c.st, s)
    if not (isinstance(s, T) and s.knd == "str"):
        return None
    n = c.name.split("::")[-1]
    ln = mk("app", "int", "str_len", s)
    return (ieq(ln, ZERO) if n == "is_empty" else ln), c.st


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "Borrow::borrow", "AsMut::as_mut", "Vec::as_slice", "Vec::as_mut_slice", "Iter::as_slice", "IntoIter::as_slice", "IntoIter::as_mut_slice", "[T]::as_ref", "Box::as_ref", "Box::as_mut")
def _deref(c, r):
    v = c.I.load(c.st, r) if isinstance(r, N) and r.k == "ref" else r
    if isinstance(v, N) and v.k == "box":
        return c.I.ref(v.s), c.st
    if isinstance(v, N) and v.k == "ref":
        return v, c.st
    if isit(v):
        lo, hi, src = v.c
        if src.k == "s_slice":
            return sub_ref(c.I, c.st, src.c[0], lo, hi), c.st
        if src.k == "s_owned":
            return c.I.newref(c.st, c.I.slice(c.st, src.c[0], lo, hi)), c.st
        return None
    return r, c.st


@model("Clone::clone", "ToOwned::to_owned", "[T]::to_vec", "[T]::into_vec")
def _clone(c, r):
    return copyval(c, c.I.load(c.st, r) if isinstance(r, N) and r.k == "ref" else r), c.st


def copyval(c, v):
    if isinstance(v, N) and v.k == "box":
        return N("box", c.I.alloc(c.st, copyval(c, c.I.load(c.st, v))), ())
    if isinstance(v, N) and v.k not in ("ref", "ctab", "clo"):
        return N(v.k, v.s, [copyval(c, x) for x in v.c])
    if isinstance(v, Adt):
        return Adt(v.ty, v.path, v.d, {k: tuple(copyval(c, x) for x in fs) for k, fs in v.vs.items()})
    return v


@model("Option::copied", "Option::cloned")
def _ocopied(c, o):
    if isinstance(o, Adt):
        if 1 not in o.vs:
            return o, c.st
        v = o.vs[1][0]
        return Adt(None, OPT, o.d, {0: (), 1: (c.I.load(c.st, v) if is_refish(v) else v,)}), c.st


@model("Default::default")
def _default(c):
    t = c.ty(c.destty)
    if t["k"] == "float":
        return F(0.0), c.st
    if t["k"] == "int":
        return ZERO, c.st
    if t["k"] == "bool":
        return FALSE, c.st
    if t["k"] == "adt" and t["path"].endswith("vec::Vec"):
        return N("arr", None, ()), c.st


@model("mem::replace")
def _mreplace(c, r, v):
    o = c.I.load(c.st, r)
    c.I.store(c.st, r, v)
    return o, c.st


@model("mem::swap")
def _mswap(c, a, b):
    x, y = c.I.load(c.st, a), c.I.load(c.st, b)
    c.I.store(c.st, a, y)
    c.I.store(c.st, b, x)
    return UNIT, c.st


@model("mem::drop", "mem::forget")
def _mdrop(c, a):
    return UNIT, c.st


@model("black_box", "hint::black_box", "convert::identity")
def _ident(c, a):
    return a, c.st


# ------------------------------------------------------------------ containers
@model("Box::new")
def _boxnew(c, v):
    return N("box", c.I.alloc(c.st, v), ()), c.st


@model("Vec::new", "Vec::with_capacity")
def _vecnew(c, *a):
    return N("arr", None, ()), c.st


@model("Vec::push")
def _push(c, r, v):
    cur = c.I.load(c.st, r)
    if isinstance(cur, N) and cur.k == "arr" and len(cur.c) == 0:
        bv = fresh("i", "int", 0)
        c.I.store(c.st, r, Lam([ONE], [bv], v))
        return UNIT, c.st
    if isinstance(cur, N) and cur.k == "arr":
        cur = arr2lam(cur)
    if isinstance(cur, Lam):
        nl = Lam([iadd(cur.n[0], ONE)], cur.bv, vite(ieq(cur.bv[0], cur.n[0]), v, cur.body))
        c.I.store(c.st, r, nl)
        return UNIT, c.st


@model("Vec::into_boxed_slice")
def _boxed(c, v):
    return N("box", c.I.alloc(c.st, v), ()), c.st


@model("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact")
def _reserve(c, *a):
    return UNIT, c.st


@model("vec::from_elem")
def _fromelem(c, v, n):
    return Lam([n], [fresh("i", "int", 0)], v), c.st


@model("[T]::len", "Vec::len", "Matrix::len", "Matrix::nrows")
def _len(c, r):
    return c.I.vlen(deepseq(c, r)), c.st


def deepseq(c, r):
    while isinstance(r, N) and r.k in ("ref", "box"):
        r = c.I.load(c.st, r)
    return r


@model("Matrix::ncols")
def _ncols(c, r):
    v = deepseq(c, r)
    return (v.n[1] if isinstance(v, Lam) and len(v.n) == 2 else ONE), c.st


@model("[T]::is_empty", "Vec::is_empty")
def _isempty(c, r):
    return ieq(c.I.vlen(deepseq(c, r)), ZERO), c.st


@model("[T]::iter", "[T]::iter_mut", "Matrix::iter", "Matrix::iter_mut", "[T]::par_iter", "IntoParallelRefIterator::par_iter", "IntoParallelRefMutIterator::par_iter_mut", "Vec::iter")
def _iter(c, r):
    it, st = as_it(c.I, c.st, norm_ref(c, r))
    return (it, st) if it is not None else None


def norm_ref(c, r):
    """collapse references to references / boxes down to the reference of the sequence itself"""
    while isinstance(r, N) and r.k == "ref":
        v = c.I.load(c.st, r)
        if isinstance(v, N) and v.k == "box":
            return c.I.ref(v.s)
        if isinstance(v, N) and v.k in ("ref", "ctab"):
            r = v
            continue
        return r
    return r


@model("[T]::first", "[T]::last", "[T]::get", "[T]::get_mut", "[T]::first_mut", "[T]::last_mut")
def _get(c, r, *i):
    r = norm_ref(c, r)
    n = c.I.vlen(deepseq(c, r))
    nm = c.name.split("::")[1]
    ix = ZERO if nm.startswith("first") else isub(n, ONE) if nm.startswith("last") else i[0]
    if isinstance(ix, T):
        return option(ilt(ix, n) if not nm.startswith("last") else ilt(ZERO, n), elref(c.I, c.st, r, ix)), c.st


@model("[T]::reverse")
def _reverse(c, r):
    r = norm_ref(c, r)
    v = c.I.load(c.st, r)
    if isinstance(v, N) and v.k == "arr":
        c.I.store(c.st, r, N("arr", None, v.c[::-1]))
        return UNIT, c.st
    if isinstance(v, Lam):
        b = v.bv[0]
        c.I.store(c.st, r, Lam(v.n, v.bv, v.at([isub(isub(v.n[0], ONE), b)])))
        return UNIT, c.st


@model("[T]::swap")
def _swap(c, r, i, j):
    r = norm_ref(c, r)
    n = c.I.vlen(c.I.load(c.st, r))
    c.I.obligation("bounds", c.st, band(ilt(i, n), ilt(j, n)), c.span)
    a, b = elref(c.I, c.st, r, i), elref(c.I, c.st, r, j)
    x, y = c.I.load(c.st, a), c.I.load(c.st, b)
    c.I.store(c.st, a, y)
    c.I.store(c.st, b, x)
    return UNIT, c.st


@model("Index::index", "IndexMut::index_mut", "[T]::index", "[T]::index_mut")
def _index(c, r, i):
    r = norm_ref(c, r)
    v = c.I.load(c.st, r)
    if isinstance(i, T):
        c.I.obligation("bounds", c.st, ilt(i, c.I.vlen(v)), c.span)
        return elref(c.I, c.st, r, i), c.st
    if isinstance(i, N) and i.k == "tup" and len(i.c) == 2 and isinstance(v, Lam) and len(v.n) == 2:
        a, b = i.c
        c.I.obligation("bounds", c.st, band(ilt(a, v.n[0]), ilt(b, v.n[1])), c.span)
        if isinstance(r, N) and r.k == "ref":
            cell, projs = c.I.unref(r)
            return c.I.ref(cell, projs + [("m", a, b)]), c.st
    if isinstance(i, Adt) and "range::Range" in i.path:
        n = c.I.vlen(v)
        fs = i.vs.get(0, ())
        p = i.path
        if p.endswith("RangeFull"):
            return r, c.st
        if p.endswith("RangeFrom"):
            a, b = fs[0], n
        elif p.endswith("RangeTo"):
            a, b = ZERO, fs[0]
        elif p.endswith("RangeToInclusive"):
            a, b = ZERO, iadd(fs[0], ONE)
        elif p.endswith("RangeInclusive"):
            a, b = fs[0], iadd(fs[1], ONE)
        elif p.endswith("Range"):
            a, b = fs[0], fs[1]
        else:
            return None
        c.I.obligation("bounds", c.st, band(ile(a, b), ile(b, n)), c.span)
        return sub_ref(c.I, c.st, r, a, b), c.st


@model("[T]::split_at", "[T]::split_at_mut")
def _split_at(c, r, i):
    r = norm_ref(c, r)
    n = c.I.vlen(c.I.load(c.st, r))
    c.I.obligation("bounds", c.st, ile(i, n), c.span)
    return tup(sub_ref(c.I, c.st, r, ZERO, i), sub_ref(c.I, c.st, r, i, n)), c.st


@model("[T]::windows")
def _windows(c, r, n):
    r = norm_ref(c, r)
    ln = c.I.vlen(c.I.load(c.st, r))
    return mkit(ZERO, imax0(iadd(isub(ln, n), ONE)), N("s_windows", None, (r, n))), c.st


@model("[T]::chunks_exact", "[T]::chunks_exact_mut", "ParallelSlice::par_chunks_exact", "ParallelSliceMut::par_chunks_exact_mut")
def _chunks_exact(c, r, n):
    r = norm_ref(c, r)
    ln = c.I.vlen(c.I.load(c.st, r))
    c.I.obligation("chunks(0)", c.st, ile(ONE, n), c.span)
    return mkit(ZERO, idiv(ln, n), N("s_chunks", "exact", (r, n))), c.st


@model("ChunksExact::remainder")
def _remainder(c, r):
    it = c.I.load(c.st, r)
    if isit(it) and it.c[2].k == "s_chunks":
        r, n = it.c[2].c
        ln = c.I.vlen(c.I.load(c.st, r))
        return sub_ref(c.I, c.st, r, imul(idiv(ln, n), n), ln), c.st


@model("[T]::split_first", "[T]::split_last")
def _split_first(c, r):
    r = norm_ref(c, r)
    n = c.I.vlen(c.I.load(c.st, r))
    if c.name.endswith("first"):
        v = tup(elref(c.I, c.st, r, ZERO), sub_ref(c.I, c.st, r, ONE, n))
    else:
        v = tup(elref(c.I, c.st, r, isub(n, ONE)), sub_ref(c.I, c.st, r, ZERO, isub(n, ONE)))
    return option(ilt(ZERO, n), v), c.st


@model("ParallelSlice::as_parallel_slice", "ParallelSliceMut::as_parallel_slice_mut")
def _as_parallel_slice(c, r):
    return r, c.st


@model("[T]::chunks", "[T]::par_chunks", "ParallelSlice::par_chunks", "[T]::chunks_mut", "ParallelSliceMut::par_chunks_mut")
def _chunks(c, r, n):
    r = norm_ref(c, r)
    ln = c.I.vlen(c.I.load(c.st, r))
    c.I.obligation("chunks(0)", c.st, ile(ONE, n), c.span)
    return mkit(ZERO, idiv(iadd(ln, n, I(-1)), n), N("s_chunks", None, (r, n))), c.st


# ---- sorting
@model("[T]::sort_unstable_by", "[T]::sort_by", "[T]::sort_unstable_by_key", "[T]::sort_by_key", "[T]::par_sort_unstable_by", "[T]::par_sort_by", "[T]::sort_by_cached_key")
def _sort(c, r, f):
    r = norm_ref(c, r)
    v = c.I.load(c.st, r)
    if isinstance(v, N) and v.k == "arr":
        v = arr2lam(v) if v.c else v
    if not isinstance(v, Lam):
        return None
    inside = c.I.facts + conj(c.st.pc) + [ile(ZERO, v.bv[0]), ilt(v.bv[0], v.n[0])]
    v = Lam(v.n, v.bv, vmap(v.body, lambda t: simp(t, inside)))
    xs = _symlike(v.body, "x")
    ys = _symlike(v.body, "y")
    s2 = c.st.copy()
    rec = c.I.record
    c.I.record = False
    try:
        if c.name.endswith("_key"):
            k1, s2 = c.I.call_value(s2, f, [c.I.newref(s2, xs)])
            k2, s2 = c.I.call_value(s2, f, [c.I.newref(s2, ys)])
            if not (isinstance(k1, T) and isinstance(k2, T) and k1.knd == "int"):
                return None
            d = ite(ilt(k1, k2), ZERO, ite(ieq(k1, k2), ONE, I(2)))
        else:
            o, s2 = c.I.call_value(s2, f, [c.I.newref(s2, xs), c.I.newref(s2, ys)])
            if not isinstance(o, Adt):
                return None
            d = o.d
    finally:
        c.I.record = rec
    bl_x, bl_y = vleaves(xs), vleaves(ys)
    key = ("sort", vkey(v), vkey(canon_cmp(d, bl_x, bl_y)))
    params = sorted({x for t in vleaves(v) for x in t.fv if x not in v.bv} | {x for t in v.n for x in t.fv}, key=lambda t: t.id)
    sid = REG.get(key, lambda: ("sort", v, (d, bl_x, bl_y), tuple(params), key))
    bv = fresh("i", "int", 0)
    cnt = [0]

    def leaf(t):
        cnt[0] += 1
        return mk("app", t.knd, "srt", sid, cnt[0] - 1, bv, *params)
    c.I.store(c.st, r, Lam(v.n, [bv], vmap(v.body, leaf)))
    return UNIT, c.st


@model("[T]::binary_search_by", "[T]::binary_search_by_key", "[T]::partition_point")
def _bsearch(c, r, *a):
    """position found by bisection: kept as the comparison and the sequence, evaluated by the algorithm of core"""
    r = norm_ref(c, r)
    v = c.I.load(c.st, r)
    if isinstance(v, N) and v.k == "arr":
        v = arr2lam(v) if v.c else v
    if not isinstance(v, Lam) or has_top(v):
        return None
    xs = _symlike(v.body, "x")
    s2 = c.st.copy()
    rec = c.I.record
    c.I.record = False
    try:
        o, s2 = c.I.call_value(s2, a[-1], [c.I.newref(s2, xs)])
    finally:
        c.I.record = rec
    if c.name.endswith("partition_point"):
        if not isinstance(o, T):
            return None
        d = ite(o, ZERO, I(2))
    elif c.name.endswith("_key"):
        q = c.I.load(c.st, a[0]) if isinstance(a[0], N) else a[0]
        if not (isinstance(o, T) and o.knd == "int" and isinstance(q, T)):
            return None
        d = ite(ilt(o, q), ZERO, ite(ieq(o, q), ONE, I(2)))
    elif isinstance(o, Adt):
        d = o.d
    else:
        return None
    leaves = vleaves(xs)
    canon = canon_cmp(d, leaves, [])
    key = ("bsearch", vkey(v), vkey(canon))
    params = sorted({x for t in vleaves(v) for x in t.fv if x not in v.bv} | {x for t in v.n for x in t.fv} | {x for x in canon.fv if not x.a[0].endswith("'")}, key=lambda t: t.id)
    rid = REG.get(key, lambda: ("bsearch", v, (d, leaves), tuple(params), key))
    err = mk("app", "int", "fel", rid, 1, ZERO, *params)
    at = mk("app", "int", "fel", rid, 2, ZERO, *params)
    if c.name.endswith("partition_point"):
        return at, c.st
    return Adt(c.destty, "core::result::Result", err, {0: (at,), 1: (at,)}), c.st


@model("Vec::dedup_by", "Vec::dedup_by_key")
def _dedup(c, r, f):
    """runs of elements that count as the same are merged into their first one, which the closure may change"""
    r = norm_ref(c, r)
    v = c.I.load(c.st, r)
    if isinstance(v, N) and v.k == "arr":
        v = arr2lam(v) if v.c else v
    if not isinstance(v, Lam) or has_top(v):
        return None
    cur, prev = _symlike(v.body, "x"), _symlike(v.body, "y")
    s2 = c.st.copy()
    rec = c.I.record
    c.I.record = False
    try:
        rc, rp = c.I.newref(s2, cur), c.I.newref(s2, prev)
        if c.name.endswith("_key"):
            k1, s2 = c.I.call_value(s2, f, [rc])
            k2, s2 = c.I.call_value(s2, f, [rp])
            if not (isinstance(k1, T) and isinstance(k2, T) and k1.knd == k2.knd and k1.knd in ("int", "float")):
                return None
            same = ieq(k1, k2) if k1.knd == "int" else mk("feq", k1, k2)
        else:
            same, s2 = c.I.call_value(s2, f, [rc, rp])
            if not isinstance(same, T):
                return None
        a, b = vleaves(c.I.load(s2, rc)), vleaves(c.I.load(s2, rp))
    finally:
        c.I.record = rec
    xs, ys = vleaves(cur), vleaves(prev)
    if len(a) != len(xs) or len(b) != len(ys) or any(has_top(t) for t in [same] + a + b):
        return None
    canon = tuple(canon_cmp(t, xs, ys) for t in [same] + a + b)
    key = ("dedup", vkey(v), tuple(t.id for t in canon))
    params = sorted({x for t in vleaves(v) for x in t.fv if x not in v.bv} | {x for t in v.n for x in t.fv} | {x for t in canon for x in t.fv if not x.a[0].endswith("'")}, key=lambda t: t.id)
    rid = REG.get(key, lambda: ("dedup", v, (same, a, b, xs, ys), tuple(params), key))
    bv = fresh("i", "int", 0)
    cnt = [0]

    def leaf(t):
        cnt[0] += 1
        return mk("app", t.knd, "fel", rid, cnt[0], bv, *params)
    n = mk("app", "int", "flen", rid, 0, ZERO, *params)
    c.I.store(c.st, r, Lam([n], [bv], vmap(v.body, leaf)))
    return UNIT, c.st


def canon_cmp(d, xs, ys):
    m = {}
    for i, x in enumerate(xs):
        m[x] = mk("var", "sx%d'" % i, x.knd, None, None)
    for i, x in enumerate(ys):
        m[x] = mk("var", "sy%d'" % i, x.knd, None, None)
    return subst(d, m)


def _symlike(v, nm):
    return vmap(v, lambda t: fresh("srt" + nm, t.knd))


# ---- nalgebra
@model("Matrix::zeros", "MatrixBase::zeros")
def _zeros(c, *a):
    if len(a) == 2:
        _alloc_check(c, a)
        return Lam(list(a), [fresh("i", "int", 0), fresh("j", "int", 0)], F(0.0)), c.st
    if len(a) == 1:
        return Lam(list(a), [fresh("i", "int", 0)], F(0.0)), c.st


def _alloc_check(c, a):
    """nrows*ncols is computed unchecked inside nalgebra"""
    c.I.obligation("alloc-size-wraps", c.st, ile(imul(a[0], a[1]), I((1 << 64) - 1)), c.span)


@model("Matrix::identity")
def _identity(c, *a):
    if len(a) == 2:
        _alloc_check(c, a)
        i, j = fresh("i", "int", 0), fresh("j", "int", 0)
        return Lam(list(a), [i, j], ite(ieq(i, j), F(1.0), F(0.0))), c.st


@model("Matrix::from_element", "Matrix::repeat")
def _from_element(c, *a):
    if len(a) == 3:
        _alloc_check(c, a)
        return Lam(list(a[:2]), [fresh("i", "int", 0), fresh("j", "int", 0)], a[2]), c.st
    if len(a) == 2:
        return Lam([a[0]], [fresh("i", "int", 0)], a[1]), c.st


def dims(a, k):
    """the first k arguments as integers: a dimension is a number or Dyn(number)"""
    out = []
    for x in a[:k]:
        if isinstance(x, Adt) and 0 in x.vs and len(x.vs[0]) == 1 and isinstance(x.vs[0][0], T):
            x = x.vs[0][0]
        if not (isinstance(x, T) and x.knd == "int"):
            return None
        out.append(x)
    return out + list(a[k:])


@model("Matrix::zeros_generic")
def _zeros_generic(c, *a):
    a = dims(a, 2)
    return _zeros(c, *a) if a is not None else None


@model("Matrix::from_element_generic", "Matrix::repeat_generic")
def _from_element_generic(c, *a):
    a = dims(a, 2)
    return _from_element(c, *a) if a is not None else None


@model("Matrix::from_fn_generic")
def _from_fn_generic(c, *a):
    a = dims(a, 2)
    return _from_fn(c, *a) if a is not None else None


@model("Matrix::from_fn")
def _from_fn(c, *a):
    if len(a) == 3:
        _alloc_check(c, a)
        i, j = fresh("i", "int", 0), fresh("j", "int", 0)
        s = c.st.copy()
        s.pc = band(s.pc, ilt(i, a[0]), ilt(j, a[1]))
        v, s2 = c.I.call_value(s, a[2], [i, j])
        return Lam(list(a[:2]), [i, j], vmap(v, lambda t: c.I.simp(s, t))), c.st
    if len(a) == 2:
        i = fresh("i", "int", 0)
        s = c.st.copy()
        s.pc = band(s.pc, ilt(i, a[0]))
        v, s2 = c.I.call_value(s, a[1], [i, ZERO])
        return Lam([a[0]], [i], v), c.st


@model("Matrix::norm", "Matrix::norm_squared", "Matrix::trace", "Matrix::sum")
def _mnorm(c, m):
    m = c.I.load(c.st, norm_ref(c, m)) if isinstance(m, N) else m
    if not (isinstance(m, Lam) and isinstance(m.body, T) and m.body.knd == "float"):
        return None
    nm = c.name.split("::")[-1]
    if nm == "trace":
        if len(m.n) != 2:
            return None
        k = fresh("q", "int", 0)
        return sumt(k, m.n[0], m.at([k, k]), F(0.0)), c.st
    ks = [fresh("q", "int", 0) for _ in m.n]
    t = m.at(ks)
    if nm != "sum":
        t = mk("fmul", t, t)
    for k, n in zip(reversed(ks), reversed(m.n)):
        t = sumt(k, n, t, F(0.0))
    return (mk("app", "float", "sqrt", t) if nm == "norm" else t), c.st


@model("Matrix::scale", "Matrix::unscale", "Matrix::map", "Matrix::transpose", "Matrix::abs")
def _mscale(c, m, *a):
    m = c.I.load(c.st, norm_ref(c, m)) if isinstance(m, N) else m
    nm = c.name.split("::")[-1]
    if not (isinstance(m, Lam) and isinstance(m.body, T) and m.body.knd == "float"):
        return None
    if nm == "transpose":
        return (Lam(list(reversed(m.n)), list(reversed(m.bv)), m.body), c.st) if len(m.n) == 2 else None
    if nm == "map":
        s = c.st.copy()
        s.pc = band(s.pc, *[ilt(b, n) for b, n in zip(m.bv, m.n)])
        v, s2 = c.I.call_value(s, a[0], [m.body])
        return Lam(m.n, m.bv, v), c.st
    if nm == "abs":
        return Lam(m.n, m.bv, mk("app", "float", "fabs", m.body)), c.st
    return Lam(m.n, m.bv, mk("fmul" if nm == "scale" else "fdiv", m.body, a[0])), c.st


@model("Matrix::scale_mut", "Matrix::unscale_mut")
def _mscale_mut(c, r, x):
    r = norm_ref(c, r)
    m = c.I.load(c.st, r)
    if not (isinstance(m, Lam) and isinstance(m.body, T) and m.body.knd == "float"):
        return None
    c.I.store(c.st, r, Lam(m.n, m.bv, mk("fmul" if c.name.endswith("::scale_mut") else "fdiv", m.body, x)))
    return UNIT, c.st


@model("Matrix::symmetric_eigen", "SymmetricEigen::new")
def _eig(c, m):
    if not (isinstance(m, Lam) and len(m.n) == 2):
        return None
    c.I.eigs = getattr(c.I, "eigs", [])
    params = sorted({x for t in vleaves(m) for x in t.fv if x not in m.bv} | {x for t in m.n for x in t.fv}, key=lambda t: t.id)
    key = ("eig", vkey(m))
    facts = tuple(c.I.fset(c.st))
    rid = REG.get(key, lambda: ("eig", m, facts, tuple(params), key))
    b = fresh("i", "int", 0)
    i, j = fresh("i", "int", 0), fresh("j", "int", 0)
    vals = Lam([m.n[0]], [b], mk("app", "float", "eigval", rid, 0, b, *params))
    vecs = Lam([m.n[0], m.n[0]], [i, j], mk("app", "float", "eigvec", rid, i, j, *params))
    t = c.ty(c.destty)
    fs = [f["name"] for f in t["variants"][0]["fields"]]
    return Adt(c.destty, t["path"], ZERO, {0: tuple(vals if n == "eigenvalues" else vecs for n in fs)}), c.st


@model("SymmetricEigen::try_new", "Matrix::try_symmetric_eigen")
def _try_eig(c, m, eps, most):
    """the iteration has no bound (0) and stops at rounding level: the same as symmetric_eigen"""
    if not (isinstance(eps, T) and eps.op == "f" and 0.0 <= fconst(eps) <= 1e-13 and most is ZERO):
        return None
    t = c.ty(c.destty)
    ty = t["args"][0]
    saved, c.destty = c.destty, ty
    try:
        r = _eig(c, m)
    finally:
        c.destty = saved
    if r is None:
        return None
    return Adt(saved, t["path"], ONE, {0: (), 1: (r[0],)}), r[1]


@model("Matrix::row", "Matrix::column")
def _row(c, r, i):
    v = deepseq(c, r)
    if isinstance(v, Lam) and len(v.n) == 2:
        row = c.name.endswith("row")
        c.I.obligation("bounds", c.st, ilt(i, v.n[0 if row else 1]), c.span)
        b = fresh("i", "int", 0)
        return Lam([v.n[1 if row else 0]], [b], v.at([i, b] if row else [b, i])), c.st


@model("Matrix::as_slice")
def _mslice(c, r):
    v = deepseq(c, r)
    if isinstance(v, Lam) and len(v.n) == 1:
        return r, c.st


# ------------------------------------------------------------------ iterators
@model("IntoIterator::into_iter", "IntoParallelIterator::into_par_iter", "Iterator::by_ref", "ParallelBridge::par_bridge",
       "IndexedParallelIterator::with_min_len", "IndexedParallelIterator::with_max_len", "Iterator::fuse", "Iterator::into_iter", "Box::into_iter", "Vec::into_iter", "IntoIter::into_iter", "Range::into_par_iter")
def _into_iter(c, v, *rest):
    if c.name == "Iterator::by_ref":
        return v, c.st
    if isinstance(v, N) and v.k == "ref":
        inner = c.I.load(c.st, v)
        if isit(inner) or (isinstance(inner, Adt) and iter_fn(c.I, inner, "next")):
            return v, c.st      # &mut I is itself an iterator over the original
    if isinstance(v, Adt) and iter_fn(c.I, v, "next"):
        return v, c.st
    it, st = as_it(c.I, c.st, norm_ref(c, v))
    return (it, st) if it is not None else None


def need_it(c, v):
    """iterator value for a consuming adaptor; &mut I is drained in place"""
    if isinstance(v, N) and v.k == "ref":
        inner = c.I.load(c.st, v)
        if isit(inner):
            lo, hi, src = inner.c
            c.I.store(c.st, v, mkit(hi, hi, src))
            return inner
    it, st = as_it(c.I, c.st, v)
    c.st = st
    return it


UNFILTERED = {"enumerate", "skip", "take", "step_by", "zip", "count", "skip_while", "take_while", "any", "all", "position", "find"}


def adaptor(*names):
    def deco(f):
        def g(c, v, *a):
            c.origin = v
            it = need_it(c, v)
            if it is None or not isit(it):
                return None
            if isfiltered(it.c[2]) and c.name.split("::")[-1] in UNFILTERED - {"count"}:
                return None
            return f(c, it, *a)
        for n in names:
            for p in ("Iterator", "ParallelIterator", "IndexedParallelIterator", "DoubleEndedIterator"):
                TABLE[p + "::" + n] = g
        return f
    return deco


@adaptor("map")
def _map(c, it, f):
    lo, hi, src = it.c
    fr = f if isinstance(f, N) and f.k in ("ref", "fn") else c.I.newref(c.st, f)
    return mkit(lo, hi, N("s_map", None, (src, fr))), c.st


@adaptor("filter")
def _filter(c, it, f):
    lo, hi, src = it.c
    fr = f if isinstance(f, N) and f.k in ("ref", "fn") else c.I.newref(c.st, f)
    return mkit(lo, hi, N("s_filter", "ref", (src, fr))), c.st


@adaptor("filter_map")
def _filter_map(c, it, f):
    lo, hi, src = it.c
    fr = f if isinstance(f, N) and f.k in ("ref", "fn") else c.I.newref(c.st, f)
    return mkit(lo, hi, N("s_filter", "map", (src, fr))), c.st


@adaptor("take_while")
def _take_while(c, it, f):
    lo, hi, src = it.c
    m = prefix(c.I, c.st, it, f, False)
    return None if m is None else (mkit(lo, c.I.simp(c.st, iadd(lo, m)), src), c.st)


@adaptor("skip_while")
def _skip_while(c, it, f):
    lo, hi, src = it.c
    m = prefix(c.I, c.st, it, f, False)
    return None if m is None else (mkit(c.I.simp(c.st, iadd(lo, m)), hi, src), c.st)


@adaptor("inspect")
def _inspect(c, it, f):
    return it, c.st


@adaptor("rev")
def _rev(c, it):
    lo, hi, src = it.c
    return mkit(ZERO, isub(hi, lo), N("s_rev", None, (src, isub(hi, ONE)))), c.st


@adaptor("enumerate")
def _enum(c, it):
    lo, hi, src = it.c
    return mkit(lo, hi, N("s_enum", None, (src, lo))), c.st


@adaptor("skip")
def _skip(c, it, n):
    lo, hi, src = it.c
    if mapped(src):
        c.I.cost("skip over a mapped iterator", n, c.st)
    return mkit(c.I.simp(c.st, imin(iadd(lo, n), hi)), hi, src), c.st


@adaptor("take")
def _take(c, it, n):
    lo, hi, src = it.c
    return mkit(lo, c.I.simp(c.st, imin(iadd(lo, n), hi)), src), c.st


def _skip_local(c, v, n):
    """Skip over a crate iterator uses its own nth()"""
    if isinstance(v, Adt):
        nth = iter_fn(c.I, v, "nth")
        if nth is not None and isinstance(n, T):
            if c.I.ent(c.st, ieq(n, ZERO)):
                return as_it(c.I, c.st, v)
            if c.I.ent(c.st, ile(ONE, n)):
                cell = c.I.alloc(c.st, v)
                r, st = c.I.run(nth, [c.I.ref(cell), isub(n, ONE)], c.st.copy())
                if st is None:
                    return None
                rest = st.cells[cell]
                it, st = as_it(c.I, st, rest)
                if it is None:
                    return None
                lo, hi, src = it.c
                return mkit(lo, c.I.simp(st, hi), src), st
    return _g_skip(c, v, n)


_g_skip = TABLE["Iterator::skip"]
TABLE["Iterator::skip"] = _skip_local


@adaptor("step_by")
def _step(c, it, n):
    lo, hi, src = it.c
    ln = isub(hi, lo)
    c.I.obligation("step_by(0)", c.st, bnot(ieq(n, ZERO)), c.span)
    return mkit(ZERO, idiv(iadd(ln, n, I(-1)), n), N("s_step", None, (src, lo, n))), c.st


@adaptor("copied", "cloned")
def _copied(c, it):
    lo, hi, src = it.c
    return mkit(lo, hi, N("s_copied", None, (src,))), c.st


@adaptor("zip")
def _zip(c, it, o):
    ot = need_it(c, o) if not (isinstance(o, N) and o.k == "ref" and not isit(c.I.load(c.st, o))) else as_it(c.I, c.st, norm_ref(c, o))[0]
    if ot is None or not isit(ot) or isfiltered(ot.c[2]):
        return None
    l1, h1, s1 = it.c
    l2, h2, s2 = ot.c
    n = c.I.simp(c.st, imin(isub(h1, l1), isub(h2, l2)))
    return mkit(ZERO, n, N("s_zip", None, (s1, l1, s2, l2))), c.st


@adaptor("chain")
def _chain(c, it, o):
    ot, st = as_it(c.I, c.st, norm_ref(c, o))
    if ot is None or not isit(ot) or isfiltered(ot.c[2]) or isfiltered(it.c[2]):
        return None
    l1, h1, s1 = it.c
    l2, h2, s2 = ot.c
    n1 = isub(h1, l1)
    return mkit(ZERO, iadd(n1, isub(h2, l2)), N("s_chain", None, (s1, l1, n1, s2, l2))), c.st


@adaptor("sum", "product")
def _sum(c, it):
    t = c.ty(c.destty) if c.destty is not None else {"k": "float"}
    prod = c.name.endswith("product")
    if t["k"] == "float" and t.get("bits") == 64:
        init = F(1.0) if prod else F(-0.0)
    elif t["k"] == "int":
        init = ONE if prod else ZERO
    else:
        return None
    cell = c.I.alloc(c.st, init)

    def step(s, k, v):
        v = c.I.deep(s, v)
        if not isinstance(v, T):
            v = top(init.knd)
        a = s.cells[cell]
        if init.knd == "float":
            s.cells[cell] = mk("fmul" if prod else "fadd", a, v)
        else:
            s.cells[cell] = (imul if prod else iadd)(a, v)
        return s
    st = consume(c.I, c.st, it, step)
    if st is None:
        return None, None
    return st.cells.pop(cell), st


def par_fold_name(c):
    return c.f["path"].startswith("rayon")


@adaptor("fold", "rfold")
def _fold(c, it, init, f):
    if par_fold_name(c):
        # rayon: one partial accumulator per job; the identity must be neutral for the later reduction
        init, st = c.I.call_value(c.st, init, [])
        c.st = st
    if c.name.endswith("rfold"):
        lo, hi, src = it.c
        it = mkit(ZERO, isub(hi, lo), N("s_rev", None, (src, isub(hi, ONE))))
    cell = c.I.alloc(c.st, init)
    fr = f if isinstance(f, N) and f.k in ("ref", "fn") else c.I.newref(c.st, f)

    def step(s, k, v):
        r, s2 = c.I.call_value(s, fr, [s.cells[cell], v])
        if s2 is None:
            return None
        s2.cells[cell] = r
        return s2
    st = consume(c.I, c.st, it, step)
    if st is None:
        return None, None
    r = st.cells.pop(cell)
    if par_fold_name(c):
        return mkit(ZERO, ONE, N("s_owned", None, (N("arr", None, (r,)),))), st
    return r, st


@adaptor("reduce")
def _reduce(c, it, *a):
    if not par_fold_name(c):
        fr = a[0] if isinstance(a[0], N) and a[0].k in ("ref", "fn", "py") else c.I.newref(c.st, a[0])
        acc = []

        def visit(j, x):
            if acc:
                x, st = c.I.call_value(c.st, fr, [acc[0], x])
                if st is None:
                    return "?"
                c.st = st
                acc.clear()
            acc.append(x)
        st0 = c.st
        r = stepwise(c, it, visit)
        if r is None or r[0] is not None:
            c.st = st0
            return None
        return (some(acc[0], c.destty) if acc else none(c.destty)), c.st
    if par_fold_name(c):
        idf, op = a
        init, st = c.I.call_value(c.st, idf, [])
        c.st = st
        fr = op if isinstance(op, N) and op.k in ("ref", "fn") else c.I.newref(c.st, op)
        # neutrality of the identity: op(id, x) must be x
        if isinstance(init, T) and init.knd == "float":
            x = fresh("x", "float")
            rec, c.I.record = c.I.record, False
            try:
                y, _ = c.I.call_value(c.st.copy(), fr, [init, x])
            finally:
                c.I.record = rec
            if not (isinstance(y, T) and y.op == "fadd" and set(y.a) == {init, x} and fconst(init) == 0.0):
                init = mk("app", "float", "sched", init, subst(y, {x: mk("var", "x'", "float", None, None)}) if isinstance(y, T) else top("float"))
        cell = c.I.alloc(c.st, init)

        def step(s, k, v):
            r, s2 = c.I.call_value(s, fr, [s.cells[cell], v])
            if s2 is None:
                return None
            s2.cells[cell] = r
            return s2
        st = consume(c.I, c.st, it, step)
        return (None, None) if st is None else (st.cells.pop(cell), st)
    return None


@adaptor("for_each")
def _foreach(c, it, f):
    fr = f if isinstance(f, N) and f.k in ("ref", "fn") else c.I.newref(c.st, f)

    def step(s, k, v):
        r, s2 = c.I.call_value(s, fr, [v])
        return s2
    st = consume(c.I, c.st, it, step)
    return (None, None) if st is None else (UNIT, st)


def sizeof(p, ty):
    """lower bound on the size of a type in bytes"""
    t = p.types[ty]
    k = t["k"]
    if k == "int" or k == "float":
        return max(1, t.get("bits", 64) // 8)
    if k == "tuple":
        return sum(sizeof(p, a) for a in t["args"])
    if k in ("ref", "ptr"):
        return 8
    if k == "adt" and t.get("ak") == "struct" and t.get("variants"):
        return sum(sizeof(p, f["ty"]) for f in t["variants"][0]["fields"])
    return 0


def elem_size(c, ty):
    t = c.ty(ty)
    if t["k"] == "adt" and t.get("args"):
        t2 = c.ty(t["args"][0])
        if t["path"].endswith("vec::Vec"):
            return sizeof(c.I.p, t["args"][0])
        if t["path"].endswith("boxed::Box") and t2["k"] == "slice":
            return sizeof(c.I.p, t2["ty"])
    return 0


def capacity(c, st, n, ty):
    """an exact-size collection allocates first: the elements are only produced when the request
    does not exceed isize::MAX bytes (a larger one is refused by the allocator interface)"""
    z = elem_size(c, ty) if ty is not None else 0
    if z and n.op != "i":
        st = st.copy()
        st.pc = band(st.pc, ile(iscale(n, z), I((1 << 63) - 1)))
    return st


def collect_lam(c, it):
    lo, hi, src = it.c
    filt = isfiltered(src)
    n = c.I.simp(c.st, isub(hi, lo))
    pc0 = c.st.pc
    if not filt:
        c.st = capacity(c, c.st, n, c.destty)
    cap = {}

    def step(s, k, v):
        cap["g"] = c.I.kept
        cap["v"], cap["k"] = vmap(v, lambda t: c.I.simp(s, t)), k
        return s
    st = consume(c.I, c.st, it, step)
    if st is None:
        return None, None
    st.pc = pc0
    if n is ZERO or "v" not in cap:
        return N("arr", None, ()), st
    bv = fresh("i", "int", 0)
    l = Lam([n], [bv], vsubst(cap["v"], {cap["k"]: bv}))
    if filt and cap["g"] is not TRUE:
        return filtered(c, l, subst(cap["g"], {cap["k"]: bv})), st
    return l, st


def filtered(c, l, keep):
    """the elements of a sequence that satisfy a condition, in their order"""
    bv = l.bv[0]
    if entails(c.I.facts + conj(c.st.pc) + [ile(ZERO, bv), ilt(bv, l.n[0])], keep):
        return l
    if has_top(l) or has_top(keep):
        raise Limit("collects a filtered iterator")
    whole = Lam(l.n, l.bv, tup(keep, l.body))
    params = sorted({x for t in vleaves(whole.body) for x in t.fv if x is not bv} | {x for t in l.n for x in t.fv}, key=lambda t: t.id)
    key = ("filter", vkey(whole))
    rid = REG.get(key, lambda: ("filter", whole, None, tuple(params), key))
    b = fresh("i", "int", 0)
    cnt = [0]

    def leaf(t):
        cnt[0] += 1
        return mk("app", t.knd, "fel", rid, cnt[0], b, *params)
    n = mk("app", "int", "flen", rid, 0, ZERO, *params)
    return Lam([n], [b], vmap(l.body, leaf))


@model("Vec::retain", "Vec::retain_mut")
def _retain(c, r, f):
    r = norm_ref(c, r)
    v = c.I.load(c.st, r)
    if isinstance(v, N) and v.k == "arr":
        if not v.c:
            return UNIT, c.st
        v = arr2lam(v)
    if not isinstance(v, Lam) or c.name.endswith("_mut"):
        return None
    src = mkit(ZERO, v.n[0], N("s_owned", None, (v,)))
    fr = f if isinstance(f, N) and f.k in ("ref", "fn") else c.I.newref(c.st, f)
    l, st = collect_lam(c, mkit(ZERO, v.n[0], N("s_filter", "ref", (src.c[2], fr))))
    if st is None:
        return None, None
    c.I.store(st, r, l)
    return UNIT, st


@adaptor("collect")
def _collect(c, it):
    t = c.ty(c.destty)
    l, st = collect_lam(c, it)
    if st is None:
        return None, None
    if t["k"] == "adt" and t["path"].endswith("boxed::Box"):
        return N("box", c.I.alloc(st, l), ()), st
    if t["k"] == "adt" and t["path"].endswith("vec::Vec"):
        return l, st
    return None


@model("Vec::extend", "Extend::extend")
def _extend(c, r, o):
    it, st = as_it(c.I, c.st, norm_ref(c, o))
    if it is None or not isit(it):
        return None
    c.st = st
    l, st = collect_lam(c, it)
    if st is None:
        return None, None
    cur = c.I.load(st, r)
    if isinstance(cur, N) and cur.k == "arr" and not cur.c:
        c.I.store(st, r, l)
        return UNIT, st
    if isinstance(l, N) and l.k == "arr" and not l.c:
        return UNIT, st
    if isinstance(cur, N) and cur.k == "arr":
        cur = arr2lam(cur)
    if isinstance(cur, Lam) and isinstance(l, Lam):
        b = cur.bv[0]
        c.I.store(st, r, Lam([iadd(cur.n[0], l.n[0])], [b], vite(ilt(b, cur.n[0]), cur.body, l.at([isub(b, cur.n[0])]))))
        return UNIT, st


@model("FromIterator::from_iter", "Box::from_iter", "Vec::from_iter")
def _from_iter(c, o):
    it, st = as_it(c.I, c.st, norm_ref(c, o))
    if it is None or not isit(it):
        return None
    c.st = st
    return _collect(c, it)


@adaptor("unzip")
def _unzip(c, it):
    l, st = collect_lam(c, it)
    if st is None:
        return None, None
    if isinstance(l, Lam) and isinstance(l.body, N) and l.body.k == "tup" and len(l.body.c) == 2:
        return tup(Lam(l.n, l.bv, l.body.c[0]), Lam(l.n, l.bv, l.body.c[1])), st
    return None


@adaptor("count")
def _count(c, it):
    lo, hi, src = it.c
    if isfiltered(src):
        cell = c.I.alloc(c.st, ZERO)

        def step(s, k, v):
            s.cells[cell] = iadd(s.cells[cell], ONE)
            return s
        st = consume(c.I, c.st, it, step)
        return (None, None) if st is None else (st.cells.pop(cell), st)
    return c.I.simp(c.st, isub(hi, lo)), c.st


@model("ExactSizeIterator::len", "IndexedParallelIterator::len", "Iter::len", "IntoIter::len")
def _ilen(c, r):
    v = deepseq(c, r)
    it, st = as_it(c.I, c.st, v)
    if it is not None and isit(it):
        return c.I.simp(c.st, isub(it.c[1], it.c[0])), c.st


@model("Iterator::size_hint")
def _size_hint(c, r):
    v = deepseq(c, r)
    it, st = as_it(c.I, c.st, v)
    if it is not None and isit(it) and not isfiltered(it.c[2]):
        n = c.I.simp(c.st, isub(it.c[1], it.c[0]))
        return tup(n, some(n)), c.st


def _step_it(c, r, pos):
    """next/nth/next_back/nth_back on a native iterator behind a reference"""
    I_, st = c.I, c.st
    while True:
        v = I_.load(st, r)
        if isinstance(v, N) and v.k == "ref":
            r = v
            continue
        break
    if isinstance(v, Adt) and iter_fn(I_, v, "next") is not None and not isit(v):
        return None
    if isinstance(v, Adt):
        v, st = as_it(I_, st, v)
        if v is None:
            return None
        I_.store(st, r, v)
    if not isit(v):
        return None
    lo, hi, src = v.c
    idx, nlo, nhi, ok = pos(lo, hi)
    ok = I_.simp(st, ok)
    end = mkit(hi, hi, src) if nlo is not lo else mkit(lo, lo, src)
    if ok is FALSE:
        s1 = st.copy()
        I_.store(s1, r, end)
        return none(c.destty), s1
    s2 = st.copy()
    if ok is not TRUE:
        s2.pc = band(s2.pc, ok)
    x, s2 = item(I_, s2, src, idx)
    if s2 is None:
        s1 = st.copy()
        s1.pc = band(s1.pc, bnot(ok))
        return none(c.destty), s1
    I_.store(s2, r, mkit(nlo, nhi, src))
    if ok is TRUE:
        return some(x, c.destty), s2
    s1 = st.copy()
    s1.pc = band(s1.pc, bnot(ok))
    I_.store(s1, r, end)
    m = I_.merge([(s2, ok), (s1, bnot(ok))], st.pc)
    m.pc = st.pc
    return option(ok, x, c.destty), m


@model("Iterator::next")
def _next(c, r):
    return _step_it(c, r, lambda lo, hi: (lo, iadd(lo, ONE), hi, ilt(lo, hi)))


@model("DoubleEndedIterator::next_back")
def _next_back(c, r):
    return _step_it(c, r, lambda lo, hi: (isub(hi, ONE), lo, isub(hi, ONE), ilt(lo, hi)))


def mapped(src):
    """stepping over the items of a mapped iterator evaluates them one by one"""
    return isinstance(src, N) and (src.k in ("s_map", "s_filter") or any(mapped(x) for x in src.c if isinstance(x, N) and x.k.startswith("s_")))


def walk_cost(c, r, n):
    v = c.I.deep(c.st, r)
    if isinstance(n, T) and isit(v) and mapped(v.c[2]):
        c.I.cost("nth over a mapped iterator", n, c.st)


@model("Iterator::nth")
def _nth(c, r, n):
    walk_cost(c, r, n)
    return _step_it(c, r, lambda lo, hi: (iadd(lo, n), iadd(lo, n, ONE), hi, ilt(iadd(lo, n), hi)))


@model("DoubleEndedIterator::nth_back")
def _nth_back(c, r, n):
    walk_cost(c, r, n)
    return _step_it(c, r, lambda lo, hi: (isub(isub(hi, ONE), n), lo, isub(isub(hi, ONE), n), ilt(iadd(lo, n), hi)))


@model("Iterator::last")
def _last(c, v):
    it = need_it(c, v)
    if it is None or not isit(it):
        return None
    lo, hi, src = it.c
    x, st = item(c.I, c.st, src, isub(hi, ONE))
    return option(ilt(lo, hi), x, c.destty), st


def stopped(c, it, m):
    """a search stops behind the item it found: what is left when the iterator was searched by reference"""
    r = c.origin
    if isinstance(r, N) and r.k == "ref" and isit(c.I.load(c.st, r)):
        lo, hi, src = it.c
        c.I.store(c.st, r, mkit(c.I.simp(c.st, imin(iadd(lo, m, ONE), hi)), hi, src))


def stepwise(c, it, visit, back=False):
    """items of a window of known length one by one until visit(state, j, item) gives something; (result, position)"""
    lo, hi, src = it.c
    n = iconst(c.I.simp(c.st, isub(hi, lo)))
    if not c.I.unroll or n is None or n > c.I.unroll or isfiltered(src):
        return None
    for j in (reversed(range(n)) if back else range(n)):
        x, st = item(c.I, c.st, src, iadd(lo, I(j)))
        if st is None:
            return None
        c.st = st
        r = visit(j, x)
        if r is not None:
            return r, j
    return None, n


def truth(c, f, args):
    r, st = c.I.call_value(c.st, f, args)
    if st is None:
        return None
    c.st = st
    r = c.I.simp(st, r) if isinstance(r, T) else r
    return True if r is TRUE else False if r is FALSE else None


def searched(c, it, f, neg=False, byref=False, back=False):
    """(position, item) of the first item for which the predicate answers yes, when every answer is known"""
    lo, hi, src = it.c
    if not c.I.unroll or iconst(c.I.simp(c.st, isub(hi, lo))) is None:
        return None
    st0 = c.st
    fr = f if isinstance(f, N) and f.k in ("ref", "fn", "py") else c.I.newref(c.st, f)

    def visit(j, x):
        t = truth(c, fr, [c.I.newref(c.st, x) if byref else x])
        return "?" if t is None else x if t != neg else None
    r = stepwise(c, it, visit, back)
    if r is None or (isinstance(r[0], str) and r[0] == "?"):
        c.st = st0
        return None
    o = c.origin
    if isinstance(o, N) and o.k == "ref" and isit(c.I.load(c.st, o)):
        n = iconst(c.I.simp(c.st, isub(hi, lo)))
        if r[0] is None:
            c.I.store(c.st, o, mkit(hi, hi, src) if not back else mkit(lo, lo, src))
        else:
            c.I.store(c.st, o, mkit(lo, iadd(lo, I(r[1])), src) if back else mkit(iadd(lo, I(r[1] + 1)), hi, src))
    return r


@adaptor("all", "any")
def _allany(c, it, f):
    lo, hi, src = it.c
    anyq = c.name.endswith("any")
    w = searched(c, it, f, neg=not anyq)
    if w is not None:
        return (TRUE if (w[0] is not None) == anyq else FALSE), c.st
    m = prefix(c.I, c.st, it, f, anyq, byref=False)
    if m is None:
        return None
    stopped(c, it, m)
    n = c.I.simp(c.st, isub(hi, lo))
    return (ilt(m, n) if anyq else ile(n, m)), c.st


@adaptor("position")
def _position(c, it, f):
    lo, hi, src = it.c
    w = searched(c, it, f)
    if w is not None:
        return (none(c.destty) if w[0] is None else some(I(w[1]), c.destty)), c.st
    m = prefix(c.I, c.st, it, f, True, byref=False)
    if m is None:
        return None
    stopped(c, it, m)
    return option(ilt(m, isub(hi, lo)), m, c.destty), c.st


@adaptor("rposition", "rfind")
def _rsearch(c, it, f):
    find = c.name.endswith("rfind")
    w = searched(c, it, f, byref=find, back=True)
    if w is None:
        return None
    return (none(c.destty) if w[0] is None else some(w[0] if find else I(w[1]), c.destty)), c.st


@adaptor("find")
def _find(c, it, f):
    lo, hi, src = it.c
    w = searched(c, it, f, byref=True)
    if w is not None:
        return (none(c.destty) if w[0] is None else some(w[0], c.destty)), c.st
    m = prefix(c.I, c.st, it, f, True)
    if m is None:
        return None
    x, st = item(c.I, c.st, src, iadd(lo, m))
    if st is None:
        return None
    stopped(c, it, m)
    return option(ilt(m, isub(hi, lo)), x, c.destty), st


@adaptor("max_by", "min_by")
def _extremum(c, it, f):
    """the item a comparator with known answers selects (the last of equal maxima, the first of equal minima)"""
    lo, hi, src = it.c
    big = c.name.endswith("max_by")
    if not c.I.unroll:
        return None
    fr = f if isinstance(f, N) and f.k in ("ref", "fn", "py") else c.I.newref(c.st, f)
    best = []

    def visit(j, x):
        if not best:
            best.append(x)
            return None
        o, st = c.I.call_value(c.st, fr, [c.I.newref(c.st, best[0]), c.I.newref(c.st, x)])
        k = iconst(o.d) if isinstance(o, Adt) and isinstance(o.d, T) else None
        if st is None or k is None:
            return "?"
        c.st = st
        if (k != 2) if big else (k == 2):
            best[0] = x
    st0 = c.st
    r = stepwise(c, it, visit)
    if r is None or r[0] is not None:
        c.st = st0
        return None
    return (some(best[0], c.destty) if best else none(c.destty)), c.st


@adaptor("is_sorted")
def _issorted(c, it):
    prev, out = [], []

    def visit(j, x):
        x = c.I.deepall(c.st, x)
        if prev:
            out.append(lexless(c, "le", prev[0], x))
            prev.clear()
        prev.append(x)
    r = stepwise(c, it, visit)
    return None if r is None or any(x is None for x in out) else (band(TRUE, *out), c.st)


@model("RangeInclusive::new")
def _rinew(c, a, b):
    return Adt(c.destty, "core::ops::range::RangeInclusive", ZERO, {0: (a, b, FALSE)}), c.st


@model("Range::is_empty", "RangeInclusive::is_empty")
def _rempty(c, r):
    v = c.I.load(c.st, r)
    if isinstance(v, Adt):
        s, e = v.vs[0][:2]
        return (ile(e, s) if c.name.startswith("Range::") else ilt(e, s)), c.st


@model("join::join", "rayon_core::join::join")
def _join(c, a, b):
    x, st = c.I.call_value(c.st, a, [])
    if st is None:
        return None, None
    y, st = c.I.call_value(st, b, [])
    if st is None:
        return None, None
    return tup(x, y), st


# formatting: results irrelevant to the values computed
@model("Formatter::write_str", "Formatter::write_fmt", "Formatter::debug_struct_field1_finish", "Formatter::debug_tuple_field1_finish")
def _fmt(c, *a):
    return TopV("fmt::Result"), c.st


# ------------------------------------------------------------------ formatting
FMT = "$fmt"          # pieces written to the formatter (present when the caller wants them recorded)


def fmt_add(c, piece):
    st = c.st
    cur = st.cells.get(FMT)
    if isinstance(cur, IteV):
        def app(v):
            return vite(v.c, app(v.a), app(v.b)) if isinstance(v, IteV) else N("tup", None, list(v.c) + [piece])
        st.cells[FMT] = app(cur)
    elif isinstance(cur, N):
        st.cells[FMT] = N("tup", None, list(cur.c) + [piece])
    t = c.ty(c.destty) if c.destty is not None else None
    if t is None or t.get("path") != RES:
        return None
    return Adt(c.destty, RES, ZERO, {0: (UNIT,)}), st


def fmt_on(c):
    return FMT in c.st.cells


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp", "Argument::new_upper_exp", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_octal", "Argument::new_binary", "Argument::new_pointer")
def _fmtarg(c, x):
    if not fmt_on(c):
        return None
    return N("fmtarg", c.name.split("::")[-1][4:], (c.I.deep(c.st, x),)), c.st


@model("Arguments::new")
def _fmtargs(c, tpl, args):
    if not fmt_on(c):
        return None
    tpl, args = c.I.deep(c.st, tpl), c.I.deep(c.st, args)
    if not (isinstance(tpl, N) and tpl.k == "arr" and isinstance(args, N) and args.k == "arr"):
        return None
    return N("fmtargs", None, (tpl, args)), c.st


@model("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def _fmtlit(c, x):
    if not fmt_on(c):
        return None
    x = c.I.deep(c.st, x)
    if isinstance(x, N) and x.k == "arr" and len(x.c) == 1:
        x = c.I.deep(c.st, x.c[0])
    if not (isinstance(x, N) and x.k == "str"):
        return None
    return N("fmtlit", x.s, ()), c.st


@model("Formatter::write_str", "Write::write_str", "Formatter::pad")
def _fmtwrite(c, f, x):
    if not fmt_on(c):
        return None
    x = c.I.deep(c.st, x)
    if isinstance(x, N) and x.k == "str":
        return fmt_add(c, N("lit", x.s, ()))
    return None


@model("Formatter::write_fmt", "Write::write_fmt")
def _fmtwritefmt(c, f, a):
    if not fmt_on(c):
        return None
    if isinstance(a, N) and a.k == "fmtlit":
        return fmt_add(c, N("lit", a.s, ()))
    if not (isinstance(a, N) and a.k == "fmtargs"):
        return None
    ps = decode_template([iconst(x) for x in a.c[0].c], a.c[1].c)
    r = None
    for p in ps:
        r = fmt_add(c, p)
        if r is None:
            return None
    return r


def decode_template(bs, args):
    """pieces of a compiled format string (core::fmt::Arguments): literals and ('arg', kind, options) of a value"""
    out, i, nxt = [], 0, 0
    while i < len(bs) and bs[i] != 0:
        b = bs[i]
        i += 1
        if b < 0x80:
            out.append(N("lit", bytes(bs[i:i + b]).decode("utf8", "replace"), ()))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            out.append(N("lit", bytes(bs[i + 2:i + 2 + n]).decode("utf8", "replace"), ()))
            i += 2 + n
        else:
            o = []
            for bit, nm, w in ((1, "flags", 4), (2, "width", 2), (4, "precision", 2), (8, "index", 2)):
                if b & bit:
                    o.append((nm, int.from_bytes(bytes(bs[i:i + w]), "little")))
                    i += w
            if b & 0x30:
                o.append(("indirect", b & 0x30))
            d = dict(o)
            k = d.pop("index", nxt)
            nxt = k + 1
            a = args[k] if k < len(args) else None
            if not (isinstance(a, N) and a.k == "fmtarg"):
                out.append(N("piece", "unknown", ()))
            else:
                out.append(N("piece", (a.s, tuple(sorted(d.items()))), a.c))
    return out


@model("Display::fmt", "LowerExp::fmt", "UpperExp::fmt", "Debug::fmt", "LowerHex::fmt", "UpperHex::fmt")
def _fmtdirect(c, x, f):
    if not fmt_on(c):
        return None
    k = {"Display": "display", "LowerExp": "lower_exp", "UpperExp": "upper_exp", "Debug": "debug"}.get(c.name.split("::")[0], c.name)
    return fmt_add(c, N("piece", (k, ("inherit",)), (c.I.deep(c.st, x),)))
