"""P21: serialization traits exist for every type, write every field and read each back from its own entry.

Derived and handwritten impls are abstracted alike: a symbolic value is pushed through `serialize` into an abstract data
model (structures with named entries, sequences, newtypes, plain values), which is handed to `deserialize` in every way a
format may present it (entries by name in any order, or as a sequence); what comes out must be what went in."""
import itertools
from .api import *
from .interp import Limit
from .decide import flatten, texact, refute
from .linear import entails
from .features import feats
from .views import deep_deref
from .models import RES, OPT, some, none, unknown, Ctx, short
from .val import UNIT
from .evalt import Undecided

SER = "serde_core::ser::Serialize"
DE = "serde_core::de::Deserialize"
TYPES = RULES + (PARAM,) if isinstance(RULES, tuple) else list(RULES) + [PARAM]


def res_ok(v, ty=None):
    return Adt(ty, RES, ZERO, {0: (v,), 1: (TopV("no error"),)})


def res_err(ty=None, why="error"):
    return Adt(ty, RES, ONE, {0: (TopV("no value"),), 1: (TopV(why),)})


def data(kind, *c):
    return N("data", kind, tuple(c))


def base(t):
    """the type without lifetimes"""
    import re
    return re.sub(r"'[a-z_]+,? ?", "", t).replace("<>", "")


class Hook:
    """the abstract serializer, deserializer and archive"""

    def __init__(self, api, mode="map", perm=None):
        self.api, self.p = api, api.p
        self.mode, self.perm = mode, perm
        self.by = {}
        self.notes = []
        for f in api.p.fns:
            if f.get("inst") is None or not f.get("impl_trait"):
                continue
            if f["impl_trait"] == "rkyv::traits::Deserialize":
                t = api.p.types[f["inputs"][0]]
                self.by.setdefault(("rkyv-de", base(api.p.ts(t["ty"])), base(api.p.ts(f["trait_args"][0]) if f.get("trait_args") else "")), f)
            self.by.setdefault((f["impl_trait"], f["name"], base(api.p.ts(f["self_ty"]))), f)

    def local(self, trait, name, ty):
        return self.by.get((trait, name, base(self.p.ts(ty))))

    def run(self, I, st, f, args):
        return I.run(f["inst"], args, st.copy())

    # --------------------------------------------------------- dispatch
    def __call__(self, I, st, f, args, destty, argtys, span):
        path, name, targs = f["path"], f["name"] if "name" in f else f["path"].split("::")[-1], f.get("args") or []
        tr = f.get("trait") or ""
        if path.startswith(("serde_core::", "serde::")):
            st = st.copy()
            if tr == SER and name == "serialize":
                return self.ser(I, st, targs[0], args[0])
            if tr == DE and name == "deserialize":
                d = args[0]
                if not (isinstance(d, N) and d.k == "de"):
                    return None
                return self.de(I, st, targs[0], d.c[0], destty)
            if tr == "serde_core::ser::Serializer":
                return self.serializer(I, st, name, targs, args)
            if tr.startswith("serde_core::ser::Serialize") and tr != SER:
                return self.compound(I, st, tr, name, targs, args)
            if tr == "serde_core::de::Deserializer":
                return self.deserializer(I, st, name, targs, args, destty)
            if tr in ("serde_core::de::MapAccess", "serde_core::de::SeqAccess"):
                return self.access(I, st, name, targs, args, destty)
            if tr == "serde_core::de::Visitor":
                return self.visit(I, st, targs[0], args[0], name, args[1:], destty)
            if tr in ("serde_core::de::Error", "serde_core::ser::Error"):
                return TopV("serde error"), st
            if name == "missing_field":
                t = self.p.types[targs[1]] if len(targs) > 1 else {}
                for x in targs:
                    t = self.p.types[x]
                    if t.get("path") == OPT:
                        return res_ok(none()), st
                return res_err(destty, "missing field"), st
            return None
        if path.startswith("rkyv::"):
            return self.rkyv(I, st.copy(), path, tr, name, targs, args, destty, f)
        if tr == "core::default::Default" and targs and not f.get("local"):
            t = self.p.types[targs[0]]
            if t["k"] == "float":
                return F(0.0), st
            if t["k"] == "int":
                return I_(0), st
            if t["k"] == "bool":
                return FALSE, st
            if (t.get("path") or "").endswith("::Vec"):
                return N("arr", None, ()), st
            return None
        return None

    # --------------------------------------------------------- serde: writing
    def ser(self, I, st, ty, ref):
        t = self.p.types[ty]
        while t["k"] == "ref":
            ty, t = t["ty"], self.p.types[t["ty"]]
            ref = I.load(st, ref)
        f = self.local(SER, "serialize", ty)
        if f is not None:
            return self.run(I, st, f, [ref, N("ser", None, ())])
        if t["k"] == "adt" and t.get("local"):
            return None
        v = I.load(st, ref) if isinstance(ref, N) and ref.k in ("ref", "box") else ref
        if t.get("path") == OPT and isinstance(v, Adt) and isinstance(v.d, T):
            inner = t["args"][0]
            if iconst(v.d) == 0:
                return res_ok(data("none")), st
            if iconst(v.d) == 1:
                r, s = self.ser(I, st, inner, I.newref(st, v.vs[1][0]))
                return (None if r is None else self.mapres(r, lambda x: data("some", x))), s
            return None
        if t["k"] == "tuple" and t.get("args") and any(self.has_local(a) for a in t["args"]):
            return None
        if self.has_local(ty):
            return None
        return res_ok(data("val:" + self.p.ts(ty), v)), st

    def has_local(self, ty, d=0):
        t = self.p.types[ty]
        if t["k"] == "adt" and t.get("local"):
            return True
        kids = list(t.get("args") or []) + ([t["ty"]] if isinstance(t.get("ty"), int) else [])
        return d < 8 and any(self.has_local(x, d + 1) for x in kids)

    def mapres(self, r, fn):
        if isinstance(r, IteV):
            return IteV(r.c, self.mapres(r.a, fn), self.mapres(r.b, fn))
        if isinstance(r, Adt) and r.path == RES:
            x = r.vs[0][0]
            return Adt(r.ty, RES, r.d, {0: (fn(x),), 1: r.vs[1] if 1 in r.vs else (TopV("no error"),)})
        return TopV("result")

    def serializer(self, I, st, name, targs, args):
        if name in ("serialize_struct", "serialize_map", "serialize_struct_variant"):
            key = args[1]
            return res_ok(data("struct")), st
        if name in ("serialize_tuple", "serialize_seq", "serialize_tuple_struct", "serialize_tuple_variant"):
            return res_ok(data("seq")), st
        if name == "serialize_newtype_struct":
            r, s = self.ser(I, st, targs[1], args[2]) or (None, None)
            return (self.mapres(r, lambda x: data("newtype", x)), s) if r is not None else None
        if name == "serialize_some":
            r, s = self.ser(I, st, targs[1], args[1]) or (None, None)
            return (self.mapres(r, lambda x: data("some", x)), s) if r is not None else None
        if name == "serialize_none":
            return res_ok(data("none")), st
        if name in ("serialize_unit", "serialize_unit_struct"):
            return res_ok(data("unit")), st
        prim = name[len("serialize_"):]
        if prim in PRIMS and len(args) == 2:
            return res_ok(data("val:" + prim, I.deep(st, args[1]))), st
        if name == "is_human_readable":
            return var("human_readable", "bool"), st
        return None

    def compound(self, I, st, tr, name, targs, args):
        kind = tr.split("::")[-1]
        if name == "end":
            return res_ok(args[0]), st
        if name == "skip_field":
            return res_ok(UNIT), st
        ref = args[0]
        cur = I.load(st, ref)
        if not isinstance(cur, (N, IteV)):
            return None

        def push(cur, e):
            if isinstance(cur, IteV):
                return IteV(cur.c, push(cur.a, e), push(cur.b, e))
            if isinstance(cur, N) and cur.k == "data":
                return N("data", cur.s, tuple(cur.c) + (e,))
            return TopV("data")
        if name in ("serialize_field", "serialize_entry") and kind in ("SerializeStruct", "SerializeMap", "SerializeStructVariant"):
            key = I.deep(st, args[1])
            if not (isinstance(key, N) and key.k == "str"):
                return None
            got = self.ser(I, st, targs[-1], args[2])
            mk_ = lambda x: N("entry", key.s, (x,))
        elif name in ("serialize_field", "serialize_element"):
            got = self.ser(I, st, targs[-1], args[1])
            mk_ = lambda x: x
        else:
            return None
        if got is None:
            return None
        r, s = got
        if r is None:
            return None, None
        if isinstance(r, Adt) and iconst(r.d) == 0:
            I.store(s, ref, push(I.load(s, ref), mk_(r.vs[0][0])))
            return res_ok(UNIT), s
        return None

    # --------------------------------------------------------- serde: reading
    def split(self, I, st, d, fn):
        """fn on each alternative of data that depends on the value"""
        outs = []
        for c, x in ((d.c, d.a), (bnot(d.c), d.b)):
            s0 = st.copy()
            s0.pc = band(st.pc, c)
            r = fn(s0, x)
            if r is None:
                return None
            outs.append(r)
        (ra, sa), (rb, sb) = outs
        if sa is None or sb is None:
            return outs[0] if sb is None else outs[1]
        s = I.merge([(sb, sb.pc), (sa, sa.pc)], st.pc)
        out = s.cells
        v = I.merge_val(d.c, ra, rb, sa.cells, sb.cells, out)
        return v, s

    def de(self, I, st, ty, d, destty=None):
        if isinstance(d, IteV):
            return self.split(I, st, d, lambda s, x: self.de(I, s, ty, x, destty))
        f = self.local(DE, "deserialize", ty)
        if f is not None:
            return self.run(I, st, f, [N("de", None, (d,))])
        t = self.p.types[ty]
        ts = self.p.ts(ty)
        if t["k"] == "adt" and t.get("local"):
            return None
        if isinstance(d, TopV):
            return None
        if ts.endswith("IgnoredAny") or "IgnoredAny" in ts:
            return res_ok(UNIT), st
        if "Content" in ts or "__private" in ts:
            return None
        k = d.s or ""
        if t.get("path") == OPT:
            if k == "none":
                return res_ok(none()), st
            r = self.de(I, st, t["args"][0], d.c[0] if k == "some" else d)
            return None if r is None else (self.mapres(r[0], some), r[1])
        if t.get("path", "").endswith("::PhantomData"):
            return res_ok(UNIT), st
        if k == "val:" + ts:
            return res_ok(d.c[0]), st
        if k.startswith("val:") and k[4:] in PRIMS and ts in PRIMS:
            v = self.convert(I, k[4:], ts, d.c[0])
            if v is None:
                return None
            if self.mode == "seq":
                self.notes.append("%s read as %s" % (k[4:], ts))
            return v, st
        if k.startswith("val:") and k[4:] in PRIMS + ("str",) and not ts.startswith(("alloc::", "core::", "std::")) and ts not in PRIMS and t["k"] in ("tuple", "array"):
            return res_err(destty, "%s is not %s" % (k, ts)), st
        if k in ("unit", "none", "struct") and ts in PRIMS:
            return res_err(destty, "%s is not %s" % (k, ts)), st
        return None

    def convert(self, I, k, ts, v):
        """the value read as `ts` from a self-describing format that holds a `k`"""
        if k in FLOATS and ts in FLOATS:
            return res_ok(I.models.f32(v) if ts == "f32" else v)
        if k in INTS_ and ts in FLOATS:
            return res_ok(i2f(v))
        if k in FLOATS and ts in INTS_ or "bool" in (k, ts):
            return res_err(None, "%s is not %s" % (k, ts))
        if k in INTS_ and ts in INTS_:
            b = int(ts[1:]) if ts[1:].isdigit() else 64
            lo, hi = (0, (1 << b) - 1) if ts[0] == "u" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            okc = band(ile(I_(lo), v), ile(v, I_(hi)))
            return Adt(None, RES, ite(okc, ZERO, ONE), {0: (v,), 1: (TopV("out of range"),)})
        return None

    def visit(self, I, st, vty, visitor, name, args, destty=None):
        f = self.local("serde_core::de::Visitor", name, vty)
        if f is not None:
            return self.run(I, st, f, [visitor] + list(args))
        # provided methods
        fwd = {"visit_f32": "visit_f64", "visit_u8": "visit_u64", "visit_u16": "visit_u64", "visit_u32": "visit_u64", "visit_i8": "visit_i64", "visit_i16": "visit_i64", "visit_i32": "visit_i64",
               "visit_borrowed_str": "visit_str", "visit_string": "visit_str", "visit_borrowed_bytes": "visit_bytes"}
        if name in fwd:
            return self.visit(I, st, vty, visitor, fwd[name], args, destty)
        if self.p.types[vty].get("local"):
            return res_err(destty, "%s not supported by the visitor" % name), st
        return None

    def present(self, I, st, vty, visitor, d, destty):
        """hand data to a visitor"""
        if isinstance(d, IteV):
            return self.split(I, st, d, lambda s, x: self.present(I, s, vty, visitor, x, destty))
        k = d.s if isinstance(d, N) and d.k == "data" else None
        if k is None:
            return None
        if k == "struct":
            es = list(d.c)
            if self.mode == "seq":
                return self.visit(I, st, vty, visitor, "visit_seq", [N("access", "seq", tuple(e.c[0] for e in es))], destty)
            if self.perm:
                es = [es[i] for i in self.perm if i < len(es)] + [e for i, e in enumerate(es) if i not in self.perm]
            return self.visit(I, st, vty, visitor, "visit_map", [N("access", "map", tuple(es))], destty)
        if k == "seq":
            return self.visit(I, st, vty, visitor, "visit_seq", [N("access", "seq", d.c)], destty)
        if k == "newtype":
            return self.visit(I, st, vty, visitor, "visit_newtype_struct", [N("de", None, (d.c[0],))], destty)
        if k == "some":
            return self.visit(I, st, vty, visitor, "visit_some", [N("de", None, (d.c[0],))], destty)
        if k in ("none", "unit"):
            return self.visit(I, st, vty, visitor, "visit_" + k, [], destty)
        if k.startswith("val:") and k[4:] in PRIMS:
            return self.visit(I, st, vty, visitor, "visit_" + {"usize": "u64", "isize": "i64"}.get(k[4:], k[4:]), [d.c[0]], destty)
        return None

    def deserializer(self, I, st, name, targs, args, destty):
        d = args[0]
        if not (isinstance(d, N) and d.k == "de"):
            return None
        d = d.c[0]
        if isinstance(d, IteV):
            return self.split(I, st, d, lambda s, x: self.deserializer(I, s, name, targs, [N("de", None, (x,))] + list(args[1:]), destty))
        visitor, vty = args[-1], targs[-1]
        if name == "is_human_readable":
            return var("human_readable", "bool"), st
        if name == "deserialize_identifier":
            if isinstance(d, N) and d.k == "str":
                return self.visit(I, st, vty, visitor, "visit_str", [d], destty)
            return None
        if name == "deserialize_ignored_any":
            return self.visit(I, st, vty, visitor, "visit_unit", [], destty)
        if name == "deserialize_option" and isinstance(d, N) and d.k == "data" and d.s not in ("none", "some"):
            return None
        if name == "deserialize_newtype_struct" and isinstance(d, N) and d.k == "data" and d.s != "newtype":
            return self.visit(I, st, vty, visitor, "visit_newtype_struct", [N("de", None, (d,))], destty)
        if isinstance(d, N) and d.k == "data" and d.s == "newtype" and name != "deserialize_newtype_struct":
            return self.present(I, st, vty, visitor, d.c[0], destty)
        if name == "deserialize_f32" and isinstance(d, N) and d.s == "val:f64":
            if self.mode == "seq":
                self.notes.append("f64 read as f32")
        return self.present(I, st, vty, visitor, d, destty)

    def access(self, I, st, name, targs, args, destty):
        ref = args[0]
        a = I.load(st, ref)
        if not (isinstance(a, N) and a.k == "access"):
            return None
        if name == "size_hint":
            return some(I(len(a.c))), st
        if a.s == "seq":
            if name != "next_element":
                return None
            if not a.c:
                return res_ok(none()), st
            I.store(st, ref, N("access", "seq", tuple(a.c[1:])))
            r = self.de(I, st, targs[-1], a.c[0])
            return None if r is None else (self.mapres(r[0], some), r[1]) if r[0] is not None else r
        if name == "next_key":
            if not a.c:
                return res_ok(none()), st
            f = self.local(DE, "deserialize", targs[-1])
            if f is None:
                return None
            r = self.run(I, st, f, [N("de", None, (N("str", a.c[0].s, ()),))])
            return (self.mapres(r[0], some), r[1]) if r[0] is not None else r
        if name == "next_value":
            if not a.c:
                return None
            I.store(st, ref, N("access", "map", tuple(a.c[1:])))
            return self.de(I, st, targs[-1], a.c[0].c[0], destty)
        return None

    # --------------------------------------------------------- rkyv
    def rkyv(self, I, st, path, tr, name, targs, args, destty, f):
        if path.startswith("rkyv::place::Place"):
            if name == "ptr":
                return I.load(st, args[0]), st
            if name == "from_field_unchecked":
                return args[1], st
            if name == "write":
                I.store(st, args[0], args[1])
                return UNIT, st
            return None
        if tr == "rkyv::traits::Serialize" and name == "serialize":
            g = self.local("rkyv::traits::Serialize", "serialize", targs[0])
            if g is not None:
                return self.run(I, st, g, args)
            if self.has_local(targs[0]):
                return None
            t = self.p.types[targs[0]]
            if t["k"] in ("float", "int", "bool") or "NonZero" in self.p.ts(targs[0]):
                return res_ok(UNIT), st
            return res_ok(N("resolver", self.p.ts(targs[0]), (I.load(st, args[0]),))), st
        if tr == "rkyv::traits::Archive" and name == "resolve":
            g = self.local("rkyv::traits::Archive", "resolve", targs[0])
            if g is not None:
                return self.run(I, st, g, args)
            if self.has_local(targs[0]):
                return None
            v = I.load(st, args[0])
            r = args[1]
            if isinstance(r, N) and r.k == "resolver":
                if r.s != self.p.ts(targs[0]):
                    return None
                if vkey(r.c[0]) != vkey(v):
                    v = TopV("resolver of another value")
            elif isinstance(r, TopV):
                v = TopV("unknown resolver")
            I.store(st, args[2], N("arch", self.p.ts(targs[0]), (v,)))
            return UNIT, st
        if tr == "rkyv::traits::Deserialize" and name == "deserialize":
            g = self.by.get(("rkyv-de", base(self.p.ts(targs[0])), base(self.p.ts(targs[1]))))
            if g is not None:
                return self.run(I, st, g, args)
            a = I.load(st, args[0])
            if isinstance(a, N) and a.k == "arch" and a.s == self.p.ts(targs[1]):
                return res_ok(a.c[0]), st
            return None
        w = self.p.ts(targs[0]) if targs else ""
        if name == "serialize_with" and tr.startswith("rkyv::with::"):
            g = self.local(tr, name, targs[0])
            if g is not None:
                return self.run(I, st, g, args)
            if w == "rkyv::with::Skip":
                return res_ok(UNIT), st
        if name == "resolve_with" and tr.startswith("rkyv::with::"):
            g = self.local(tr, name, targs[0])
            if g is not None:
                return self.run(I, st, g, args)
            if w == "rkyv::with::Skip":
                I.store(st, args[2], N("arch", "skipped", ()))
                return UNIT, st
        if name == "deserialize_with" and tr.startswith("rkyv::with::"):
            g = self.local(tr, name, targs[0])
            if g is not None:
                return self.run(I, st, g, args)
            if w == "rkyv::with::Skip":
                for x in targs[1:]:
                    t = self.p.types[x]
                    if t["k"] == "tuple" and not t.get("args") or t["k"] == "param":
                        continue
                    v = self.default(I, st, x)
                    if v is not None:
                        return res_ok(v[0]), v[1]
        return None

    def default(self, I, st, ty):
        g = self.local("core::default::Default", "default", ty)
        if g is not None:
            return self.run(I, st, g, [])
        t = self.p.types[ty]
        if t["k"] == "float":
            return F(0.0), st
        if t["k"] == "int":
            return iconst_term(0), st
        if t["k"] == "bool":
            return FALSE, st
        if (t.get("path") or "").endswith("::Vec"):
            return N("arr", None, ()), st
        return None


PRIMS = ("f64", "f32", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128", "bool")
FLOATS = ("f64", "f32")
INTS_ = tuple(x for x in PRIMS if x[0] in "ui")


def iconst_term(n):
    return I(n)


def I_(n):
    return I(n)


def split(v, conds=()):
    """the cases of a value"""
    if isinstance(v, IteV):
        for x in split(v.a, conds + (v.c,)):
            yield x
        for x in split(v.b, conds + (bnot(v.c),)):
            yield x
    else:
        yield conds, v


def unequal(x, y):
    """values that do not compare equal"""
    if x is None or y is None:
        return x is not y
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return False
    return x != y


def session(api, mode="map", perm=None):
    s = Session(api)
    s.I.hook = Hook(api, mode, perm)
    s.I.unroll = 16
    return s


def invariants(s, v, d=0):
    """what the types of a symbolic value guarantee"""
    v = s.deref(v)
    if isinstance(v, Lam):
        s.I.facts.append(ilt(ZERO, v.n[0]))       # rules hold at least one pair (P12)
    if isinstance(v, Adt):
        s.param_facts(v)
        for fs in v.vs.values():
            for x in fs:
                if d < 6:
                    invariants(s, x, d + 1)
    return v


def compare(rep, name, key, where, got, want, facts, seed, how):
    """the value read back against the value written"""
    why = None
    if not (isinstance(got, Adt) and got.path == RES and isinstance(got.d, T)):
        rep.open(name, "result of reading not resolved: %s" % str(got)[:150])
        return
    fails = refute(got.d, ZERO, facts, seed)
    if not entails(facts, ieq(got.d, ZERO)) and got.d is not ZERO:
        # a check of the stored pairs themselves may only reject rules no constructor builds
        if fails and not has_top(got.d) and not any(x.op == "sel" for x in subterms(got.d)):
            rep.bad(key, "%s: a value that was written cannot be read back" % name, where, dict(fails, how=how))
            return
        why = "reading may fail: %s" % got.d
        facts = list(facts) + [ieq(got.d, ZERO)]
    out = []
    v = got.vs[0][0]
    if not flatten(want, v, list(facts), out):
        if isinstance(v, N) and v.k == "arr" and not v.c and isinstance(want, Lam):
            rep.bad(key, "%s: reading back gives an empty sequence" % name, where, {"how": how})
            return
        d = leaves_differ(want, v, facts, seed)
        if d:
            rep.bad(key, "%s: reading back gives another value" % name, where, dict(d, how=how))
            return
        rep.open(name, "value not resolved: %s" % str(v)[:200])
        return
    for x, y, fs in out:
        if texact(x, y, fs):
            continue
        w = refute(y, x, fs, seed, differ=unequal)
        if w:
            rep.bad(key, "%s: reading back gives another value" % name, where, dict(w, how=how))
            return
        why = why or "not shown equal: %s / %s" % (str(x)[:100], str(y)[:100])
    if why:
        rep.open(name, why)
        return
    rep.ok(name, "%d values read back from their own entries" % len(out))
    rep.count("values read back", len(out))


def leaves_differ(a, b, facts, seed):
    """a differing field of two structures of which some fields are not comparable"""
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path and set(a.vs) == set(b.vs) == {0} and len(a.vs[0]) == len(b.vs[0]):
        for x, y in zip(a.vs[0], b.vs[0]):
            if isinstance(y, N) and y.k == "arr" and not y.c and isinstance(x, Lam):
                return {"got": "empty sequence", "want": "the sequence written"}
            out = []
            if not has_top(y) and flatten(x, y, list(facts), out):
                for u, v, fs in out:
                    if not texact(u, v, fs):
                        w = refute(v, u, fs, seed, differ=unequal)
                        if w:
                            return w
            else:
                w = leaves_differ(x, y, facts, seed)
                if w:
                    return w
    return None


def find_impl(api, trait, name):
    path = api.adt(name)["path"]
    for im in api.p.impls:
        if im.get("trait") != trait or im.get("polarity") == "Negative":
            continue
        if trait == "rkyv::traits::Deserialize":
            if im["args"] and api.p.types[im["args"][0]].get("path") == path:
                return im
        elif api.p.types[im["self"]].get("path") == path:
            return im
    return None


def run_serial(rep, apis, seed):
    for cfg, api in apis.items():
        fs = feats(cfg)
        want = []
        if "serde" in fs:
            want += [("serde", SER), ("serde", DE)]
        if "rkyv" in fs:
            want += [("rkyv", "rkyv::traits::Archive"), ("rkyv", "rkyv::traits::Serialize"), ("rkyv", "rkyv::traits::Deserialize")]
        if "zerocopy" in fs:
            want += [("zerocopy", "zerocopy::KnownLayout")]
        if not want:
            continue
        rep.count("configurations")
        for ty in TYPES:
            have = True
            for feat, trait in want:
                rep.count("impls")
                im = find_impl(api, trait, ty)
                if im is None:
                    have = False
                    rep.bad("missing %s %s" % (trait.split("::")[0] + "::" + trait.split("::")[-1], ty), "%s does not implement %s although the feature %s is on" % (ty, trait, feat), api.adt(ty).get("span"), {"configuration": cfg})
                else:
                    rep.ok("%s implements %s [%s]" % (ty, trait, cfg), im["ref"])
            if not have:
                continue
            if "serde" in fs:
                serde_trip(rep, api, cfg, ty, seed)
            if "rkyv" in fs:
                rkyv_trip(rep, api, cfg, ty, seed)


def fn_of(api, im, meth):
    it = im["items"].get(meth)
    for f in api.p.fns:
        if it and f.get("inst") == it.get("inst"):
            return f
    return None


def serde_trip(rep, api, cfg, ty, seed):
    fser, fde = fn_of(api, find_impl(api, SER, ty), "serialize"), fn_of(api, find_impl(api, DE, ty), "deserialize")
    key = "serde %s" % ty
    name = "serde round trip of %s [%s]" % (ty, cfg)
    if fser is None or fde is None:
        rep.open(name, "no body")
        return
    where = fser.get("ispan") or fser.get("span")
    try:
        s = session(api)
        a = s.arg(fser["inputs"][0], "v")
        v0 = invariants(s, a)
        v = s.call(fser, [a, N("ser", None, ())])
        if v is None:
            rep.bad(key, "%s: serialize never returns" % name, where, {"value": "any"})
            return
        shapes = {}
        for conds, r in split(v):
            facts = list(s.I.facts) + list(conds)
            if not (isinstance(r, Adt) and r.path == RES and isinstance(r.d, T)) or has_top(r.vs[0][0]):
                rep.open(name, "serialized form not resolved: %s %s" % (str(r)[:200], s.limits()[:3]))
                return
            if not entails(facts, ieq(r.d, ZERO)) and r.d is not ZERO:
                w = refute(r.d, ZERO, facts, seed)
                rep.bad(key, "%s: serialize fails" % name, where, w) if w else rep.open(name, "serialize may fail")
                return
            for c2, d in split(r.vs[0][0]):
                n = len(d.c) if isinstance(d, N) and d.k == "data" and d.s == "struct" else 0
                shapes.setdefault(n, facts + list(c2))
                if len(shapes) == 2 and key not in shapes:
                    shapes[key] = True
                    m = max(k for k in shapes if k != key)
                    w = refute(ZERO, ONE, shapes[min(k for k in shapes if k != key)], seed)
                    if w:
                        rep.bad(key, "%s: for some values only %d of %d entries are written, so a format that reads by position cannot read them back" % (name, min(k for k in shapes if k != key), m), where, {"inputs": w["inputs"]})
                        return
                ways = [("map", p) for p in itertools.islice(itertools.permutations(range(n)), 24)] + [("seq", None)] if n else [("map", None)]
                rep.count("entries written", n or 1)
                for mode, perm in ways:
                    s2 = s.fork()           # the boxes of the value live in its state
                    s2.ok = True
                    s2.I.hook = Hook(api, mode, perm)
                    s2.I.facts = facts + list(c2)
                    g = s2.call(fde, [N("de", None, (d,))])
                    g = None if g is None else deep_deref(s2, g)
                    how = "entries in order %s" % (perm,) if perm is not None and n else "as a sequence" if mode == "seq" else "plain value"
                    nm = "%s %s" % (name, how)
                    if g is None:
                        rep.bad(key, "%s: deserialize never returns" % nm, where, {"how": how})
                        continue
                    if s2.I.hook.notes:
                        rep.open(nm, s2.I.hook.notes[0])
                        continue
                    rep.count("presentations")
                    compare(rep, nm, key, where, g, deep_deref(s, v0), s2.I.facts, seed, how)
    except (Undecided, Limit) as e:
        rep.open(name, "%s" % e)


def blank(p, ty):
    """an archived structure before it is written"""
    t = p.types[ty]
    if t["k"] == "adt" and t.get("local") and t.get("ak") == "struct" and t.get("variants"):
        return Adt(ty, t["path"], ZERO, {0: tuple(blank(p, f["ty"]) for f in t["variants"][0]["fields"])})
    return TopV("never written")


def rkyv_trip(rep, api, cfg, ty, seed):
    fa = fn_of(api, find_impl(api, "rkyv::traits::Archive", ty), "resolve")
    fs = fn_of(api, find_impl(api, "rkyv::traits::Serialize", ty), "serialize")
    fd = fn_of(api, find_impl(api, "rkyv::traits::Deserialize", ty), "deserialize")
    key = "rkyv %s" % ty
    name = "rkyv round trip of %s [%s]" % (ty, cfg)
    if not (fa and fs and fd):
        rep.open(name, "no body")
        return
    where = fa.get("ispan") or fa.get("span")
    try:
        s = session(api)
        a = s.arg(fs["inputs"][0], "v")
        v0 = invariants(s, a)
        r = s.call(fs, [a, s.newref(TopV("serializer"))])
        if not (isinstance(r, Adt) and r.path == RES and iconst(r.d) == 0):
            rep.open(name, "resolver not resolved: %s" % str(r)[:200])
            return
        aid = api.p.types[fd["inputs"][0]]["ty"]
        place = s.newref(blank(api.p, aid))
        s.call(fa, [a, r.vs[0][0], place])
        arch = s.deref(place)
        for i, x in enumerate(arch.vs[0] if isinstance(arch, Adt) else ()):
            rep.count("fields archived")
        g = s.call(fd, [place, s.newref(TopV("deserializer"))])
        if g is None:
            rep.bad(key, "%s: deserialize never returns" % name, where, {"value": "any"})
            return
        compare(rep, name, key, where, deep_deref(s, g), deep_deref(s, v0), s.I.facts, seed, "archive")
    except (Undecided, Limit) as e:
        rep.open(name, "%s" % e)
