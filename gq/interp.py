"""Abstract interpreter: one forward pass over (inlined) MIR producing a closed-form summary.

Every block of the non-unwinding control-flow graph is visited once per calling context; states are
joined with gated (ite) values; loops are replaced by the closed form of their recurrences
(scalar evolution), never unrolled."""
from .val import *
from .linear import entails, simp, conj, bounds
from .prog import Prog

U64 = (1 << 64) - 1


class Limit(Exception):
    """construct outside the modelled fragment"""


class State:
    __slots__ = ("cells", "pc")

    def __init__(self, cells, pc):
        self.cells, self.pc = cells, pc

    def copy(self):
        return State(dict(self.cells), self.pc)


class Obl:
    __slots__ = ("kind", "fn", "span", "pc", "goal", "ok")

    def __init__(self, kind, fn, span, pc, goal, ok):
        self.kind, self.fn, self.span, self.pc, self.goal, self.ok = kind, fn, span, pc, goal, ok


NC = "ncalls"


class Interp:
    LOG = None                    # collects the obligations of every interpreter when set

    def __init__(self, prog, facts=()):
        self.p = prog
        self.facts = list(facts)
        self.nextc = 0
        self.obls = []
        self.record = True
        self.limits = []
        self.depth = 0
        self.tabs = []
        self.tabidx = {}
        self.static_cells = {}
        self.seen = {}            # numbers and texts written in the code interpreted, in order
        self.stack = []
        self.analysed = set()
        self.calls = 0
        self.opaque_gamma = True
        self.visited_blocks = 0
        self.touched = set()
        self.constructs = []
        self.extcalls = {}
        self.guards = []
        self.release = False      # arithmetic wraps around instead of failing
        self.nest = []            # loops being executed
        self.costs = []           # every loop with its trip count and the loop around it
        self.hook = None          # models specific to one analysis, asked first
        self.unroll = 0           # iterations of a loop executed one by one before it is summarised
        self.havoc = False        # unknown calls return an arbitrary value of their type
        self.onsym = None
        self.gamma = prog.gamma_insts
        from . import models
        self.models = models

    # ---------------------------------------------------------------- bookkeeping
    def limit(self, why):
        if self.record:
            w = "%s (in %s)" % (why, self.stack[-1] if self.stack else "?")
            if w not in self.limits:
                self.limits.append(w)

    def fset(self, st):
        return self.facts + conj(st.pc)

    def ent(self, st, goal):
        if goal is TRUE:
            return True
        return entails(self.fset(st), goal)

    def obligation(self, kind, st, goal, span):
        if not self.record:
            return
        if st.pc is FALSE:
            return
        g = goal
        ok = self.ent(st, g)
        o = Obl(kind, self.stack[-1] if self.stack else "?", span, self.fset(st), g, ok)
        self.obls.append(o)
        if Interp.LOG is not None:
            Interp.LOG.append(o)

    def assume(self, st, c):
        st.pc = band(st.pc, c)
        return st

    def simp(self, st, t):
        return simp(t, self.fset(st))

    # ---------------------------------------------------------------- memory
    def alloc(self, st, v):
        self.nextc += 1
        c = "c%d" % self.nextc
        st.cells[c] = v
        return c

    def ref(self, cell, projs=(), mut=False):
        shape, kids = [], []
        for p in projs:
            if p[0] == "i":
                shape.append("i")
                kids.append(p[1])
            elif p[0] in ("s", "m"):
                shape.append(p[0])
                kids.extend(p[1:3])
            else:
                shape.append(p[0] + str(p[1]))
        return N("ref", (cell, tuple(shape)), kids)

    def newref(self, st, v):
        return self.ref(self.alloc(st, v))

    def unref(self, r):
        cell, shape = r.s
        out, j = [], 0
        for x in shape:
            if x == "i":
                out.append(("i", r.c[j]))
                j += 1
            elif x in ("s", "m"):
                out.append((x, r.c[j], r.c[j + 1]))
                j += 2
            else:
                out.append((x[0], int(x[1:])))
        return cell, out

    def load(self, st, r):
        """value behind a reference value"""
        if isinstance(r, IteV):
            return vite(r.c, self.load(st, r.a), self.load(st, r.b))
        if isinstance(r, TopV):
            return r
        if isinstance(r, N) and r.k in ("ref", "box"):
            cell, projs = self.unref(r) if r.k == "ref" else (r.s, [])
            return self.read(st, self.cellv(st, cell), projs)
        if isinstance(r, N) and r.k == "ctab":
            return r
        if isinstance(r, N) and r.k == "str":
            return r
        return TopV("load through %r" % (r,))

    def cellv(self, st, cell):
        v = st.cells.get(cell)
        if v is None:
            v = self.static_cells.get(cell)
        if v is None:
            return TopV("dead cell %s" % cell)
        return v

    def store(self, st, r, v):
        if isinstance(r, IteV):
            a, b = r.a, r.b
            self.store(st, a, vite(r.c, v, self.load(st, a)))
            self.store(st, b, vite(bnot(r.c), v, self.load(st, b)))
            return
        if isinstance(r, N) and r.k in ("ref", "box"):
            cell, projs = self.unref(r) if r.k == "ref" else (r.s, [])
            if cell in st.cells:
                st.cells[cell] = self.write(st, st.cells[cell], projs, v)
            return
        self.limit("store through %r" % (r,))

    def read(self, st, v, projs):
        for i, p in enumerate(projs):
            if isinstance(v, IteV):
                rest = projs[i:]
                return vite(v.c, self.read(st, v.a, rest), self.read(st, v.b, rest))
            if isinstance(v, TopV):
                return v
            k = p[0]
            if k == "v":
                continue
            if k == "f":
                vi = projs[i - 1][1] if i and projs[i - 1][0] == "v" else 0
                v = self.field(v, vi, p[1])
            elif k == "i":
                v = self.index(st, v, p[1])
            elif k == "s":
                v = self.slice(st, v, p[1], p[2])
            elif k == "m":
                v = v.at([p[1], p[2]]) if isinstance(v, Lam) and len(v.n) == 2 else TopV("matrix element")
            elif k == "d":
                v = self.load(st, v)
            else:
                return TopV("projection")
        return v

    def field(self, v, vi, f):
        if isinstance(v, T):
            return v                      # transparent newtype (NonZero and friends)
        if isinstance(v, N):
            if v.k in ("tup", "arr", "clo") and f < len(v.c):
                return v.c[f]
            if v.k in ("box", "ref"):
                return v
            if v.k == "ctab":
                return self.ctab_index(v, I(f))
        if isinstance(v, Adt):
            fs = v.vs.get(vi)
            if fs is not None and f < len(fs):
                return fs[f]
            return TopV("field of absent variant")
        return TopV("field %d of %r" % (f, type(v).__name__))

    def index(self, st, v, t):
        if isinstance(v, Lam) and len(v.n) == 1:
            return v.at([t])
        if isinstance(v, N) and v.k == "arr":
            if t.op == "i":
                if 0 <= t.a[0] < len(v.c):
                    return v.c[t.a[0]]
                return TopV("constant index out of range")
            if not v.c:
                return TopV("index into empty array")
            r = v.c[-1]
            for j in range(len(v.c) - 2, -1, -1):
                r = vite(ieq(t, I(j)), v.c[j], r)
            return r
        if isinstance(v, N) and v.k == "ctab":
            return self.ctab_index(v, t)
        return TopV("index of %r" % (type(v).__name__,))

    def slice(self, st, v, a, b):
        if isinstance(v, Lam) and len(v.n) == 1:
            bv = fresh("i", "int", 0)
            return Lam([isub(b, a)], [bv], v.at([iadd(bv, a)]))
        if isinstance(v, N) and v.k == "arr":
            if a.op == "i" and b.op == "i":
                return N("arr", None, v.c[a.a[0]:b.a[0]])
            return self.slice(st, arr2lam(v), a, b)
        if isinstance(v, N) and v.k == "ctab":
            bv = fresh("i", "int", 0)
            return Lam([isub(b, a)], [bv], self.ctab_index(v, iadd(bv, a)))
        return TopV("slice")

    def vlen(self, v):
        if isinstance(v, Lam):
            return v.n[0]
        if isinstance(v, N) and v.k == "arr":
            return I(len(v.c))
        if isinstance(v, N) and v.k == "ctab":
            return self.ctab_len(v)
        if isinstance(v, IteV):
            return ite(v.c, self.vlen(v.a), self.vlen(v.b))
        return top("int")

    def write(self, st, v, projs, new):
        if not projs:
            return new
        if isinstance(v, IteV):
            return vite(v.c, self.write(st, v.a, projs, new), self.write(st, v.b, projs, new))
        p, rest = projs[0], projs[1:]
        vi = 0
        if p[0] == "v":
            vi = p[1]
            if not rest:
                return new
            p, rest = rest[0], rest[1:]
        if p[0] == "f":
            f = p[1]
            if isinstance(v, N) and v.k in ("tup", "arr", "clo") and f < len(v.c):
                c = list(v.c)
                c[f] = self.write(st, c[f], rest, new)
                return N(v.k, v.s, c)
            if isinstance(v, Adt) and vi in v.vs and f < len(v.vs[vi]):
                fs = list(v.vs[vi])
                fs[f] = self.write(st, fs[f], rest, new)
                vs = dict(v.vs)
                vs[vi] = tuple(fs)
                return Adt(v.ty, v.path, v.d, vs)
            if isinstance(v, T) and not rest:
                return new
            return TopV("field write")
        if p[0] == "i":
            t = p[1]
            if isinstance(v, N) and v.k == "arr":
                if t.op == "i" and 0 <= t.a[0] < len(v.c):
                    c = list(v.c)
                    c[t.a[0]] = self.write(st, c[t.a[0]], rest, new)
                    return N("arr", None, c)
                v = arr2lam(v)
            if isinstance(v, Lam) and len(v.n) == 1:
                el = v.at([t])
                nw = self.write(st, el, rest, new)
                return self.lam_store(v, [t], nw)
            return TopV("index write")
        if p[0] == "s":
            if isinstance(v, N) and v.k == "arr":
                v = arr2lam(v)
            if isinstance(v, Lam):
                # write inside a sub-slice: only element writes reach here
                if rest and rest[0][0] == "i":
                    return self.write(st, v, [("i", iadd(p[1], rest[0][1]))] + list(rest[1:]), new)
                if not rest and isinstance(new, Lam):
                    bv = v.bv[0]
                    inside = band(ile(p[1], bv), ilt(bv, p[2]))
                    return Lam(v.n, v.bv, vite(inside, new.at([isub(bv, p[1])]), v.body))
            return TopV("slice write")
        if p[0] == "m":
            if isinstance(v, Lam) and len(v.n) == 2:
                nw = self.write(st, v.at([p[1], p[2]]), rest, new)
                return self.lam_store(v, [p[1], p[2]], nw)
            return TopV("matrix write")
        if p[0] == "d":
            self.limit("write through nested deref")
            return v
        return TopV("write")

    def lam_store(self, v, idx, new):
        c = band(*[ieq(b, t) for b, t in zip(v.bv, idx)])
        if any(b in t.fv for b in v.bv for t in idx):
            raise Limit("lambda variable capture")
        return Lam(v.n, v.bv, vite(c, new, v.body))

    # ---------------------------------------------------------------- constant tables
    def ctab(self, key, data):
        if key not in self.tabidx:
            self.tabidx[key] = len(self.tabs)
            self.tabs.append((key, data))
            TABLES[key] = data
        return N("ctab", key, ())

    def ctab_get(self, key, idxs):
        d = TABLES[key]
        for i in idxs:
            d = d[i]
        return d

    def ctab_index(self, v, t):
        kids = v.c + (t,)
        data = TABLES[v.s]
        # kind of element at this depth
        d = data
        for _ in kids:
            if not isinstance(d, list) or not d:
                return TopV("table depth")
            d = d[0]
        if isinstance(d, (list, tuple)) and not (isinstance(d, tuple) and d and d[0] in ("f", "i", "b")):
            return N("ctab", v.s, kids)
        if all(k.op == "i" for k in kids):
            try:
                e = self.ctab_get(v.s, [k.a[0] for k in kids])
            except IndexError:
                return TopV("constant table index out of range")
            return lit(e)
        return tabterm({"f": "float", "i": "int", "b": "bool"}[d[0]], v.s, kids)

    def ctab_len(self, v):
        kids = v.c
        data = TABLES[v.s]
        if all(k.op == "i" for k in kids):
            try:
                return I(len(self.ctab_get(v.s, [k.a[0] for k in kids])))
            except IndexError:
                return top("int")
        if len(kids) == 1:
            ls = [len(x) for x in data]
            if len(ls) >= 2:
                a = ls[1] - ls[0]
                if all(l == ls[0] + a * i for i, l in enumerate(ls)):
                    return iadd(I(ls[0]), iscale(kids[0], a))
            elif ls:
                return I(ls[0])
        return mk("app", "int", "tlen", v.s, *kids)

    # ---------------------------------------------------------------- constants
    def const(self, st, k):
        ty, v = k["ty"], k["v"]
        return self.constv(st, ty, v, k.get("name"))

    def constv(self, st, ty, v, name=None):
        t = self.p.types[ty]
        if "i" in v:
            n = int(v["i"])
            self.seen[n] = True
            return I(self.signed(t, n))
        if "bool" in v:
            return B(v["bool"])
        if "f" in v:
            if int(v.get("bits", 64)) == 64:
                return Fbits(int(v["f"]))
            import struct
            return F(struct.unpack("<f", struct.pack("<I", int(v["f"])))[0])
        if "fn" in v:
            return N("fn", FnKey.of(v["fn"]), ())
        if "closure" in v:
            c = v["closure"]
            return N("clo", (c["path"], c.get("inst")), ())
        if "tup" in v:
            return tup(*[self.constv(st, a, x) for a, x in zip(t.get("args", []), v["tup"])])
        if "arr" in v:
            el = t["ty"]
            if len(v["arr"]) > 24 or (v["arr"] and isinstance(v["arr"][0], dict) and "ref" in v["arr"][0]):
                data = self.decode_tab(el, v["arr"])
                if data is not None:
                    return self.ctab(("const", repr(name) + str(len(self.tabs))), data)
            return N("arr", None, [self.constv(st, el, x) for x in v["arr"]])
        if "adt" in v:
            vi = v.get("variant", 0)
            tt = self.p.types[v["adt"]] if isinstance(v["adt"], int) else t
            fl = v.get("fields", [])
            ftys = [f["ty"] for f in tt["variants"][vi]["fields"]] if tt.get("variants") else []
            if is_nonzero(tt):
                while fl and isinstance(fl[0], dict) and "adt" in fl[0]:
                    fl = fl[0].get("fields", [])
                if fl and "i" in fl[0]:
                    it = self.p.types[tt["args"][0]] if tt.get("args") and isinstance(tt["args"][0], int) else tt
                    return I(self.signed(it, int(fl[0]["i"])))
                return top("int")
                return top("int")
            vals = [self.constv(st, ft, x) for ft, x in zip(ftys, fl)]
            if is_nz_inner(tt) and len(vals) == 1:
                return vals[0]
            return Adt(ty, tt["path"], I(vi), {vi: tuple(vals)})
        if "ref" in v:
            r = v["ref"]
            if "static" in r:
                return self.static_ref(st, r["static"])
            if "str" in r:
                self.seen[r["str"]] = True
                return N("str", r["str"], ())
            inner = t.get("ty")
            # reference to a promoted constant
            key = "k:" + repr(sorted(r.items()))[:4000] + ":%s" % inner
            if key not in self.static_cells:
                if "arr" in r:
                    it = self.p.types[inner]
                    el = it.get("ty")
                    data = self.decode_tab(el, r["arr"]) if len(r["arr"]) > 24 else None
                    val = self.ctab((("const", key)), data) if data is not None else N("arr", None, [self.constv(st, el, x) for x in r["arr"]])
                elif "slice" in r:
                    it = self.p.types[inner]
                    val = N("arr", None, [self.constv(st, it.get("ty"), x) for x in r["slice"]])
                else:
                    val = self.constv(st, inner, r)
                self.static_cells[key] = val
            return self.ref(key)
        if t["k"] == "tuple" and not t.get("args"):
            return UNIT
        if t["k"] == "fndef":
            return N("fn", FnKey.of({"path": t["s"]}), ())
        if "zst" in v or (t["k"] == "adt" and not any(x["fields"] for x in t.get("variants", []))):
            return Adt(ty, t.get("path", t["s"]), ZERO, {0: ()})
        return TopV("constant %s" % (str(v)[:60]))

    def signed(self, t, n):
        if t["k"] == "int" and t.get("signed"):
            b = t["bits"]
            if n >= 1 << (b - 1):
                n -= 1 << b
        return n

    def decode_tab(self, el, arr):
        """list of constant values -> nested python lists with ('f'|'i'|'b', payload) leaves"""
        out = []
        for x in arr:
            r = self.decode_el(x)
            if r is None:
                return None
            out.append(r)
        return out

    def decode_el(self, x):
        if "f" in x:
            return ("f", int(x["f"]))
        if "i" in x:
            return ("i", int(x["i"]))
        if "bool" in x:
            return ("b", x["bool"])
        if "arr" in x:
            return self.decode_tab(None, x["arr"])
        if "tup" in x:
            return self.decode_tab(None, x["tup"])
        if "ref" in x:
            r = x["ref"]
            if "static" in r:
                s = self.p.statics.get(r["static"])
                return None if s is None else self.decode_el(s["value"])
            return self.decode_el(r)
        if "slice" in x:
            return self.decode_tab(None, x["slice"])
        return None

    def static_ref(self, st, path):
        key = "s:" + path
        if key not in self.static_cells:
            s = self.p.statics.get(path)
            if s is None:
                self.static_cells[key] = TopV("static " + path)
            else:
                v = s["value"]
                val = None
                if "arr" in v:
                    data = self.decode_tab(None, v["arr"])
                    if data is not None and data:
                        val = self.ctab(("static", path), data)
                if val is None:
                    val = self.constv(st, s["ty"], v, path) if "ty" in s else TopV("static " + path)
                self.static_cells[key] = val
        self.touched.add(path)
        return self.ref(key)

    # ---------------------------------------------------------------- symbolic inputs
    def sym(self, st, ty, name):
        t = self.p.types[ty]
        k = t["k"]
        if k == "int":
            b = t["bits"]
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t.get("signed") else (0, (1 << b) - 1)
            return var(name, "int", lo, hi)
        if k == "bool":
            return var(name, "bool")
        if k == "float":
            return var(name, "float")
        if k == "param":
            return TopV("value of a generic type") if self.havoc else N("fsym", name, ())
        if k == "str":
            return var(name, "str")
        if k == "tuple":
            return tup(*[self.sym(st, a, "%s.%d" % (name, i)) for i, a in enumerate(t["args"])])
        if k in ("ref", "ptr"):
            return self.newref(st, self.sym(st, t["ty"], name))
        if k in ("slice",):
            return self.symseq(st, t["ty"], name)
        if k == "adt":
            if is_nonzero(t):
                it = self.p.types[t["args"][0]]
                return var(name, "int", 1, (1 << it["bits"]) - 1)
            if t["path"].endswith("boxed::Box"):
                inner = t["args"][0]
                return N("box", self.alloc(st, self.sym(st, inner, name)), ())
            if t["path"].endswith("vec::Vec"):
                return self.symseq(st, t["args"][0], name)
            if t.get("variants") and (t.get("ak") == "struct" or len(t["variants"]) == 1):
                vs = t["variants"][0]["fields"]
                vals = tuple(self.sym(st, f["ty"], "%s.%s" % (name, f["name"])) for f in vs)
                return Adt(ty, t["path"], ZERO, {0: vals})
            if self.havoc and t.get("variants") and [v["discr"] for v in t["variants"]] == list(range(len(t["variants"]))):
                d = var(name + ".variant", "int", 0, len(t["variants"]) - 1)
                return Adt(ty, t["path"], d, {i: tuple(self.sym(st, f["ty"], "%s.%d.%s" % (name, i, f["name"])) for f in v["fields"]) for i, v in enumerate(t["variants"])})
        return TopV("symbolic %s" % t["s"])

    def symseq(self, st, elty, name):
        n = var(name + ".len", "int", 0, (1 << 63) - 1)
        bv = fresh("i", "int", 0)
        return Lam([n], [bv], self.symel(elty, name, bv, ""))

    def symel(self, ty, name, bv, path):
        t = self.p.types[ty]
        if t["k"] == "tuple":
            return tup(*[self.symel(a, name, bv, path + ".%d" % i) for i, a in enumerate(t["args"])])
        if t["k"] == "adt" and t.get("ak") == "struct" and t.get("variants"):
            vs = t["variants"][0]["fields"]
            return Adt(ty, t["path"], ZERO, {0: tuple(self.symel(f["ty"], name, bv, path + "." + f["name"]) for f in vs)})
        if t["k"] in ("int", "float", "bool"):
            return mk("sel", t["k"], name, (bv,), path)
        return TopV("symbolic element")

    # ---------------------------------------------------------------- functions
    def run(self, bid, args, st):
        """inline a body; returns (value, state) or (None, None) when it never returns"""
        body = self.p.bodies[bid]
        if not body or "error" in body or "blocks" not in body:
            raise Limit("no body")
        if self.depth > 40 or self.stack.count(body["path"]) > 3:
            raise Limit("recursion in %s" % body["path"])
        self.analysed.add(bid)
        self.depth += 1
        self.stack.append(body["path"])
        try:
            fr = Frame(self, bid, body)
            fr.setup(st, args)
            out = fr.run_region(0, st, None, None)
            r = out.get("ret")
            if r is None or r.pc is FALSE:
                return None, None
            v = r.cells.get(fr.cell(0), UNIT)
            for l in range(len(body["locals"])):
                r.cells.pop(fr.cell(l), None)
            return v, r
        finally:
            self.depth -= 1
            self.stack.pop()

    def entry(self, bid, args, st):
        try:
            return self.run(bid, args, st)
        except Limit as e:
            self.limit(str(e))
            return TopV(str(e)), st

    # ---------------------------------------------------------------- calling values
    def call_value(self, st, f, args):
        """call a closure / fn item / symbolic function; returns (value, state)"""
        if isinstance(f, N) and f.k == "ref":
            inner = self.load(st, f)
            if isinstance(inner, N) and inner.k == "clo":
                return self.call_closure(st, f, inner, args)
            return self.call_value(st, inner, args)
        if isinstance(f, N) and f.k == "box":
            return self.call_value(st, self.ref(f.s), args)
        if isinstance(f, N) and f.k == "clo":
            return self.call_closure(st, None, f, args)
        if isinstance(f, N) and f.k == "fsym":
            st = st.copy()
            st.cells[NC] = iadd(st.cells.get(NC, ZERO), ONE)
            ts = []
            for a in args:
                a = self.deep(st, a)
                if isinstance(a, T):
                    ts.append(a)
                else:
                    ts.append(top("float"))
            return mk("app", "float", f.s, *ts), st
        if isinstance(f, N) and f.k == "rec":
            # records its arguments: a fold step chains (accumulator, item), a visitor appends the item to its log
            x = self.deepall(st, args[-1])
            if len(args) == 2:
                return N("acc", None, (args[0], x)), st
            st = st.copy()
            st.cells[f.s] = N("acc", None, (st.cells[f.s], x))
            return N("tup", None, ()), st
        if isinstance(f, N) and f.k == "py":
            return f.s(self, st, args)
        if isinstance(f, N) and f.k == "fn":
            return self.call_def(st, FnKey.get(f.s), list(args), None, [], None)
        if isinstance(f, IteV):
            v1, s1 = self.call_value(self.assume(st.copy(), f.c), f.a, args)
            v2, s2 = self.call_value(self.assume(st.copy(), bnot(f.c)), f.b, args)
            if s1 is None:
                return v2, s2
            if s2 is None:
                return v1, s1
            s = self.merge([(s1, f.c), (s2, bnot(f.c))], st.pc)
            return vite(f.c, v1, v2), s
        self.limit("call of %r" % (f,))
        return TopV("call of unknown value"), st

    def deep(self, st, a):
        while isinstance(a, N) and a.k in ("ref", "box"):
            a = self.load(st, a)
        return a

    def deepall(self, st, a):
        a = self.deep(st, a)
        if isinstance(a, N) and a.k == "tup":
            return N(a.k, a.s, [self.deepall(st, x) for x in a.c])
        return a

    def call_closure(self, st, fref, clo, args):
        path, inst = clo.s
        if inst is None:
            self.limit("closure without body %s" % path)
            return TopV("closure"), st
        body = self.p.bodies[inst]
        t1 = self.p.types[body["locals"][1]] if body["argc"] >= 1 else None
        st = st.copy()
        if t1 is not None and t1["k"] in ("ref", "ptr"):
            if fref is None:
                fref = self.ref(self.alloc(st, clo))
            a0 = fref
        else:
            a0 = clo
        return self.run(inst, [a0] + list(args), st)

    # ---------------------------------------------------------------- calls from MIR
    def call_def(self, st, f, args, destty, argtys, span):
        self.calls += 1
        return self.models.call(self, st, f, args, destty, argtys, span)

    # ---------------------------------------------------------------- merging
    def merge(self, items, base):
        """items: [(state, relative condition)] covering base; returns merged state"""
        st, c0 = items[0]
        cells = st.cells
        pc = st.pc
        for s2, c2 in items[1:]:
            # condition selecting s2 relative to what is already merged
            a, b = set(conj(pc)), set(conj(s2.pc))
            common = a & b
            ra = band(*(a - common)) if a - common else TRUE
            rb = band(*(b - common)) if b - common else TRUE
            sel = rb if (ra is TRUE or len(subterms(rb)) <= len(subterms(ra))) else bnot(ra)
            # sel true -> s2
            out = {}
            for k, v in cells.items():
                w = s2.cells.get(k)
                if w is None or w is v:
                    out[k] = v
                else:
                    out[k] = self.merge_val(sel, w, v, s2.cells, cells, out)
            for k, w in s2.cells.items():
                if k not in out:
                    out[k] = w
            npc = bor(pc, s2.pc)
            if npc.op == "or":
                # keep the common conjuncts visible as facts
                npc = band(*common, bor(ra, rb)) if common else npc
            cells, pc = out, npc
        return State(cells, pc)

    def merge_val(self, c, a, b, ca, cb, out):
        if isinstance(a, N) and isinstance(b, N) and a.k == b.k == "box" and a.s != b.s:
            va, vb = ca.get(a.s), cb.get(b.s)
            if va is not None and vb is not None:
                self.nextc += 1
                nm = "c%d" % self.nextc
                out[nm] = self.merge_val(c, va, vb, ca, cb, out)
                return N("box", nm, ())
            return IteV(c, a, b)
        if isinstance(a, N) and isinstance(b, N) and a.k == b.k and a.s == b.s and len(a.c) == len(b.c):
            return N(a.k, a.s, [self.merge_val(c, x, y, ca, cb, out) for x, y in zip(a.c, b.c)])
        if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
            vs = {}
            for k in sorted(set(a.vs) | set(b.vs)):
                if k in a.vs and k in b.vs and len(a.vs[k]) == len(b.vs[k]):
                    vs[k] = tuple(self.merge_val(c, x, y, ca, cb, out) for x, y in zip(a.vs[k], b.vs[k]))
                else:
                    vs[k] = a.vs.get(k, b.vs.get(k))
            return Adt(a.ty, a.path, ite(c, a.d, b.d), vs)
        return vite(c, a, b)

    # ---------------------------------------------------------------- loops
    def loop(self, st, body, n=None):
        """summarise a loop.
        body(state, k) -> (continue_state or None, [(exit key, exit state)])
        n: known trip count (consumer loops) or None (exits decide).
        returns (k var, trip count, [(key, state)], final continue-state summary at count)"""
        from .loops import solve_loop
        rec = {"kind": "loop", "n": None, "parent": self.nest[-1] if self.nest else None, "fn": self.stack[-1] if self.stack else "", "facts": None}
        self.costs.append(rec)
        self.nest.append(rec)
        try:
            r = solve_loop(self, st, body, n)
        finally:
            self.nest.pop()
        rec["n"], rec["facts"] = r[1], self.fset(st)
        return r

    def cost(self, kind, n, st):
        """a call that takes n steps"""
        self.costs.append({"kind": kind, "n": n, "parent": self.nest[-1] if self.nest else None, "fn": self.stack[-1] if self.stack else "", "facts": self.fset(st)})


TABLES = {}


class FnKey:
    _by = {}
    _l = []

    @staticmethod
    def of(c):
        import json
        k = (c.get("path"), (c.get("r") or {}).get("path"), c.get("inst"), tuple(c.get("args", ())))
        if k not in FnKey._by:
            FnKey._by[k] = len(FnKey._l)
            FnKey._l.append(c)
        return (c.get("path"), FnKey._by[k])

    @staticmethod
    def get(s):
        return FnKey._l[s[1]]


def lit(e):
    if e[0] == "f":
        return Fbits(e[1])
    if e[0] == "i":
        return I(e[1])
    return B(e[1])


def tabterm(kind, key, kids):
    if all(k.op == "i" for k in kids):
        d = TABLES[key]
        try:
            for k in kids:
                if k.a[0] < 0:
                    raise IndexError
                d = d[k.a[0]]
            return lit(d)
        except IndexError:
            return top(kind)
    return mk("app", kind, "tab", key, *kids)


def _reb_app(kind, name, *rest):
    if name == "tab":
        return tabterm(kind, rest[0], rest[1:])
    return mk("app", kind, name, *rest)


from . import term as _t
_t._rebuild["app"] = _reb_app


def is_nonzero(t):
    return t["k"] == "adt" and t["path"].endswith("nonzero::NonZero")


def is_nz_inner(t):
    return t["k"] == "adt" and ("NonZeroUsizeInner" in t["path"] or "NonZeroU32Inner" in t["path"] or "num::niche_types" in t["path"])


class Frame:
    def __init__(self, I_, bid, body):
        self.I = I_
        self.bid = bid
        self.b = body
        I_.nextc += 1
        self.id = I_.nextc
        self.cfg = I_.p.cfg(bid)
        self._cells = {}

    def cell(self, l):
        c = self._cells.get(l)
        if c is None:
            c = self._cells[l] = "f%d.%d" % (self.id, l)
        return c

    def setup(self, st, args):
        b = self.b
        if b.get("spread") is not None and args:
            # last argument is a tuple spread over remaining params: keep as one tuple local
            pass
        if len(args) != b["argc"]:
            # closure bodies called with (self, (a, b, ..)) tuple
            if len(args) == 2 and isinstance(args[1], N) and args[1].k == "tup" and len(args[1].c) == b["argc"] - 1:
                args = [args[0]] + list(args[1].c)
            else:
                raise Limit("argument count of %s" % b["path"])
        for i, a in enumerate(args):
            st.cells[self.cell(i + 1)] = a

    # ---- region execution
    def run_region(self, start, st, loop_blocks, header):
        """execute blocks from start in reverse post-order; inside a loop region (loop_blocks) edges to
        the header are collected under 'cont' and edges leaving it under ('exit', target)."""
        I_, cfg = self.I, self.cfg
        if cfg.irreducible:
            raise Limit("irreducible control flow")
        inc = {start: [st]}
        out = {}
        order = cfg.rpo
        todo = [n for n in order if loop_blocks is None or n in loop_blocks]
        # blocks in rpo starting with start
        done = set()

        def edge(src, dst, s):
            if s is None or s.pc is FALSE:
                return
            if loop_blocks is not None:
                if dst == header:
                    out.setdefault("cont", []).append(s)
                    return
                if dst not in loop_blocks:
                    out.setdefault(("exit", dst), []).append(s)
                    return
            inc.setdefault(dst, []).append(s)

        skip = set()
        for n in todo:
            if n in skip:
                continue
            ins = inc.pop(n, None)
            if not ins:
                continue
            s = ins[0] if len(ins) == 1 else I_.merge([(x, x.pc) for x in ins], None)
            if n in cfg.loops and not (loop_blocks is not None and n == header):
                # nested / first loop at n
                lb = cfg.loops[n]
                skip |= lb
                for key, es in self.run_loop(n, lb, s):
                    edge(n, key[1], es) if key[0] == "exit" else out.setdefault(key[0], []).append(es)
                continue
            self.block(n, s, edge, out)
        res = {}
        for k, v in out.items():
            res[k] = v[0] if len(v) == 1 else I_.merge([(x, x.pc) for x in v], None)
        return res

    def run_loop(self, header, lb, st):
        I_ = self.I

        def body(s, k):
            r = self.run_region(header, s, lb, header)
            cont = r.pop("cont", None)
            return cont, list(r.items())
        if I_.unroll:
            cur, out = st, []
            for _ in range(I_.unroll):
                cur, exits = body(cur, None)
                out += [((key if isinstance(key, tuple) else (key,)), s) for key, s in exits]
                if cur is None or cur.pc is FALSE:
                    return out
        kv, n, exits, _ = I_.loop(st, body, None)
        out = []
        for key, s in exits:
            out.append((key if isinstance(key, tuple) else (key,), s))
        return out

    def block(self, n, st, edge, out):
        I_ = self.I
        I_.visited_blocks += 1
        bb = self.b["blocks"][n]
        st = st.copy()
        for s in bb["s"]:
            self.stmt(st, s)
        t = bb["t"]
        k = t[0]
        if k == "goto":
            edge(n, t[1], st)
        elif k == "ret":
            out.setdefault("ret", []).append(st)
        elif k in ("unreachable", "resume"):
            return
        elif k == "drop":
            edge(n, t[2], st)
        elif k == "switch":
            self.switch(n, st, t, edge)
        elif k == "assert":
            c = self.operand(st, t[1])
            if not isinstance(c, T):
                c = top("bool")
            g = c if t[2] else bnot(c)
            I_.obligation(t[3], st, g, t[6] if len(t) > 6 else None)
            if I_.release and t[3].startswith("overflow"):
                edge(n, t[5], st)
                return
            if g is FALSE:
                return
            if not I_.ent(st, g):       # a proved assertion adds nothing to the path facts
                I_.assume(st, g)
            edge(n, t[5], st)
        elif k == "call":
            self.call(n, st, t, edge)
        else:
            raise Limit("terminator %s" % k)

    def switch(self, n, st, t, edge):
        I_ = self.I
        d = self.operand(st, t[1])
        ty = I_.p.types[t[2]]
        if not isinstance(d, T):
            I_.limit("switch on %r" % (d,))
            d = top("int")
        d = I_.simp(st, d)
        neg = TRUE
        for val, bb in t[3]:
            v = int(val)
            if ty["k"] != "bool":
                I_.seen[v] = True
            if d.knd == "bool":
                c = bnot(d) if v == 0 else d
            elif d.knd == "float":
                raise Limit("switch on float")
            else:
                c = ieq(d, I(I_.signed(ty, v)))
            cc = band(neg, c)
            neg = band(neg, bnot(c))
            s2 = st.copy()
            if cc is FALSE or I_.ent(st, bnot(cc)):
                continue
            if not I_.ent(st, cc):
                I_.assume(s2, cc)
            edge(n, bb, s2)
        if t[4] is not None:
            if neg is FALSE or I_.ent(st, bnot(neg)):
                return
            if not I_.ent(st, neg):
                I_.assume(st, neg)
            edge(n, t[4], st)

    def call(self, n, st, t, edge):
        I_ = self.I
        _, f, args, dest, target, span, argtys, destty = t[:8]
        av = [self.operand(st, a) for a in args]
        if "op" in f:
            fv = self.operand(st, f["op"])
            v, st2 = I_.call_value(st, fv, av)
        else:
            v, st2 = I_.call_def(st, f["def"], av, destty, argtys, span)
        if st2 is None or st2.pc is FALSE or target is None:
            return
        if st2 is st:
            st2 = st.copy()
        self.assign(st2, dest, v)
        edge(n, target, st2)

    # ---- places
    def place(self, st, pl):
        """-> (cell, projs) with derefs resolved"""
        I_ = self.I
        cell, projs = self.cell(pl[0]), []
        for p in pl[1:]:
            k = p[0]
            if k == "d":
                v = I_.read(st, I_.cellv(st, cell), projs)
                if isinstance(v, N) and v.k == "ref":
                    cell, projs = I_.unref(v)
                elif isinstance(v, N) and v.k == "box":
                    cell, projs = v.s, []
                elif isinstance(v, N) and v.k in ("ctab", "str"):
                    cell, projs = I_.alloc(st, v), []
                elif isinstance(v, IteV):
                    return ("multi", v, pl, pl.index(p)), None
                else:
                    cell, projs = I_.alloc(st, TopV("deref of %r" % (v,))), []
            elif k == "f":
                projs = projs + [("f", p[1])]
            elif k == "v":
                projs = projs + [("v", p[1])]
            elif k == "i":
                t = I_.cellv(st, self.cell(p[1]))
                projs = projs + [("i", t if isinstance(t, T) else top("int"))]
            elif k == "c":
                off = p[1]
                if p[3]:
                    ln = I_.vlen(I_.read(st, I_.cellv(st, cell), projs))
                    projs = projs + [("i", isub(ln, I(off)))]
                else:
                    projs = projs + [("i", I(off))]
            elif k == "s":
                if p[3]:
                    ln = I_.vlen(I_.read(st, I_.cellv(st, cell), projs))
                    projs = projs + [("s", I(p[1]), isub(ln, I(p[2])))]
                else:
                    projs = projs + [("s", I(p[1]), I(p[2]))]
            elif k == "o":
                pass
        return cell, projs

    def read_place(self, st, pl):
        I_ = self.I
        cell, projs = self.place(st, pl)
        if isinstance(cell, tuple):
            _, v, pl, i = cell
            rest = pl[i + 1:]
            return self.read_multi(st, v, rest)
        return I_.read(st, I_.cellv(st, cell), projs)

    def read_multi(self, st, v, rest):
        """read through a gated reference"""
        I_ = self.I
        if isinstance(v, IteV):
            return vite(v.c, self.read_multi(st, v.a, rest), self.read_multi(st, v.b, rest))
        nm = "tmp%d" % self.id
        self._cells[nm] = nm
        st.cells[nm] = v
        r = self.read_place(st, [nm, ["d"]] + list(rest))
        return r

    def ref_place(self, st, pl, mut):
        I_ = self.I
        cell, projs = self.place(st, pl)
        if isinstance(cell, tuple):
            _, v, pl, i = cell
            return self.ref_multi(st, v, pl[i + 1:], mut)
        return self.mkref(st, cell, projs, mut)

    def mkref(self, st, cell, projs, mut):
        return self.I.ref(cell, projs, mut)

    def ref_multi(self, st, v, rest, mut):
        if isinstance(v, IteV):
            return vite(v.c, self.ref_multi(st, v.a, rest, mut), self.ref_multi(st, v.b, rest, mut))
        nm = "tmp%d" % self.id
        self._cells[nm] = nm
        st.cells[nm] = v
        return self.ref_place(st, [nm, ["d"]] + list(rest), mut)

    def assign(self, st, pl, v):
        I_ = self.I
        cell, projs = self.place(st, pl)
        if isinstance(cell, tuple):
            _, m, pl, i = cell
            self.assign_multi(st, m, pl[i + 1:], v)
            return
        if not projs:
            st.cells[cell] = v
            return
        old = st.cells.get(cell)
        if old is None:
            # partial initialisation of an undefined aggregate
            ty = I_.p.types[self.b["locals"][pl[0]]] if isinstance(pl[0], int) else None
            old = TopV("uninit")
            if ty is not None and ty["k"] == "tuple":
                old = tup(*[TopV("uninit") for _ in ty["args"]])
        st.cells[cell] = I_.write(st, old, projs, v)

    def assign_multi(self, st, m, rest, v):
        if isinstance(m, IteV):
            r1 = self.read_multi(st, m.a, rest)
            self.assign_multi(st, m.a, rest, vite(m.c, v, r1))
            r2 = self.read_multi(st, m.b, rest)
            self.assign_multi(st, m.b, rest, vite(bnot(m.c), v, r2))
            return
        nm = "tmp%d" % self.id
        self._cells[nm] = nm
        st.cells[nm] = m
        self.assign(st, [nm, ["d"]] + list(rest), v)

    def operand(self, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(st, o[1])
        if k == "k":
            return self.I.const(st, o[1])
        return FALSE   # runtime checks (UB checks) are off

    def optype(self, o):
        if o[0] == "k":
            return o[1]["ty"]
        return self.plty(o[1])

    def plty(self, pl):
        p = self.I.p
        t = self.b["locals"][pl[0]]
        vi = 0
        for e in pl[1:]:
            tt = p.types[t]
            if e[0] == "d":
                t = tt["ty"] if "ty" in tt else (tt["args"][0] if tt.get("args") else t)
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = tt["ty"]
        return t

    # ---- statements
    def stmt(self, st, s):
        if s[0] == "=":
            v = self.rvalue(st, s[2], s[1])
            self.assign(st, s[1], v)
        elif s[0] == "sd":
            v = self.read_place(st, s[1])
            if isinstance(v, Adt):
                self.assign(st, s[1], Adt(v.ty, v.path, I(s[2]), v.vs))
            else:
                self.assign(st, s[1], TopV("set discriminant"))
        else:
            self.I.limit("statement %s" % s)

    def rvalue(self, st, r, dest):
        I_ = self.I
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "repeat":
            v = self.operand(st, r[1])
            n = r[2]
            n = int(n) if not isinstance(n, dict) else None
            if n is None:
                return TopV("repeat")
            if n <= 16:
                return N("arr", None, [v] * n)
            return Lam([I(n)], [fresh("i", "int", 0)], v)
        if k == "ref":
            return self.ref_place(st, r[2], r[1])
        if k == "rawptr":
            return self.ref_place(st, r[1] if isinstance(r[1], list) else r[2], True)
        if k == "cast":
            return self.cast(st, r)
        if k == "bin":
            return self.binop(st, r)
        if k == "un":
            return self.unop(st, r)
        if k == "discr":
            v = self.read_place(st, r[1])
            return self.discr(st, v)
        if k == "agg":
            vals = [self.operand(st, o) for o in r[2]]
            a = r[1]
            if a[0] == "tuple":
                return tup(*vals)
            if a[0] == "array":
                return N("arr", None, vals)
            if a[0] == "closure":
                return N("clo", (a[3], a[2]), vals)
            if a[0] == "adt":
                t = I_.p.types[a[1]]
                if is_nonzero(t) or is_nz_inner(t):
                    return vals[0] if vals else TopV("nonzero")
                if self.b.get("local") and I_.record:
                    I_.models.on_construct(I_, st, a[1], a[2], vals, self)
                return Adt(a[1], t["path"], I(a[2]), {a[2]: tuple(vals)})
            return TopV("aggregate %s" % a[0])
        return TopV("rvalue %s" % k)

    def discr(self, st, v):
        if isinstance(v, IteV):
            return ite(v.c, self.discr(st, v.a), self.discr(st, v.b))
        if isinstance(v, Adt):
            t = self.I.p.types[v.ty] if isinstance(v.ty, int) else None
            ds = None
            if t is not None and t.get("variants"):
                ds = []
                for i, x in enumerate(t["variants"]):
                    d = x.get("discr")
                    ds.append(int(d) if d is not None else i)
            if ds is None or ds == list(range(len(ds))):
                if v.path.endswith("cmp::Ordering"):
                    return isub(v.d, ONE)
                return v.d
            if v.path.endswith("cmp::Ordering"):
                return isub(v.d, ONE)
            if v.d.op == "i":
                return I(ds[v.d.a[0]])
            r = I(ds[-1])
            for i in range(len(ds) - 2, -1, -1):
                r = ite(ieq(v.d, I(i)), I(ds[i]), r)
            return r
        return top("int")

    def intty(self, tid):
        t = self.I.p.types[tid]
        if t["k"] == "int":
            return t["bits"], bool(t.get("signed"))
        if t["k"] == "char":
            return 32, False
        if is_nonzero(t):
            return self.intty(t["args"][0])
        return None

    def rng(self, b, s):
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)

    def norm(self, st, t, b, s):
        lo, hi = self.rng(b, s)
        if t.op == "i":
            return wrap(t, b, s)
        l, h = bounds(t)
        if l is not None and h is not None and lo <= l and h <= hi:
            return t
        if self.I.ent(st, ile(I(lo), t)) and self.I.ent(st, ile(t, I(hi))):
            return t
        return wrap(t, b, s)

    def cast(self, st, r):
        I_ = self.I
        kind, op, ty = r[1], r[2], r[3]
        v = self.operand(st, op)
        t = I_.p.types[ty]
        if kind.startswith("PC:"):
            if "Unsize" in kind and isinstance(v, N) and v.k in ("box",):
                return v
            return v
        if kind == "BoxDerefTransmute":
            if isinstance(v, N) and v.k == "box":
                return I_.ref(v.s)
            if isinstance(v, IteV):
                f = lambda x: IteV(x.c, f(x.a), f(x.b)) if isinstance(x, IteV) else (I_.ref(x.s) if isinstance(x, N) and x.k == "box" else x)
                return f(v)
            return v
        if kind in ("IntToInt",):
            src = self.optype(op)
            if not isinstance(v, T):
                return top("int") if not isinstance(v, Adt) else self.norm_or_top(st, self.discr(st, v), ty)
            if v.knd == "bool":
                return ite(v, ONE, ZERO)
            if v.knd != "int":
                return top("int")
            bs = self.intty(ty)
            if bs is None:
                return v
            return self.norm(st, v, *bs)
        if kind == "IntToFloat":
            if not isinstance(v, T):
                return top("float")
            return self.tofloat(v, t)
        if kind == "FloatToFloat":
            if not isinstance(v, T):
                return top("float")
            if t.get("bits") == 64 or t["s"] == "f64":
                return v
            return I_.models.f32(v)
        if kind == "FloatToInt":
            bs = self.intty(ty)
            if not isinstance(v, T) or bs is None:
                return top("int")
            c = fconst(v)
            if c is not None:
                lo, hi = self.rng(*bs)
                return I(0 if c != c else int(max(lo, min(hi, c))) if abs(c) != float("inf") else (hi if c > 0 else lo))
            if v.op == "i2f":
                return self.norm(st, v.a[0], *bs)
            return mk("f2i", v, bs[0], bs[1])
        if kind in ("Transmute",):
            if isinstance(v, N) and v.k == "box":
                return I_.ref(v.s)
            src = I_.p.types[self.optype(op)]
            if isinstance(v, T) and v.knd == "float" and t["k"] == "int":
                return self.tobits(v)
            if isinstance(v, T) and v.knd == "int" and t["k"] == "float":
                return self.frombits(v)
            return v
        if kind in ("PtrToPtr", "Subtype", "FnPtrToPtr"):
            return v
        I_.limit("cast %s" % kind)
        return TopV("cast %s" % kind)

    def norm_or_top(self, st, v, ty):
        bs = self.intty(ty)
        return self.norm(st, v, *bs) if bs else v

    def tofloat(self, v, t):
        if v.knd != "int":
            return top("float")
        if t.get("bits") == 32:
            lo, hi = bounds(v)
            exact = lo is not None and hi is not None and -(1 << 24) <= lo and hi <= 1 << 24
            return i2f(v) if exact else self.I.models.f32(i2f(v))
        return i2f(v)

    def tobits(self, v):
        c = fconst(v)
        import struct
        if c is not None:
            return I(struct.unpack("<Q", struct.pack("<d", c))[0])
        return mk("app", "int", "bits", v)

    def frombits(self, v):
        if v.op == "i":
            return Fbits(v.a[0] & U64)
        if v.op == "app" and v.a[1] == "bits":
            return v.a[2]
        return mk("app", "float", "frombits", v)

    def binop(self, st, r):
        I_ = self.I
        op, a, b = r[1], self.operand(st, r[2]), self.operand(st, r[3])
        ta = self.optype(r[2])
        tt = I_.p.types[ta]
        if isinstance(a, N) and isinstance(b, N) and op in ("Eq", "Ne") and a.k == b.k == "tup" and not a.c:
            return TRUE if op == "Eq" else FALSE
        if not isinstance(a, T) or not isinstance(b, T):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return top("bool")
            if op.endswith("WithOverflow"):
                return tup(top("int"), top("bool"))
            return top("float" if tt["k"] == "float" else "bool" if tt["k"] == "bool" else "int")
        if tt["k"] == "float":
            v = self.fop(op, a, b)
            return I_.models.f32(v) if tt.get("bits") == 32 and v.knd == "float" and v.op != "top" else v
        if a.knd == "bool" and b.knd == "bool":
            if op == "Eq":
                return beq(a, b)
            if op == "Ne":
                return bnot(beq(a, b))
            if op == "BitAnd":
                return band(a, b)
            if op == "BitOr":
                return bor(a, b)
            if op == "BitXor":
                return bnot(beq(a, b))
            if op in ("Lt",):
                return band(bnot(a), b)
            if op == "Le":
                return bor(bnot(a), b)
            if op == "Gt":
                return band(a, bnot(b))
            if op == "Ge":
                return bor(a, bnot(b))
            return top("bool")
        bs = self.intty(ta)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return {"Eq": ieq(a, b), "Ne": bnot(ieq(a, b)), "Lt": ilt(a, b), "Le": ile(a, b), "Gt": ilt(b, a), "Ge": ile(b, a)}[op]
        if bs is None:
            return top("int")
        lo, hi = self.rng(*bs)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            v = {"Add": iadd, "Sub": isub, "Mul": imul}[base](a, b)
            if op.endswith("WithOverflow"):
                ok = band(ile(I(lo), v), ile(v, I(hi)))
                if I_.ent(st, ok):
                    return tup(v, FALSE)
                if self.b.get("local") and not I_.release:
                    # guarded by the assert that follows; the wrapped value is never used
                    return tup(v, bnot(ok))
                return tup(ite(ok, v, wrap(v, *bs)), bnot(ok))
            if op.endswith("Unchecked"):
                return v
            return self.norm(st, v, *bs)
        if base == "Div":
            if bs[1]:
                return self.norm(st, idiv(a, b), *bs)
            return idiv(a, b)
        if base == "Rem":
            return irem(a, b)
        if base in ("Shl", "Shr") and b.op == "i" and 0 <= b.a[0] < bs[0]:
            if base == "Shl":
                return self.norm(st, iscale(a, 1 << b.a[0]), *bs)
            l, _ = bounds(a)
            if a.op == "i":
                return I(a.a[0] >> b.a[0])
            if l is not None and l >= 0:
                return idiv(a, I(1 << b.a[0]))
        if base in ("BitAnd", "BitOr", "BitXor") and a.op == "i" and b.op == "i":
            x, y = a.a[0], b.a[0]
            return I({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[base])
        if base == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if y.op == "i" and y.a[0] >= 0 and (y.a[0] + 1) & y.a[0] == 0:
                    l, _ = bounds(x)
                    if l is not None and l >= 0:
                        return irem(x, I(y.a[0] + 1))
        if base == "Cmp":
            d = ite(ilt(a, b), ZERO, ite(ieq(a, b), ONE, I(2)))
            return Adt(None, "core::cmp::Ordering", d, {0: (), 1: (), 2: ()})
        return mk("bitop", base, a, b, bs[0], bs[1])

    def fop(self, op, a, b):
        m = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}
        if op in m:
            return mk(m[op], a, b)
        if op == "Eq":
            return fcmp("feq", a, b)
        if op == "Ne":
            return bnot(fcmp("feq", a, b))
        if op == "Lt":
            return fcmp("flt", a, b)
        if op == "Le":
            return fcmp("fle", a, b)
        if op == "Gt":
            return fcmp("flt", b, a)
        if op == "Ge":
            return fcmp("fle", b, a)
        return top("float")

    def unop(self, st, r):
        I_ = self.I
        v = self.operand(st, r[2])
        op = r[1]
        if op == "PtrMetadata":
            if isinstance(v, (N, IteV)):
                return I_.vlen(I_.load(st, v))
            return top("int")
        if not isinstance(v, T):
            return top("int")
        if op == "Not":
            if v.knd == "bool":
                return bnot(v)
            bs = self.intty(self.optype(r[2]))
            if bs and not bs[1]:
                return isub(I((1 << bs[0]) - 1), v)
            return isub(I(-1), v)
        if op == "Neg":
            if v.knd == "float":
                c = fconst(v)
                if v.op == "f":
                    return F(-c)
                return mk("fneg", v)
            bs = self.intty(self.optype(r[2]))
            return self.norm(st, iscale(v, -1), *bs)
        return top("int")
