"""Structured abstract values over terms."""
from .term import *


class V:
    __slots__ = ()


class N(V):
    """uniform node: kind, static data, children (T or V)"""
    __slots__ = ("k", "s", "c")

    def __init__(self, k, s, c):
        self.k, self.s, self.c = k, s, tuple(c)

    def __repr__(self):
        return "%s%s%s" % (self.k, "" if self.s is None else "<%s>" % (str(self.s)[:60],), list(self.c))


class Adt(V):
    """d: variant index term; vs: {variant index: tuple of fields}"""
    __slots__ = ("ty", "path", "d", "vs")

    def __init__(self, ty, path, d, vs):
        self.ty, self.path, self.d, self.vs = ty, path, d, vs

    def __repr__(self):
        return "%s{%s:%s}" % (self.path, self.d, self.vs)


class Lam(V):
    """array-like value: dims (terms), bound variables, element value. sort: None or registry id"""
    __slots__ = ("n", "bv", "body")

    def __init__(self, n, bv, body):
        self.n, self.bv, self.body = tuple(n), tuple(bv), body

    def at(self, idx):
        return vsubst(self.body, dict(zip(self.bv, idx)))

    def __repr__(self):
        return "[%s; |%s| %s]" % (",".join(map(str, self.n)), ",".join(map(str, self.bv)), self.body)


class IteV(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "IteV(%s,%s,%s)" % (self.c, self.a, self.b)


class TopV(V):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


def tup(*xs):
    return N("tup", None, xs)


UNIT = N("tup", None, ())


def vmap(v, f):
    """apply f to every scalar leaf term"""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, N):
        c = tuple(vmap(x, f) for x in v.c)
        return v if all(x is y for x, y in zip(c, v.c)) else N(v.k, v.s, c)
    if isinstance(v, Adt):
        d = f(v.d)
        vs = {}
        ch = d is not v.d
        for k, fs in v.vs.items():
            nf = tuple(vmap(x, f) for x in fs)
            ch = ch or any(x is not y for x, y in zip(nf, fs))
            vs[k] = nf
        return Adt(v.ty, v.path, d, vs) if ch else v
    if isinstance(v, Lam):
        n = tuple(f(x) for x in v.n)
        b = vmap(v.body, f)
        return v if b is v.body and all(x is y for x, y in zip(n, v.n)) else Lam(n, v.bv, b)
    if isinstance(v, IteV):
        c, a, b = f(v.c), vmap(v.a, f), vmap(v.b, f)
        if c is v.c and a is v.a and b is v.b:
            return v
        return vite(c, a, b)
    return v


def vsubst(v, m):
    if not m:
        return v
    memo = {}
    ks = m.keys()

    def f(t):
        if not t.fv or t.fv.isdisjoint(ks):
            return t
        return subst(t, m, memo)
    return vmap(v, f)


def vleaves(v, out=None):
    out = [] if out is None else out
    vmap(v, lambda t: (out.append(t), t)[1])
    return out


def vdepth(v):
    return max([bdepth(t) for t in vleaves(v)] + [0])


def vkey(v):
    """structural key, alpha-canonical in Lam binders"""
    if isinstance(v, T):
        return v.id
    if isinstance(v, N):
        return (v.k, v.s, tuple(vkey(x) for x in v.c))
    if isinstance(v, Adt):
        return ("adt", v.path, v.d.id, tuple((k, tuple(vkey(x) for x in fs)) for k, fs in sorted(v.vs.items())))
    if isinstance(v, Lam):
        bs = [mk("var", "L%d'" % i, "int", None, None) for i in range(len(v.bv))]
        # nested lambdas: distinguish by depth
        d = _lamdepth(v.body)
        bs = [mk("var", "L%d.%d'" % (d, i), "int", None, None) for i in range(len(v.bv))]
        return ("lam", tuple(x.id for x in v.n), vkey(vsubst(v.body, dict(zip(v.bv, bs)))))
    if isinstance(v, IteV):
        return ("ite", v.c.id, vkey(v.a), vkey(v.b))
    return ("top", id(v))


def _lamdepth(v):
    if isinstance(v, T):
        return 0
    if isinstance(v, N):
        return max([_lamdepth(x) for x in v.c] + [0])
    if isinstance(v, Adt):
        return max([_lamdepth(x) for fs in v.vs.values() for x in fs] + [0])
    if isinstance(v, Lam):
        return 1 + _lamdepth(v.body)
    if isinstance(v, IteV):
        return max(_lamdepth(v.a), _lamdepth(v.b))
    return 0


def vite(c, a, b):
    """structural merge"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, T) and isinstance(b, T):
        if a.knd != b.knd:
            return TopV("kind mismatch in merge")
        return ite(c, a, b)
    if isinstance(a, TopV):
        return a
    if isinstance(b, TopV):
        return b
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k and a.s == b.s and len(a.c) == len(b.c):
        return N(a.k, a.s, [vite(c, x, y) for x, y in zip(a.c, b.c)])
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
        vs = {}
        for k in sorted(set(a.vs) | set(b.vs)):
            if k in a.vs and k in b.vs:
                if len(a.vs[k]) != len(b.vs[k]):
                    return IteV(c, a, b)
                vs[k] = tuple(vite(c, x, y) for x, y in zip(a.vs[k], b.vs[k]))
            else:
                vs[k] = a.vs.get(k, b.vs.get(k))
        return Adt(a.ty, a.path, ite(c, a.d, b.d), vs)
    if isinstance(a, Lam) and isinstance(b, Lam) and len(a.n) == len(b.n):
        m = dict(zip(b.bv, a.bv))
        return Lam([ite(c, x, y) for x, y in zip(a.n, b.n)], a.bv, vite(c, a.body, vsubst(b.body, m)))
    if isinstance(a, N) and a.k == "arr" and isinstance(b, Lam) and len(b.n) == 1:
        return vite(c, arr2lam(a), b)
    if isinstance(b, N) and b.k == "arr" and isinstance(a, Lam) and len(a.n) == 1:
        return vite(c, a, arr2lam(b))
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k == "arr":
        return vite(c, arr2lam(a), arr2lam(b))
    return IteV(c, a, b)


def arr2lam(a):
    bv = fresh("i", "int", 0)
    body = None
    for i in range(len(a.c) - 1, -1, -1):
        body = a.c[i] if body is None else vite(ieq(bv, I(i)), a.c[i], body)
    if body is None:
        body = TopV("empty array element")
    return Lam([I(len(a.c))], [bv], body)


def has_top(v):
    if isinstance(v, T):
        return contains_op(v, ("top",))
    if isinstance(v, TopV):
        return True
    if isinstance(v, N):
        return any(has_top(x) for x in v.c)
    if isinstance(v, Adt):
        return has_top(v.d) or any(has_top(x) for fs in v.vs.values() for x in fs)
    if isinstance(v, Lam):
        return any(has_top(x) for x in v.n) or has_top(v.body)
    if isinstance(v, IteV):
        return has_top(v.a) or has_top(v.b) or has_top(v.c)
    return False


# registry of derived sequences (sorted views, eigen decompositions); keyed structurally
class Reg:
    def __init__(self):
        self.by = {}
        self.obj = []

    def get(self, key, make):
        if key not in self.by:
            self.by[key] = len(self.obj)
            self.obj.append(make())
        return self.by[key]


REG = Reg()
