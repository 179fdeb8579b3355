"""Hash-consed terms of the value-numbering domain.

Integers are kept in canonical polynomial form over atoms (scalar evolution form), booleans in a
light normal form, floating-point values as exact operation trees (so that bit-identical
computations get identical value numbers)."""
import struct
from fractions import Fraction

_tab = {}


class T:
    __slots__ = ("op", "a", "id", "fv", "knd")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_n = [0]
EMPTY = frozenset()


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.a = op, a
    _n[0] += 1
    t.id = _n[0]
    _tab[k] = t
    # free variables
    if op == "var":
        t.fv = frozenset([t])
    else:
        s = EMPTY
        for x in _kids(t):
            if x.fv:
                s = s | x.fv if s else x.fv
        b = _binders(t)
        if b:
            s = s - frozenset(b)
        t.fv = s
    t.knd = _kind(t)
    return t


def _kids(t):
    op, a = t.op, t.a
    if op == "poly":
        out = []
        for m, _ in a[1]:
            out.extend(m)
        return out
    if op == "rec":  # idx, n, bv, phis, inits, nexts
        return (a[1],) + a[4] + a[5]
    out = []
    for x in a:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    out.append(y)
    return out


def _binders(t):
    if t.op in ("sum", "prod", "isum", "trip"):
        return [t.a[0]]
    if t.op == "rec":
        return [t.a[2]] + list(t.a[3])
    return ()


def bdepth(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = 0
        for x in _kids(t):
            d = bdepth(x)
            if d > r:
                r = d
        if t.op in ("sum", "prod", "isum", "trip", "rec"):
            r += 1
        memo[t] = r
    return r


def binder(op, bv, n, body, *rest):
    """alpha-canonical binder term: op(bv, n, body, *rest); rest lies outside the binder"""
    d = bdepth(body) + 1
    c = mk("var", "k%d'" % d, "int", None, None)
    if c is not bv:
        body = subst(body, {bv: c})
    return mk(op, c, n, body, *rest)


def mktrip(bv, cond):
    """least k >= 0 with cond(k)"""
    d = bdepth(cond) + 1
    c = mk("var", "k%d'" % d, "int", None, None)
    return mk("trip", c, subst(cond, {bv: c}))


INT_OPS = {"i", "poly", "div", "rem", "f2i", "wrap", "isum", "trip", "bitop"}
BOOL_OPS = {"b", "le0", "eq0", "not", "and", "or", "flt", "fle", "feq", "isnan", "isfin"}


def _kind(t):
    op = t.op
    if op in INT_OPS:
        return "int"
    if op in BOOL_OPS:
        return "bool"
    if op == "var":
        return t.a[1]
    if op in ("sel", "app", "ext", "top"):
        return t.a[0]
    if op == "ite":
        return t.a[1].knd
    if op == "rec":
        return t.a[4][t.a[0]].knd
    if op == "opq":
        return "other"
    return "float"


# ------------------------------------------------------------------ ints
def I(n):
    return mk("i", int(n))


ZERO, ONE = None, None


def iconst(t):
    """value of a constant integer term, or None"""
    return t.a[0] if t.op == "i" else None


def poly_of(t):
    """dict monomial(tuple of atoms)->int"""
    if t.op == "i":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        d = dict(t.a[1])
        if t.a[0]:
            d[()] = t.a[0]
        return d
    return {(t,): 1}


def from_poly(d):
    c = d.get((), 0)
    rest = tuple(sorted(((m, k) for m, k in d.items() if k and m), key=lambda x: (len(x[0]), [y.id for y in x[0]])))
    if not rest:
        return I(c)
    if c == 0 and len(rest) == 1 and rest[0][1] == 1 and len(rest[0][0]) == 1:
        return rest[0][0][0]
    return mk("poly", c, rest)


def iadd(*ts):
    d = {}
    for t in ts:
        for m, k in poly_of(t).items():
            d[m] = d.get(m, 0) + k
    return from_poly(d)


def iscale(t, c):
    return from_poly({m: k * c for m, k in poly_of(t).items()})


def isub(a, b):
    return iadd(a, iscale(b, -1))


def imul(a, b):
    if a.op == "i":
        return iscale(b, a.a[0])
    if b.op == "i":
        return iscale(a, b.a[0])
    d = {}
    for m1, k1 in poly_of(a).items():
        for m2, k2 in poly_of(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + k1 * k2
    return from_poly(d)


def idiv(a, b):
    if a.op == "i" and b.op == "i" and b.a[0]:
        q = abs(a.a[0]) // abs(b.a[0])
        return I(q if (a.a[0] >= 0) == (b.a[0] >= 0) else -q)
    if b.op == "i" and b.a[0] == 1:
        return a
    if a.op == "ite" and b.op == "i":
        return ite(a.a[0], idiv(a.a[1], b), idiv(a.a[2], b))
    return mk("div", a, b)


def irem(a, b):
    if a.op == "i" and b.op == "i" and b.a[0]:
        x = abs(a.a[0]) % abs(b.a[0])
        return I(x if a.a[0] >= 0 else -x)
    if b.op == "i" and b.a[0] == 1:
        return I(0)
    if a.op == "ite" and b.op == "i":
        return ite(a.a[0], irem(a.a[1], b), irem(a.a[2], b))
    return mk("rem", a, b)


# ------------------------------------------------------------------ bools
TRUE = mk("b", True)
FALSE = mk("b", False)
ZERO, ONE = I(0), I(1)


def B(x):
    return TRUE if x else FALSE


def _gcdnorm(d, strict_le):
    from math import gcd
    g = 0
    for m, k in d.items():
        if m:
            g = gcd(g, abs(k))
    if g > 1:
        c = d.get((), 0)
        if strict_le:
            d = {m: k // g for m, k in d.items() if m}
            d[()] = -((-c) // g)  # ceil(c/g):  g*x + c <= 0  <=> x <= floor(-c/g)
        else:
            if c % g:
                return None
            d = {m: k // g for m, k in d.items()}
    return d


def le0(p):
    if p.op == "i":
        return B(p.a[0] <= 0)
    if p.op == "ite":
        return bite(p.a[0], le0(p.a[1]), le0(p.a[2]))
    d = _gcdnorm(poly_of(p), True)
    q = from_poly(d)
    # single ite atom with unit structure: push comparisons into small ites
    at = _single_ite(q)
    if at is not None:
        it, k, rest = at
        return bite(it.a[0], le0(iadd(iscale(it.a[1], k), rest)), le0(iadd(iscale(it.a[2], k), rest)))
    return mk("le0", q)


def _single_ite(q):
    if q.op != "poly":
        return None
    found = None
    for m, k in q.a[1]:
        if len(m) == 1 and m[0].op == "ite":
            if found is not None:
                return None
            found = (m[0], k, m)
        elif any(x.op == "ite" for x in m):
            return None
    if found is None:
        return None
    d = poly_of(q)
    d.pop(found[2])
    return found[0], found[1], from_poly(d)


def ile(a, b):
    return le0(isub(a, b))


def ilt(a, b):
    return le0(iadd(isub(a, b), ONE))


def eq0(p):
    if p.op == "i":
        return B(p.a[0] == 0)
    if p.op == "ite":
        return bite(p.a[0], eq0(p.a[1]), eq0(p.a[2]))
    d = _gcdnorm(poly_of(p), False)
    if d is None:
        return FALSE
    # sign normal form
    ms = sorted((m for m in d if m), key=lambda m: (len(m), [y.id for y in m]))
    if ms and d[ms[0]] < 0:
        d = {m: -k for m, k in d.items()}
    q = from_poly(d)
    at = _single_ite(q)
    if at is not None:
        it, k, rest = at
        return bite(it.a[0], eq0(iadd(iscale(it.a[1], k), rest)), eq0(iadd(iscale(it.a[2], k), rest)))
    if q.op not in ("poly", "i") and q.op == "ite":
        return bite(q.a[0], eq0(q.a[1]), eq0(q.a[2]))
    return mk("eq0", q)


def ieq(a, b):
    return eq0(isub(a, b))


_bn = {}


def bnot(x):
    r = _bn.get(x)
    if r is None:
        r = _bn[x] = _bnot(x)
    return r


def _bnot(x):
    if x.op == "b":
        return B(not x.a[0])
    if x.op == "not":
        return x.a[0]
    if x.op == "le0":  # !(p<=0) <=> p>=1 <=> 1-p<=0
        return le0(isub(ONE, x.a[0]))
    if x.op == "and":
        return bor(*[bnot(y) for y in x.a[0]])
    if x.op == "or":
        return band(*[bnot(y) for y in x.a[0]])
    return mk("not", x)


def band(*xs):
    s = {}
    for x in xs:
        if x.op == "and":
            for y in x.a[0]:
                s[y] = 1
        else:
            s[x] = 1
    if FALSE in s:
        return FALSE
    s.pop(TRUE, None)
    for x in list(s):
        if bnot(x) in s:
            return FALSE
    # absorption with or: x & (x|y) = x ; x & (!x | y) = x & y
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == "or":
                if any(y in s for y in x.a[0]):
                    del s[x]
                    changed = True
                    break
                keep = [y for y in x.a[0] if not _neg_in(y, s)]
                if len(keep) < len(x.a[0]):
                    del s[x]
                    n = bor(*keep)
                    r = band(n, *s)
                    return r
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda t: t.id)))


def _neg_in(y, s):
    n = bnot(y)
    if n in s:
        return True
    if n.op == "and":
        return all(z in s for z in n.a[0])
    return False


def bor(*xs):
    s = {}
    for x in xs:
        if x.op == "or":
            for y in x.a[0]:
                s[y] = 1
        else:
            s[x] = 1
    if TRUE in s:
        return TRUE
    s.pop(FALSE, None)
    for x in list(s):
        if bnot(x) in s:
            return TRUE
    changed = True
    while changed:
        changed = False
        for x in list(s):
            if x.op == "and":
                if any(y in s for y in x.a[0]):
                    del s[x]
                    changed = True
                    break
                keep = [y for y in x.a[0] if not _pos_neg_in_or(y, s)]
                if len(keep) < len(x.a[0]):
                    del s[x]
                    n = band(*keep)
                    return bor(n, *s)
    # (a & c) | (a & !c) = a
    ands = [x for x in s if x.op == "and"]
    for i in range(len(ands)):
        for j in range(i):
            p, q = set(ands[i].a[0]), set(ands[j].a[0])
            d1, d2 = p - q, q - p
            if len(d1) == 1 and len(d2) == 1:
                u, v = next(iter(d1)), next(iter(d2))
                if bnot(u) is v:
                    del s[ands[i]]
                    del s[ands[j]]
                    return bor(band(*(p & q)), *s)
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk("or", tuple(sorted(s, key=lambda t: t.id)))


def _pos_neg_in_or(y, s):
    n = bnot(y)
    if n in s:
        return True
    if n.op == "or":
        return all(z in s for z in n.a[0])
    return False


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def beq(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


# ------------------------------------------------------------------ ite
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.knd == "bool":
        return bite(c, a, b)
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == "ite" and b is a.a[2]:      # ite(c, ite(d,x,y), y) = ite(c&d, x, y)
        return ite(band(c, a.a[0]), a.a[1], b)
    if b.op == "ite" and a is b.a[1]:      # ite(c, x, ite(d,x,y)) = ite(c|d, x, y)
        return ite(bor(c, b.a[0]), a, b.a[2])
    return mk("ite", c, a, b)


def imax0(p):
    return ite(le0(p), ZERO, p)


def imin(a, b):
    if a is b:
        return a
    return ite(ile(a, b), a, b)


def imax(a, b):
    if a is b:
        return a
    return ite(ile(a, b), b, a)


# ------------------------------------------------------------------ floats
def F(x):
    return mk("f", struct.unpack("<Q", struct.pack("<d", float(x)))[0])


def Fbits(b):
    return mk("f", b)


def fval(t):
    return struct.unpack("<d", struct.pack("<Q", t.a[0]))[0]


def i2f(x):
    if x.op == "i" and abs(x.a[0]) <= 2 ** 53:
        return F(float(x.a[0]))
    if x.op == "ite":
        return ite(x.a[0], i2f(x.a[1]), i2f(x.a[2]))
    return mk("i2f", x)


def fbin(op, a, b):
    return mk(op, a, b)


def fconst(t):
    """value of a literal-only float tree in IEEE double arithmetic, or None"""
    if t.op == "f":
        return fval(t)
    if t.op in ("fadd", "fsub", "fmul", "fdiv"):
        x = fconst(t.a[0])
        if x is None:
            return None
        y = fconst(t.a[1])
        if y is None:
            return None
        return _arith(t.op, x, y)
    if t.op == "fneg":
        x = fconst(t.a[0])
        return None if x is None else -x
    if t.op == "fabs":
        x = fconst(t.a[0])
        return None if x is None else abs(x)
    return None


def _arith(op, x, y):
    import math
    if op == "fadd":
        return x + y
    if op == "fsub":
        return x - y
    if op == "fmul":
        return x * y
    try:
        return x / y
    except ZeroDivisionError:
        if x != x or x == 0:
            return math.nan
        return math.copysign(math.inf, x) * math.copysign(1.0, y)


def fcmp(op, a, b):
    """op in flt fle feq"""
    x, y = fconst(a), fconst(b)
    if x is not None and y is not None:
        return B({"flt": x < y, "fle": x <= y, "feq": x == y}[op])
    if a.op == "ite" and y is not None:
        return bite(a.a[0], fcmp(op, a.a[1], b), fcmp(op, a.a[2], b))
    if b.op == "ite" and x is not None:
        return bite(b.a[0], fcmp(op, a, b.a[1]), fcmp(op, a, b.a[2]))
    if op == "flt" and y is not None and y == float("inf") and a.op == "app" and a.a[1] == "fabs":
        return isfin(a.a[2])
    if op == "feq" and a is b:
        return bnot(isnan(a))
    if op == "feq" and b.id < a.id:
        a, b = b, a
    return mk(op, a, b)


def isnan(a):
    x = fconst(a)
    if x is not None:
        return B(x != x)
    return mk("isnan", a)


def isfin(a):
    import math
    x = fconst(a)
    if x is not None:
        return B(math.isfinite(x))
    return mk("isfin", a)


_cnt = [0]


def fresh(prefix, kind, lo=None, hi=None):
    _cnt[0] += 1
    return mk("var", "%s#%d" % (prefix, _cnt[0]), kind, lo, hi)


def var(name, kind, lo=None, hi=None):
    return mk("var", name, kind, lo, hi)


def sumt(bv, n, body, init=None):
    """sequential sum init + body(0) + ... + body(n-1)"""
    if body.knd == "int":
        if bv not in body.fv:
            r = imul(n, body)
        else:
            r = binder("isum", bv, n, body)
        return r if init is None else iadd(init, r)
    return binder("sum", bv, n, body, init if init is not None else F(-0.0))


def prodt(bv, n, body, init=None):
    return binder("prod", bv, n, body, init if init is not None else F(1.0))


def mkrec(idx, n, bv, phis, inits, nexts):
    """value of phi number idx after n rounds of the simultaneous recurrence phis := nexts(bv, phis)"""
    d = max(bdepth(x) for x in nexts) + 1
    m = {bv: mk("var", "k%d'" % d, "int", None, None)}
    ph = []
    for j, p in enumerate(phis):
        q = mk("var", "p%d.%d'" % (d, j), p.knd, None, None)
        m[p] = q
        ph.append(q)
    return mk("rec", idx, n, m[bv], tuple(ph), tuple(inits), tuple(subst(x, m) for x in nexts))


def top(kind):
    _cnt[0] += 1
    return mk("top", kind, _cnt[0])


# ------------------------------------------------------------------ traversal
_rebuild = {}


def rebuild(op, a):
    """smart constructor from op and new args"""
    if op == "poly":
        d = {}
        c, ms = a
        acc = I(c)
        parts = [acc]
        for m, k in ms:
            p = I(k)
            for x in m:
                p = imul(p, x)
            parts.append(p)
        return iadd(*parts)
    if op == "div":
        return idiv(*a)
    if op == "rem":
        return irem(*a)
    if op == "le0":
        return le0(*a)
    if op == "eq0":
        return eq0(*a)
    if op == "not":
        return bnot(*a)
    if op == "and":
        return band(*a[0])
    if op == "or":
        return bor(*a[0])
    if op == "ite":
        return ite(*a)
    if op == "i2f":
        return i2f(*a)
    if op in ("flt", "fle", "feq"):
        return fcmp(op, *a)
    if op == "isnan":
        return isnan(*a)
    if op == "isfin":
        return isfin(*a)
    if op in ("sum", "prod", "isum"):
        return binder(op, *a)
    if op == "trip":
        return mktrip(*a)
    if op == "rec":
        return mkrec(*a)
    if op == "wrap":
        return wrap(*a)
    if op in _rebuild:
        return _rebuild[op](*a)
    return mk(op, *a)


def wrap(x, bits, signed):
    if x.op == "i":
        v = x.a[0] & ((1 << bits) - 1)
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return I(v)
    return mk("wrap", x, bits, signed)


def subst(t, m, memo=None):
    """m: dict var->T"""
    if memo is None:
        memo = {}
    ks = m.keys()

    def go(t):
        if not t.fv or t.fv.isdisjoint(ks):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "var":
            r = m.get(t, t)
        elif t.op == "poly":
            r = rebuild("poly", (t.a[0], tuple((tuple(go(x) for x in mm), k) for mm, k in t.a[1])))
        else:
            b = _binders(t)
            if b and any(x in m for x in b):
                mm = {k: v for k, v in m.items() if k not in b}
                ins = subst(t, mm)
                # arguments outside the binder's scope see the full map
                if t.op in ("sum", "prod", "isum"):
                    r = mk(t.op, ins.a[0], go(t.a[1]), ins.a[2], *[go(x) for x in t.a[3:]])
                elif t.op == "rec":
                    r = mk("rec", ins.a[0], go(t.a[1]), ins.a[2], ins.a[3], tuple(go(x) for x in t.a[4]), ins.a[5])
                else:
                    r = ins
            else:
                na = []
                for x in t.a:
                    if isinstance(x, T):
                        na.append(go(x))
                    elif isinstance(x, tuple):
                        na.append(tuple(go(y) if isinstance(y, T) else y for y in x))
                    else:
                        na.append(x)
                r = rebuild(t.op, tuple(na))
        memo[t] = r
        return r
    return go(t)


def rewrite(t, f, memo=None):
    """bottom-up rewrite with f(term)->term or None"""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ("i", "b", "f", "var"):
            r = t
        elif t.op == "poly":
            r = rebuild("poly", (t.a[0], tuple((tuple(go(x) for x in mm), k) for mm, k in t.a[1])))
        else:
            na = []
            for x in t.a:
                if isinstance(x, T):
                    na.append(go(x))
                elif isinstance(x, tuple):
                    na.append(tuple(go(y) if isinstance(y, T) else y for y in x))
                else:
                    na.append(x)
            r = rebuild(t.op, tuple(na))
        y = f(r)
        if y is not None:
            r = y
        memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(_kids(x))
    return seen


def contains_op(t, ops):
    return any(x.op in ops for x in subterms(t))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 14:
        return "..."
    op, a = t.op, t.a
    if op in ("i", "b"):
        return str(a[0])
    if op == "f":
        return repr(fval(t))
    if op == "var":
        return a[0]
    s = lambda x: show(x, d + 1)
    if op == "poly":
        out = []
        for m, k in a[1]:
            mm = "*".join(s(x) for x in m)
            out.append(mm if k == 1 else "-" + mm if k == -1 else "%d*%s" % (k, mm))
        if a[0]:
            out.append(str(a[0]))
        return "(" + " + ".join(out) + ")"
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        return "(%s %s %s)" % (s(a[0]), {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op], s(a[1]))
    if op == "i2f":
        return "f64(%s)" % s(a[0])
    if op == "le0":
        return "(%s <= 0)" % s(a[0])
    if op == "eq0":
        return "(%s == 0)" % s(a[0])
    if op in ("flt", "fle", "feq"):
        return "(%s %s %s)" % (s(a[0]), {"flt": "<", "fle": "<=", "feq": "=="}[op], s(a[1]))
    if op == "not":
        return "!%s" % s(a[0])
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(s(x) for x in a[0]) + ")"
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(s(x) for x in a)
    if op in ("sum", "isum", "prod"):
        return "%s[%s<%s](%s)" % (op, s(a[0]), s(a[1]), s(a[2]))
    if op in ("app", "ext"):
        return "%s(%s)" % (a[1], ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[2:]))
    if op == "sel":
        return "%s[%s]%s" % (a[1], ", ".join(s(x) if isinstance(x, T) else str(x) for x in (a[2] if isinstance(a[2], tuple) else (a[2],))), a[3] if len(a) > 3 else "")
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else ("(" + ",".join(s(y) if isinstance(y, T) else str(y) for y in x) + ")" if isinstance(x, tuple) else str(x)) for x in a))
