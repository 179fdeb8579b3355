"""Text known at analysis time: the functions of `str` folded on it."""
import re
from .val import *
from . import models as M

FLOAT = re.compile(r"[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?)\Z", re.I | re.A)
INTS = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"}
WS = "".join(chr(k) for k in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000))


def rust_parse(s):
    return float(s) if FLOAT.match(s) else None


def int_parse(s, k):
    if not re.match(r"[+-]?[0-9]+\Z", s, re.A) or (s.startswith("-") and k[0] == "u"):
        return None
    b = 64 if k.endswith("size") else int(k[1:])
    v = int(s)
    lo, hi = (0, (1 << b) - 1) if k[0] == "u" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    return v if lo <= v <= hi else None


def f32_parse(s):
    import math
    import struct
    v = rust_parse(s)
    if v is None or v != v:
        return v
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def S(x):
    return N("str", x, ())


def pattern(c, x):
    """a text or character pattern known at analysis time, as a predicate on positions: (matches at i) -> length"""
    v = c.I.deep(c.st, x)
    if isinstance(v, N) and v.k == "str":
        return lambda s, i: len(v.s) if s.startswith(v.s, i) else None
    if isinstance(v, T) and v.knd == "int" and iconst(v) is not None:
        ch = chr(iconst(v))
        return lambda s, i: 1 if s[i:i + 1] == ch else None
    seq = list(v.c) if isinstance(v, N) and v.k == "arr" else None
    if seq is not None and all(isinstance(q, T) and iconst(q) is not None for q in seq):
        chars = {chr(iconst(q)) for q in seq}
        return lambda s, i: 1 if s[i:i + 1] in chars and i < len(s) else None
    if isinstance(v, N) and v.k in ("clo", "fn") or isinstance(x, N) and x.k in ("clo", "fn"):
        f = x if isinstance(x, N) and x.k in ("ref", "fn") else c.I.newref(c.st, x)

        def g(s, i):
            if i >= len(s):
                return None
            t = M.truth(c, f, [I(ord(s[i]))])
            if t is None:
                raise Unknown()
            return 1 if t else None
        return g
    raise Unknown()


class Unknown(Exception):
    pass


def chars_of(s):
    return N("arr", None, tuple(I(ord(x)) for x in s))


def bytes_of(s):
    return N("arr", None, tuple(I(x) for x in s.encode()))


def boundary(s, k):
    """character index of a byte offset, None when it is not a boundary"""
    b = s.encode()
    if not 0 <= k <= len(b) or (k < len(b) and b[k] & 0xc0 == 0x80):
        return None
    return len(b[:k].decode())


def rng(i, n):
    if not (isinstance(i, Adt) and "range::Range" in i.path):
        return None
    fs, p = i.vs.get(0, ()), i.path
    ks = [iconst(x) if isinstance(x, T) and x.knd == "int" else None for x in fs]
    if p.endswith("RangeFull"):
        return 0, n
    if any(k is None for k in ks[:2]):
        return None
    if p.endswith("RangeFrom"):
        return ks[0], n
    if p.endswith("RangeTo"):
        return 0, ks[0]
    if p.endswith("RangeToInclusive"):
        return 0, ks[0] + 1
    if p.endswith("RangeInclusive"):
        return ks[0], ks[1] + 1
    return ks[0], ks[1]


def owned_iter(items):
    return M.mkit(ZERO, I(len(items)), N("s_owned", None, (N("arr", None, tuple(items)),)))


def fold(c, name, s, a):
    """value of a function of known text, None when it is not one of those known here"""
    st = c.st
    ref = lambda x: c.I.newref(c.st, S(x))
    opt = lambda x: M.none(c.destty) if x is None else M.some(x, c.destty)
    if name in ("str::parse", "FromStr::from_str"):
        t = c.ty(c.destty)
        val = c.ty(t["args"][0]) if t.get("args") else None
        if val is None or val["k"] not in ("int", "float"):
            return None
        k = val["s"]
        v = rust_parse(s) if k == "f64" else f32_parse(s) if k == "f32" else int_parse(s, k) if k in INTS else None
        err = mk("app", "opaque", "parse_error_" + k, mk("var", "text %r" % s, "str", None, None))
        if v is None:
            return Adt(c.destty, M.RES, ONE, {0: (top(val["k"]),), 1: (err,)})
        return Adt(c.destty, M.RES, ZERO, {0: ((F(v) if val["k"] == "float" else I(v)),), 1: (err,)})
    if name.split("::")[0] not in ("str", "String", "Index", "ToString", "ToOwned", "Clone", "Deref", "AsRef", "Borrow", "From", "Into"):
        return None
    n = name.split("::")[-1]
    if n in ("to_string", "to_owned", "as_str", "from", "deref", "as_ref", "borrow", "clone", "into_string", "into_boxed_str", "to_string_lossy"):
        return ref(s)
    if n == "trim":
        return ref(s.strip(WS))
    if n in ("trim_start", "trim_left"):
        return ref(s.lstrip(WS))
    if n in ("trim_end", "trim_right"):
        return ref(s.rstrip(WS))
    if n in ("to_lowercase", "to_uppercase") or n in ("to_ascii_lowercase", "to_ascii_uppercase"):
        f = str.lower if "lower" in n else str.upper
        return ref("".join(f(x) if "ascii" not in n or x.isascii() else x for x in s))
    if n == "len":
        return I(len(s.encode()))
    if n == "is_empty":
        return B(not s)
    if n == "is_ascii":
        return B(s.isascii())
    if n == "eq_ignore_ascii_case":
        o = c.I.deep(st, a[0])
        if isinstance(o, N) and o.k == "str":
            low = lambda x: "".join(y.lower() if y.isascii() else y for y in x)
            return B(low(s) == low(o.s))
    if n in ("as_bytes", "into_bytes"):
        return c.I.newref(c.st, bytes_of(s))
    if n == "bytes":
        return owned_iter([I(x) for x in s.encode()])
    if n == "chars":
        return owned_iter([I(ord(x)) for x in s])
    if n == "char_indices":
        out, k = [], 0
        for x in s:
            out.append(tup(I(k), I(ord(x))))
            k += len(x.encode())
        return owned_iter(out)
    if n in ("split_whitespace", "split_ascii_whitespace", "lines"):
        parts = s.splitlines() if n == "lines" else [x for x in re.split("[%s]+" % re.escape(WS), s) if x]
        return owned_iter([ref(x) for x in parts])
    if n == "is_char_boundary":
        k = iconst(a[0]) if isinstance(a[0], T) else None
        return None if k is None else B(boundary(s, k) is not None)
    if n in ("get", "index", "get_unchecked"):
        if n == "get_unchecked" or not a:
            return None
        r = rng(a[0], len(s.encode()))
        if r is None:
            return None
        i, j = boundary(s, r[0]), boundary(s, r[1])
        ok = i is not None and j is not None and r[0] <= r[1]
        if n == "get":
            return opt(ref(s[i:j]) if ok else None)
        c.I.obligation("bounds", c.st, B(ok), c.span)
        return ref(s[i:j]) if ok else "never"
    if n in ("split_at", "split_at_checked"):
        k = iconst(a[0]) if isinstance(a[0], T) else None
        if k is None:
            return None
        i = boundary(s, k)
        if n == "split_at_checked":
            return opt(None if i is None else tup(ref(s[:i]), ref(s[i:])))
        c.I.obligation("bounds", c.st, B(i is not None), c.span)
        return "never" if i is None else tup(ref(s[:i]), ref(s[i:]))
    if n in ("starts_with", "ends_with", "contains", "find", "rfind", "strip_prefix", "strip_suffix", "split_once", "rsplit_once", "trim_matches", "trim_start_matches", "trim_end_matches", "split", "replace", "matches"):
        p = pattern(c, a[0])
        at = [(i, m) for i in range(len(s) + 1) for m in (p(s, i),) if m is not None]
        off = lambda i: I(len(s[:i].encode()))
        if n == "starts_with":
            return B(any(i == 0 for i, _ in at))
        if n == "ends_with":
            return B(any(i + m == len(s) for i, m in at))
        if n == "contains":
            return B(bool(at))
        if n in ("find", "rfind"):
            return opt(off(at[0 if n == "find" else -1][0]) if at else None)
        if n == "strip_prefix":
            m = [m for i, m in at if i == 0]
            return opt(ref(s[m[0]:]) if m else None)
        if n == "strip_suffix":
            m = [i for i, m in at if i + m == len(s)]
            return opt(ref(s[:m[0]]) if m else None)
        if n in ("split_once", "rsplit_once"):
            if not at:
                return opt(None)
            i, m = at[0 if n == "split_once" else -1]
            return opt(tup(ref(s[:i]), ref(s[i + m:])))
        at = [(i, m) for i, m in at if m > 0]
        if n.startswith("trim"):
            lo, hi = 0, len(s)
            while n != "trim_end_matches" and lo < hi and any(i == lo for i, _ in at):
                lo += [m for i, m in at if i == lo][0]
            while n != "trim_start_matches" and lo < hi and any(i + m == hi and i >= lo for i, m in at):
                hi = [i for i, m in at if i + m == hi and i >= lo][0]
            return ref(s[lo:hi])
        cuts, k = [], 0
        for i, m in at:
            if i >= k:
                cuts.append((i, i + m))
                k = i + m
        if n == "matches":
            return owned_iter([ref(s[i:j]) for i, j in cuts])
        parts, k = [], 0
        for i, j in cuts:
            parts.append(s[k:i])
            k = j
        parts.append(s[k:])
        if n == "split":
            return owned_iter([ref(x) for x in parts])
        o = c.I.deep(st, a[1])
        return ref(o.s.join(parts)) if isinstance(o, N) and o.k == "str" else None
    return None


def folded(c, args):
    """(value, state) of a call whose receiver is known text, None when it is not folded"""
    if not args:
        return None
    v = c.I.deep(c.st, args[0]) if isinstance(args[0], N) else args[0]
    if isinstance(v, T) and c.name.startswith("char::"):
        return char_fold(c, v, args[1:])
    if not (isinstance(v, N) and v.k == "str") or c.destty is None:
        return None
    st0 = c.st.copy()
    try:
        r = fold(c, c.name, v.s, args[1:])
    except Unknown:
        c.st = st0
        return None
    if r is None:
        c.st = st0
        return None
    if isinstance(r, str):
        return None, None
    return r, c.st


def char_fold(c, v, a):
    k = iconst(v) if v.knd == "int" else None
    if k is None:
        return None
    ch, n = chr(k), c.name.split("::")[-1]
    asc = k < 128
    t = {"is_whitespace": ch in WS, "is_ascii_whitespace": ch in "\t\n\x0c\r ", "is_ascii_digit": asc and ch.isdigit(), "is_ascii_alphabetic": asc and ch.isalpha(), "is_ascii_alphanumeric": asc and ch.isalnum(),
         "is_alphabetic": ch.isalpha(), "is_alphanumeric": ch.isalnum(), "is_numeric": ch.isnumeric(), "is_ascii": asc, "is_ascii_punctuation": asc and ch.isprintable() and not ch.isalnum() and ch != " ", "is_ascii_uppercase": asc and ch.isupper(),
         "is_ascii_lowercase": asc and ch.islower(), "is_control": k < 32 or 127 <= k < 160, "is_ascii_graphic": 33 <= k <= 126}.get(n)
    return None if t is None else (B(t), c.st)
