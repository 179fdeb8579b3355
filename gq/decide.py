"""Exact equality of summaries (bit-identical values), and refutation by instances."""
import itertools
import math
import random
from .val import *
from .linear import entails, simp, conj
from .nf import cases, Give
from .evalt import Ev, Undecided, total_key
from .witness import int_candidates, float_candidates, collect, int_bracket, solve_float


def texact(a, b, facts):
    """a and b have the same value for every valuation satisfying the facts"""
    if a is b:
        return True
    if a.knd != b.knd:
        return False
    if contains_op(a, ("top",)) or contains_op(b, ("top",)):
        return False
    if _texact(a, b, facts):
        return True
    # once more with the operands of commutative operations in one order, in conditions as well
    x, y, fs = ieee(a), ieee(b), [ieee(f) for f in facts]
    if x is y:
        return True
    if (x is a or a.knd == "float") and (y is b or b.knd == "float") and all(f is g for f, g in zip(facts, fs)):
        return False
    return _texact(x, y, fs)


def _texact(a, b, facts):
    if a.knd == "int" and entails(facts, eq0(isub(a, b))):
        return True
    if a.knd == "bool":
        return entails(facts + [a], b) and entails(facts + [b], a)
    try:
        for fs, (x, y) in cases([a, b], facts, cap=64):
            if x is y:
                continue
            if x.knd == "int" and entails(fs, eq0(isub(x, y))):
                continue
            if same_modulo(x, y, fs):
                continue
            x, y = ieee(x), ieee(y)
            if x is y or same_modulo(x, y, fs):
                continue
            return False
        return True
    except Give:
        return False


_ieee = {}


def ieee(t):
    """normal form under rewrites that change no bit of an IEEE result (but the payload of a NaN)"""
    return rewrite(t, _ieee1, _ieee)


def _pow2(x):
    if x.op != "f" or not math.isfinite(fval(x)) or fval(x) == 0:
        return False
    return abs(math.frexp(fval(x))[0]) == 0.5 and 2.0 ** -1000 < abs(fval(x)) < 2.0 ** 1000


def _neg(x):
    if x.op == "f":
        return F(-fval(x))
    return x.a[0] if x.op == "fneg" else mk("fneg", x)


def _ieee1(t):
    if t.op == "fneg" and t.a[0].op in ("fneg", "f"):
        return _neg(t.a[0])
    if t.op == "fsub":
        return _ieee1(mk("fadd", t.a[0], _neg(t.a[1]))) or mk("fadd", t.a[0], _neg(t.a[1]))
    if t.op == "fdiv":
        x, y = t.a
        if _pow2(y):
            u = mk("fmul", x, F(1.0 / fval(y)))
            return _ieee1(u) or u
        if x.op == "fneg" or y.op == "fneg":
            s = (x.op == "fneg") != (y.op == "fneg")
            u = mk("fdiv", x.a[0] if x.op == "fneg" else x, y.a[0] if y.op == "fneg" else y)
            return mk("fneg", u) if s else u
        return None
    if t.op == "fmul":
        x, y = t.a
        s = False
        if x.op == "fneg":
            x, s = x.a[0], not s
        if y.op == "fneg":
            y, s = y.a[0], not s
        if x.op == "f" and fval(x) < 0:
            x, s = F(-fval(x)), not s
        if y.op == "f" and fval(y) < 0:
            y, s = F(-fval(y)), not s
        if x.op == "f" and fval(x) == 1.0:
            u = y
        elif y.op == "f" and fval(y) == 1.0:
            u = x
        else:
            u = mk("fmul", *((x, y) if x.id <= y.id else (y, x)))
        if s:
            u = _neg(u)
        return None if u is t else u
    if t.op == "fadd":
        x, y = t.a
        if x is y:
            return _ieee1(mk("fmul", F(2.0), x)) or mk("fmul", F(2.0), x)
        if x.id > y.id:
            return mk("fadd", y, x)
    return None


def same_modulo(x, y, fs):
    """same operation tree, integer positions equal under the facts"""
    if x is y:
        return True
    if x.knd == "int" and y.knd == "int":
        return entails(fs, eq0(isub(x, y)))
    if x.op != y.op or len(x.a) != len(y.a):
        return False
    if x.op == "var":
        return False
    if x.op in ("fadd", "fmul"):
        if x.a[0] is y.a[1] and same_modulo(x.a[1], y.a[0], fs) or x.a[1] is y.a[0] and same_modulo(x.a[0], y.a[1], fs):
            return True
    for p, q in zip(x.a, y.a):
        if isinstance(p, T) and isinstance(q, T):
            if not same_modulo(p, q, fs):
                return False
        elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            for u, v in zip(p, q):
                if isinstance(u, T) and isinstance(v, T):
                    if not same_modulo(u, v, fs):
                        return False
                elif u != v:
                    return False
        elif p != q:
            return False
    return True


def flatten(a, b, facts, out):
    """pairs of scalar leaves that must agree (with the facts that hold there); None when shapes differ"""
    if isinstance(a, T) and isinstance(b, T):
        out.append((a, b, facts))
        return True
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k and len(a.c) == len(b.c) and (a.k in ("tup", "arr") or a.s == b.s):
        return all(flatten(x, y, facts, out) for x, y in zip(a.c, b.c))
    if isinstance(a, Adt) and isinstance(b, Adt) and a.path == b.path:
        out.append((a.d, b.d, facts))
        for k in set(a.vs) & set(b.vs):
            f2 = facts + [ieq(b.d, I(k))]
            if not all(flatten(x, y, f2, out) for x, y in zip(a.vs[k], b.vs[k])):
                return False
        for k in set(a.vs) ^ set(b.vs):
            d = a.d if k in a.vs else b.d
            out.append((B(True), bnot(ieq(d, I(k))), facts))
        return True
    if isinstance(a, N) and a.k == "arr" and isinstance(b, Lam):
        return flatten(arr2lam(a), b, facts, out)
    if isinstance(b, N) and b.k == "arr" and isinstance(a, Lam):
        return flatten(a, arr2lam(b), facts, out)
    if isinstance(a, Lam) and isinstance(b, Lam) and len(a.n) == len(b.n):
        for x, y in zip(a.n, b.n):
            out.append((x, y, facts))
        js = [fresh("j", "int", 0, (1 << 63)) for _ in a.n]
        f2 = facts + [ile(ZERO, j) for j in js] + [ilt(j, y) for j, y in zip(js, b.n)]
        return flatten(a.at(js), b.at(js), f2, out)
    if isinstance(a, IteV):
        return flatten(a.a, b, facts + [a.c], out) and flatten(a.b, b, facts + [bnot(a.c)], out)
    if isinstance(b, IteV):
        return flatten(a, b.a, facts + [b.c], out) and flatten(a, b.b, facts + [bnot(b.c)], out)
    return False


def hashed_seqs(ts, salt=0):
    names = {x.a[1] for t in ts for x in subterms(t) if x.op == "sel"}

    def mkf(nm):
        def f(idx, path):
            r = random.Random("%s/%s/%s/%s" % (nm, idx, path, salt))
            if salt % 2:              # unusual values
                return r.choice((0.0, -0.0, -1.5, 1e-300, -1e300, 2.0, r.uniform(-1, 1)))
            return r.uniform(-1, 1) if path.endswith("0") else r.uniform(0.1, 1)
        return f
    return {n: mkf(n) for n in names}


def apps(ts):
    """uninterpreted functions occurring in the terms, as pseudo-random functions"""
    from .evalt import F64
    known = set(F64) | {"ctlz", "cttz", "ctpop", "powi", "tcmp", "pcmp", "bits", "frombits", "bits32", "frombits32", "signbit", "srt", "eigval", "eigvec", "fel", "flen", "tab", "tlen", "exp2", "gamma"}
    out = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "app" and x.a[1] not in known and x.a[1] not in out:
                def g(*a, nm=x.a[1], kd=x.a[0]):
                    r = random.Random("%s%s" % (nm, a))
                    return r.uniform(0.1, 2) if kd == "float" else bool(r.getrandbits(1)) if kd == "bool" else r.randrange(0, 5)
                out[x.a[1]] = g
    return out


def bits_differ(x, y):
    if isinstance(x, float) or isinstance(y, float):
        x, y = float(x), float(y)
        if x != x or y != y:
            return (x != x) != (y != y)
        return total_key(x) != total_key(y)
    return x != y


def refute(a, b, facts, seed=1, tries=300, ranges=None, differ=bits_differ, mode="f64", floats=(), fns=None):
    """a valuation satisfying the facts at which a and b differ, or None"""
    ts = [a, b] + list(facts)
    if contains_op(a, ("top",)) or contains_op(b, ("top",)):
        return None
    fv = sorted(set().union(*[t.fv for t in ts]), key=lambda v: v.id)
    rnd = random.Random(seed)
    ranges = ranges or {}
    cand = {}
    for v in fv:
        if v in ranges:
            cand[v] = list(ranges[v])
        elif v.a[1] == "int":
            lo = v.a[2] if v.a[2] is not None else 0
            hi = v.a[3] if v.a[3] is not None else (1 << 64) - 1
            c = int_candidates(ts, v, lo=lo, hi=hi, base=range(0, 9))
            cand[v] = c
        elif v.a[1] == "float":
            cand[v] = float_candidates(ts, floats) + [-0.0]
        else:
            cand[v] = [False, True]
    total = 1
    for v in fv:
        total *= len(cand[v])
        if total > tries:
            break
    if total <= tries:
        it = itertools.product(*[cand[v] for v in fv])
    else:
        def gen():
            for i in range(tries):
                yield [cand[v][i % len(cand[v])] if rnd.random() < 0.3 else rnd.choice(cand[v][:10] if v.a[1] == "int" and rnd.random() < 0.8 else cand[v]) for v in fv]
        it = gen()
    fn = apps(ts)
    fn.update(fns or {})
    conds = [c for c in collect([a, b])[2] if c.op in ("flt", "fle", "feq") and not any(v.a[0].endswith("'") for v in c.fv)]

    nth = itertools.count()

    def attempt(env):
        try:
            sq = hashed_seqs(ts, next(nth))
            e = Ev(env, fn, sq, mode)
            for f in facts:
                if not e.ev(f):
                    return None
            x, y = e.ev(a), e.ev(b)
            if differ(x, y):
                return dict(inputs={v.a[0]: env[v] for v in fv}, got=str(x), want=str(y))
        except (Undecided, OverflowError, ZeroDivisionError, ValueError, IndexError):
            return None
        return None
    iv = [v for v in fv if v.a[1] == "int" and v not in ranges]
    if 2 <= len(iv) <= 3:
        # neighbouring values at every boundary
        def near(it):
            for x, y in itertools.permutations(iv, 2):
                for c in cand[x]:
                    if c > 8:
                        for d in (1, 2):
                            vals = {v: cand[v][len(cand[v]) // 2] for v in fv}
                            vals[x], vals[y] = c, c + d
                            yield [vals[v] for v in fv]
            yield from it
        it = near(it)
    fl = [v for v in fv if v.a[1] == "float" and v not in ranges]
    if len(fl) >= 2:
        # pairs that are equal, opposite or zeros of different sign
        def pairs(it):
            for x, y in itertools.permutations(fl[:3], 2):
                for c in cand[x]:
                    for d in (c, -c):
                        vals = {v: cand[v][len(cand[v]) // 2] for v in fv}
                        vals[x], vals[y] = c, d
                        yield [vals[v] for v in fv]
            yield from it
        it = pairs(it)
    last = None
    for vals in it:
        env = dict(zip(fv, vals))
        last = env
        r = attempt(env)
        if r:
            return r
    if last:
        for c in conds[:20]:
            for v in c.fv:
                if v.a[1] == "float":
                    env = {u: rnd.choice(cand[u]) for u in fv}
                    for x in solve_float(c, v, env, lambda e: Ev(e, fn, hashed_seqs(ts), mode)):
                        e2 = dict(env)
                        e2[v] = x
                        r = attempt(e2)
                        if r:
                            return r
            # conditions on a number computed from integers: thresholds of one integer, the others near the ends
            civ = [v for v in iv if v in c.fv]
            if not civ or any(v.a[1] == "float" for v in c.fv):
                continue
            for v in civ:
                for rep in range(2 if len(civ) > 1 else 1):
                    env = {u: cand[u][min(rep, len(cand[u]) - 1)] if u in iv else rnd.choice(cand[u]) for u in fv}
                    for x in int_bracket(c, v, env, lambda e: Ev(e, fn, hashed_seqs(ts), mode), v.a[2] or 0, v.a[3] or 1 << 62):
                        r = attempt({**env, v: x})
                        if r:
                            return r
    return None


def decide(rep, key, what, where, got, want, facts, seed=1, ranges=None):
    """obligation: got == want exactly under the facts"""
    if got is None or has_top(got) or has_top(want):
        rep.open(what, "summary incomplete")
        return None
    out = []
    if not flatten(got, want, list(facts), out):
        rep.open(what, "values of different shape")
        return None
    allok = True
    for a, b, fs in out:
        if texact(a, b, fs):
            continue
        w = refute(a, b, fs, seed, ranges=ranges)
        if w:
            rep.bad(key, what + " fails", where, w)
            return False
        allok = False
    if allok:
        rep.ok(what, "%d leaves equal" % len(out))
        return True
    rep.open(what, "not shown, no counterexample")
    return None
