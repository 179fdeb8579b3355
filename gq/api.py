"""Public API of the analysed crate: anchors, and summaries of calls composed symbolically."""
import math
import sys
from .interp import Interp, State, NC, Limit, FnKey
from .prog import Prog
from .val import *
from .evalt import Ev, Undecided

sys.setrecursionlimit(40000)

FINITE = ("GaussLegendre", "GaussJacobi", "GaussChebyshevFirstKind", "GaussChebyshevSecondKind")
INFINITE = ("GaussLaguerre", "GaussHermite")
GAUSS = FINITE + INFINITE
NEWTON = ("Midpoint", "Trapezoid", "Simpson")
RULES = GAUSS + NEWTON
PARAM = "FiniteAboveNegOneF64"


class MissingAnchor(Exception):
    pass


class Api:
    def __init__(self, path, cfg="?", gamma=True):
        self.cfg = cfg
        self.p = Prog(path)
        self.adts = {}
        for a in self.p.d["adts"]:
            if a.get("reachable") or a.get("exported"):
                self.adts.setdefault(a["name"], a)
        self.gamma_fns = []
        if gamma:
            self.detect_gamma()

    def adt(self, name):
        if name not in self.adts:
            raise MissingAnchor("type %s is not part of the public API (configuration %s)" % (name, self.cfg))
        return self.adts[name]

    def is_adt(self, ty, name):
        t = self.p.types[ty]
        return t["k"] == "adt" and t["path"] == self.adt(name)["path"]

    def param_ty(self):
        return self.adt(PARAM)["ty"]

    def method(self, name, meth, need=True):
        """inherent method of a public type"""
        ty = self.adt(name)["ty"]
        path = self.adt(name)["path"]
        for f in self.p.fns:
            if f["name"] == meth and not f.get("impl_trait") and f.get("self_ty") is not None:
                s = f["self_ty"]
                if s == ty or (self.p.types[s]["k"] == "adt" and self.p.types[s]["path"] == path):
                    if f.get("exported") and f.get("inst") is not None:
                        return f
        if need:
            raise MissingAnchor("method %s::%s not found (configuration %s)" % (name, meth, self.cfg))
        return None

    def impls(self, trait, name=None, ref=None):
        """impl records of a trait (last path segment) for a public type; ref: None = by value, True = for a reference"""
        out = []
        path = self.adt(name)["path"] if name else None
        for im in self.p.impls:
            if not im.get("trait") or im["trait"].split("::")[-1] != trait:
                continue
            t = self.p.types[im["self"]]
            isref = t["k"] == "ref"
            if isref:
                t = self.p.types[t["ty"]]
            if name is None or (t["k"] == "adt" and t["path"] == path and bool(ref) == isref):
                out.append(im)
        return out

    def trait_method(self, name, trait, meth, ref=None, args=None):
        """function record of a trait method implemented for a public type"""
        for im in self.impls(trait, name, ref):
            if args is not None and [self.p.ts(x) for x in im["args"]] != list(args):
                continue
            it = im["items"].get(meth)
            if it and it.get("inst") is not None:
                for f in self.p.fns:
                    if f.get("inst") == it["inst"]:
                        return f
        return None

    # ------------------------------------------------------------ gamma
    def detect_gamma(self):
        """local functions f64 -> f64 that are (approximately) the gamma function: recognised by the
        value of their closed-form summary, not by name"""
        for f in self.p.fns:
            if not f.get("local") or f.get("inst") is None or len(f["inputs"]) != 1 or f.get("impl_trait"):
                continue
            if self.p.types[f["inputs"][0]]["k"] != "float" or self.p.types[f["output"]]["k"] != "float":
                continue
            s = Session(self, opaque_gamma=False)
            x = var("x", "float")
            v = s.call(f, [x])
            if not isinstance(v, T) or s.I.limits:
                continue
            good = 0
            pts = (0.3, 0.7, 1.0, 1.5, 2.0, 2.5, 3.25, 4.0, 7.5, 12.0, 20.5, 50.0)
            for z in pts:
                try:
                    y = Ev({x: z}).ev(v)
                    if abs(y - math.gamma(z)) <= 1e-6 * math.gamma(z):
                        good += 1
                except (Undecided, ArithmeticError):
                    pass
            if good == len(pts):
                self.p.gamma_insts.add(f["inst"])
            if good >= len(pts) // 2:
                self.gamma_fns.append((f, v, x))


class Session:
    """a sequence of API calls on symbolic values"""

    def __init__(self, api, facts=(), opaque_gamma=True):
        self.api = api
        self.I = Interp(api.p, facts)
        self.I.opaque_gamma = opaque_gamma
        self.st = State({NC: ZERO}, TRUE)
        self.ok = True

    def fork(self):
        s = Session.__new__(Session)
        s.api, s.I, s.ok = self.api, self.I, self.ok
        s.st = self.st.copy()
        return s

    def arg(self, ty, name):
        v = self.I.sym(self.st, ty, name)
        self.param_facts(v)
        return v

    def param_facts(self, v):
        if isinstance(v, Adt) and v.path == self.api.adt(PARAM)["path"]:
            for x in v.vs[0]:
                if isinstance(x, T):
                    self.I.facts += [isfin(x), fcmp("flt", F(-1.0), x)]

    def args(self, f, names=None):
        return [self.arg(t, (names[i] if names else "a%d" % i)) for i, t in enumerate(f["inputs"])]

    def call(self, f, args):
        """value of a call, or None when it never returns; the state is updated"""
        try:
            v, st = self.I.entry(f["inst"], args, self.st)
        except (MissingAnchor, Limit, MemoryError, RecursionError):
            raise
        except Exception as e:      # a construct the interpreter cannot represent: this call stays undecided
            import traceback
            traceback.print_exc(limit=-4)
            self.I.limits.append("internal error %s: %s in %s" % (type(e).__name__, e, f["path"]))
            return TopV("internal error")
        if st is None:
            self.ok = False
            return None
        self.st = st
        return v

    def ncalls(self):
        return self.st.cells.get(NC, ZERO)

    def deref(self, v):
        n = 0
        while isinstance(v, N) and v.k in ("ref", "box"):
            v = self.I.load(self.st, v)
            n += 1
            if n > 10:
                break
        return v

    def newref(self, v):
        return self.I.newref(self.st, v)

    def pairs(self, rule, selfref):
        """the stored (node, weight) sequence of a rule as exposed by as_node_weight_pairs()"""
        f = self.api.method(rule, "as_node_weight_pairs")
        v = self.deref(self.call(f, [selfref]))
        if isinstance(v, N) and v.k == "arr":
            v = arr2lam(v)
        return v

    def limits(self):
        return list(self.I.limits)


def is_top(v):
    return v is None or has_top(v)
