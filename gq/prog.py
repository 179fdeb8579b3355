"""The dumped program: types, functions, bodies, call graph."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d["types"]
        self.fns = d["fns"]
        self.bodies = d["bodies"]
        self.statics = d["statics"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f["path"], []).append(f)
        self.intern = {t["s"]: i for i, t in enumerate(self.types)}
        self._cfg = {}
        self.gamma_insts = set()
        self.impl_idx = {}
        for im in self.impls:
            self.impl_idx.setdefault((im.get("trait"), im.get("self")), []).append(im)

    def ty(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]["s"]

    def strip_ref(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["ty"]
            t = self.types[i]
        return i

    def fn(self, path):
        fs = self.byname.get(path, [])
        return fs[0] if fs else None

    def method(self, adt_path, name, trait=None):
        """function record for <adt>::name (inherent when trait is None)"""
        ty = self.adts[adt_path]["ty"] if adt_path in self.adts else None
        for f in self.fns:
            if f["name"] != name or f.get("self_ty") != ty:
                continue
            tr = f.get("impl_trait") or f.get("trait")
            if trait is None and not tr:
                return f
            if trait is not None and tr and tr.endswith(trait):
                return f
        return None

    def trait_impl(self, trait_suffix, self_ty):
        out = []
        for im in self.impls:
            if im.get("self") == self_ty and im.get("trait") and im["trait"].endswith(trait_suffix):
                out.append(im)
        return out

    # ---- control flow
    def cfg(self, bid):
        c = self._cfg.get(bid)
        if c is None:
            c = self._cfg[bid] = CFG(self.bodies[bid])
        return c


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[5]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    return []


class CFG:
    def __init__(self, body):
        self.b = body
        blocks = body["blocks"]
        self.succ = {}
        order = []
        seen = set()
        st = [(0, iter(succs(blocks[0]["t"])))]
        seen.add(0)
        self.succ[0] = list(dict.fromkeys(succs(blocks[0]["t"])))
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    self.succ[s] = list(dict.fromkeys(succs(blocks[s]["t"])))
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(n)
                st.pop()
        self.rpo = order[::-1]
        self.num = {n: i for i, n in enumerate(self.rpo)}
        self.pred = {n: [] for n in self.rpo}
        for n in self.rpo:
            for s in self.succ[n]:
                self.pred[s].append(n)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in self.rpo[1:]:
                new = None
                for p in self.pred[n]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        self.irreducible = False
        for n in self.rpo:
            for s in self.succ[n]:
                if self.num[s] <= self.num[n]:
                    if self.dom(s, n):
                        body_ = self.loops.setdefault(s, {s})
                        stk = [n]
                        while stk:
                            x = stk.pop()
                            if x not in body_:
                                body_.add(x)
                                stk.extend(self.pred[x])
                    else:
                        self.irreducible = True

    def _inter(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]:
                a = idom[a]
            while self.num[b] > self.num[a]:
                b = idom[b]
        return a

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]
