"""Verdicts, evidence files and known findings."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.proved = []          # (obligation, how)
        self.undecided = []       # (obligation, why)
        self.violations = []      # dict(key, what, where, witness)
        self.counts = {}
        self.samples = []
        self.explanation = ""
        self.assumptions = []
        self.notes = []
        self.known_hit = []
        self.errors = []

    def ok(self, what, how):
        self.proved.append((what, how))

    def open(self, what, why):
        self.undecided.append((what, str(why)[:400]))

    def bad(self, key, what, where="", witness=None):
        """key: stable identification without line numbers"""
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append(dict(key=key, what=what, where=where, witness=witness))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """vacuity guard; an obligation left undecided (and listed) explains a smaller count"""
        if self.counts.get(name, 0) < least:
            (self.notes if self.undecided or self.violations else self.errors).append("only %d %s analysed, expected at least %d" % (self.counts.get(name, 0), name, least))

    def finish(self):
        kf = known_findings()
        mine = {k["key"]: k for k in kf if k["property"] == self.pid and k["kind"] == "finding"}
        real = []
        for v in self.violations:
            if v["key"] in mine:
                self.known_hit.append(v)
            else:
                real.append(v)
        edir = os.environ.get("GQ_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        replay = os.path.join(edir, self.pid + "-violations.json")
        ob = len(self.proved) + len(self.undecided) + len(self.violations)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other",
                  coverage=dict(explanation=self.explanation, obligations=ob, discharged=len(self.proved), undecided=len(self.undecided),
                                analysed=self.counts, discharged_list=["%s: %s" % x for x in self.proved[:400]],
                                undecided_list=["%s: %s" % x for x in self.undecided[:100]], known_findings=[v["key"] for v in self.known_hit],
                                samples=self.samples[:20], notes=self.notes[:40]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(real))
        with open(os.path.join(edir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if os.path.exists(replay):
            os.remove(replay)
        for v in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v["what"]))
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%s)" % (
            self.pid, ob, len(self.proved), len(self.undecided), len(real), ", ".join("%s %s" % (v, k) for k, v in sorted(self.counts.items()))))
        for w, y in self.undecided[:40]:
            print("  undecided: %s: %s" % (w, y))
        if real:
            with open(replay, "w") as f:
                json.dump(real, f, indent=1, default=str)
            for v in real[:30]:
                print("  violated: %s\n    at %s\n    witness: %s" % (v["what"], v["where"], str(v["witness"])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR %s: %s" % (self.pid, e))
            return 2
        return 0


def known_findings():
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out
