"""Regenerates MANIFEST.json from the check registry and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from gq import checks

TECH = {
    "sum": "abstract interpretation of the typed MIR into closed-form sums; equality of normal forms",
    "seq": "abstract interpretation of the typed MIR into symbolic sequences; exact value-number equality",
}
NA = {
    "P24": "Bounds the floating-point error and convergence of nalgebra's iterative eigenvalue solver on every matrix: a runtime quantity of a third-party iteration, out of reach of a sound static argument here (what is fed to the solver and what is read back is decided under P06, P07, P18).",
    "P25": "Quantifies over all smooth integrands and over accumulated rounding error; no static argument over the source bounds either. The exactness facts that imply convergence are decided under P01-P03, P06-P11.",
}


def main():
    meta = checks.META
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    ch, na = [], []
    for p in props:
        i = p["id"]
        if i in checks.CHECKS:
            m = meta[i]
            ch.append(dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=m[0], level="other", level_note=m[1]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "Check not built yet.")))
    d = dict(version=1, setup_cmd="python3-vt -m gq.build", checks=ch, not_applicable=na,
             notes="Static analysis only: a rustc driver dumps the monomorphic, type-checked MIR of /repo's working tree; an abstract interpreter turns every public function into closed-form summaries; rules compare those with the specification. No code of /repo is executed. No hooks in /repo are needed.")
    json.dump(d, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(ch), "checks", len(na), "not applicable")


main()
