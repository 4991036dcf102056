#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered obligations and rules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import obligs.all as A
NA = {
 "C40": "convergence rate and optimality of the limit quantify over real-valued runtime trajectories; no static rule over the code's shape bounds them",
 "C41": "containment of the feasible set after a cut is a geometric theorem about real quantities; what the code contributes to it (the update formulas) is decided by C07-C13",
 "C42": "finiteness and accuracy of floating point results depend on runtime magnitudes and conditioning, which no static argument in reach bounds",
 "C43": "equality of two trajectories over all runs needs the algebraic equivalence of Q and its LDL' form across runtime iterations; each single step is decided by C10 and C11",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
claimed = [p for p in ids if p in A.OBS or p in A.RULES]
NOTE = ("Decides the property for all inputs of each listed entry point at once by comparing gated-SSA normal forms of the current MIR with a reference "
        "definition; trusts the reference, the std models and the real-number reading of f64. Obligations the normaliser cannot settle are reported as undecided in the evidence and raise no alarm.")
m = {"version": 1, "setup_cmd": "python3-vt -m engine.dump setup",
     "checks": [{"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                 "technique": A.TECHNIQUE.get(p, "value-graph (gated SSA) normal-form analysis over MIR against a reference definition"),
                 "level": "other", "level_note": A.NOTE.get(p, NOTE)} for p in claimed],
     "not_applicable": [{"property": p, "reason": NA.get(p) or A.NA[p]} for p in ids if p not in claimed],
     "notes": "Every check type-checks /repo's working tree with a rustc driver, dumps MIR and analyses it; the Python package is analysed from its syntax trees; nothing of /repo is executed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
