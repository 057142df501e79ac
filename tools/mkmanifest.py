#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from jobs import CHECKS

TRUST = " Trusted: TLC, the Java override of rational arithmetic (compared with its TLA+ definition by RatSelfTest), and the recording harness."
NOTES = {
    "C01": "Every recorded answer of the solver (all entry paths, all pivot rules, both basis representations, matrix data) is judged by the TLA+ specification of what the problem means; the specification's own answer carries a certificate (Farkas vector, ray, dual) that TLC checks. Bounded by the generated problems.",
    "C02": "Simplex.tla is model checked exhaustively on small integer systems; every basis change the real code makes on generated problems is replayed as a transition of that specification.",
    "C03": "Phase one of the real code, recorded event by event, is checked as a behaviour of Simplex.tla; verdict, final basis and the set of removed rows are compared with the meaning of the system.",
    "C04": "Exchange sequences generated by TLC (exhaustive to a depth, and random long ones) and random histories are run through both representations of the basis inverse; TLC recomputes every answer exactly.",
    "C05": "Free exchange sequences and solver runs; after each change TLC recomputes b, minus pi, objective value, relative costs, columns and ratios from their definitions.",
    "C10": "The whole provider (all columns, costs, right hand side, bound rows, offered pivots, reconstruction) is compared with the documented layout as specified in MatrixData.tla.",
    "C11": "Removal histories are transitions of MatrixData.tla; after them the whole provider is compared. One job runs with debug assertions on.",
    "C16": "The rule's selection in every reachable tableau of the recorded runs is compared with the specified criterion (RuleAllows), including the memory of the rule with memory.",
    "C17": "Bland's rule after stalling is model checked for termination on small systems; the real code is run on generated problems including families that cycle, under a cap on basis changes and a watchdog.",
}
NOTES.update({
    "C18": "Every operation from every small vector (enumerated by TLC) and random histories of vector and matrix operations; each observation is compared with the mathematical object of Algebra.tla and the canonical form (sorted, no explicit zeros).",
    "C19": "Answers of the two example programs and of directly built problems, judged against Bellman-Ford distances and minimum cuts of Network.tla, which NetworkMC.tla compares with label-correcting and augmenting-path machines on all small graphs.",
    "C20": "Incidence matrices of random graphs with removed vertices, columns, counts, values and arithmetic with directions, compared with Network.tla.",
})
NOTES.update({
    "C06": "Presolving generated general form problems (row types, bounds, cascading reductions, presolved twice): verdict, reduced problem and back mapping of sampled feasible points (vertices for random objectives) are compared with the meaning of the stated problem in GeneralForm.tla; Presolve.tla model checks the reductions in every order, and its problems are replayed into the code.",
    "C07": "The provider derived from the standardised problem is read column by column and compared with the stated problem: verdict, optimal value, and the mapping of points in both directions.",
    "C08": "The complete pipeline with random optional steps; the named solution is judged against the statement of the problem (rows, bounds, objective, optimality, every name exactly once). Also from generated MPS documents, judged against the denotation of the text.",
    "C09": "The scaled problem and its solutions scaled back are judged against the stated problem; scaling and scaling back must restore the problem exactly.",
})
NOTES.update({
    "C12": "Documents (all statements about one row and one column enumerated by TLC as behaviours of the reading machine, and random ones) are imported; the imported problem, read element by element, is compared with the denotation of the text computed by Mps.tla. Rational64 numbers; f64 import is not covered.",
    "C13": "The same documents in both layouts: Mps.tla reads each text in its own layout, and the two imports must agree with it and with each other.",
    "C14": "Single and multiple corruptions of well-formed documents and random text: what Mps.tla rejects must be rejected, what it accepts must be read as it denotes, and nothing may panic (also with debug assertions) or hang.",
    "C15": "Numerals of all shapes up to and beyond the representable magnitude, in every place where a file has one, compared with their value computed by the specification on decimal strings.",
})
NA = {}
extra = os.path.join(ROOT, "tools", "notes.json")
if os.path.exists(extra):
    NOTES.update(json.load(open(extra)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "TLA+ specification with TLC: " + ("model checking and " if any("bin" not in j for j in CHECKS[p]) else "")
                     + "trace validation of the real code"
                     + (", replay of generated behaviours" if any("gen" in j for j in CHECKS[p]) else ""),
        "level": "model_checking",
        "level_note": NOTES[p] + TRUST,
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS],
    "notes": "TLA+ checked with TLC; the machinery needs no hooks in /repo (everything it drives is public).",
}
json.dump(manifest, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
