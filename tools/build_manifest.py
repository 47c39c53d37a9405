#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.rules import RULES, TECH, NOTE

NA = {
    "C40": "Whether the enumeration finds every closed or maximal itemset exactly once is a statement about the values of all "
           "intersections on an unbounded search; no dataflow, typestate or effect rule over the source bounds it.",
    "C41": "Losslessness relates numeric contents of covers, occurrences and residuals; that is functional correctness of "
           "data-dependent loops, outside what a sound static analysis in reach can decide.",
    "C42": "Equality of computed code lengths with their mathematical definition quantifies over floating point values; a "
           "static rule could only restate the formulas.",
    "C43": "Termination and running time depend on data-dependent convergence of the description length; no static bound is "
           "in reach.",
    "C44": "Optimality of cut points quantifies over all entropies of all intervals; this is numeric functional correctness.",
    "C45": "The growth-rate definition relates supports in two collections through border differences; deciding it needs the "
           "values, not the shape, of the computation.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in RULES:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "other",
                           "level_note": NOTE.get(i, "") + NOTE["*"]})
    na = [{"property": i, "reason": NA.get(i, "no check registered yet")} for i in ids if i not in RULES]
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "Pure static analysis: check.py parses /repo/skmine afresh on every run with the standard library's ast and "
                  "imports or executes nothing of it. No hooks in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
