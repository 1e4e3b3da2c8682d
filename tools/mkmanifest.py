#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan and the list of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import plan, notes
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": notes.TECHNIQUE[i],
            "level": "model_checking",
            "level_note": notes.LEVEL[i]})
    else:
        na.append({"property": i, "reason": "not built yet: the specification does not cover it at this commit"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: every check observes the library through its public API, with substitutes for its interfaces (QContext, Solver, Model, Encodable) and for the solver executable", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+, checked with TLC (spec/). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
