#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a plan."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py check " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py check " + i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="Not built yet."))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="TLA+ specification in spec/, checked with TLC and bound to the code by trace checking and replay; see DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
