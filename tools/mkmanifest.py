#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        m = PLAN[i].get("models", [])
        tech = "TLA+/TLC: trace validation of the real library against spec/%s.tla" % i
        if m:
            tech += ", scenarios from / design checked in " + ", ".join(x["module"] for x in m)
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking",
                       "level_note": PLAN[i]["note"] if "note" in PLAN[i] else
                       "Every recorded behaviour of the compiled library is accepted or rejected by TLC against the specification, in exact rational arithmetic; the inputs are bounded scenarios enumerated from the models plus seeded random ones, so it is not a proof over all inputs."})
    else:
        na.append({"property": i, "reason": "Not yet covered: the specification for it is still being written."})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "One TLA+ specification per property over shared theory modules; see DESIGN.md. No hooks in /repo are needed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
