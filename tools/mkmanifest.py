#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif"); sys.dont_write_bytecode = True
from plan import PLAN
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NOTE = ("TLC explores the specification exhaustively within small bounds, and validates recorded executions of the real "
        "code (exhaustive small input spaces plus random histories) event by event against the same operators; nothing is "
        "claimed beyond the executions recorded. Trusts TLC, numpy's reading of the arrays and the recorder; numbers are "
        "exact on dyadic inputs and compared within a tolerance elsewhere.")
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in PLAN:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py --prop {i} --tier quick",
                            "thorough_cmd": f"python3 check.py --prop {i} --tier thorough",
                            "technique": PLAN[i].get("technique", "TLA+ specification checked by TLC; TLC trace validation of the real code"),
                            "level": "model_checking", "level_note": PLAN[i].get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": "not built yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
