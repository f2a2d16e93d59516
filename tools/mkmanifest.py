#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i} --tier quick",
            "thorough_cmd": f"bin/check {i} --tier thorough",
            "technique": PLAN[i].get("technique", "TLA+ specification, trace validation of recorded executions with TLC"),
            "level": "model_checking",
            "level_note": PLAN[i].get("note", "every recorded answer of the real code is checked by TLC to be a step the TLA+ specification allows; sound on what was executed, sampled over inputs"),
        })
    else:
        na.append({"property": i, "reason": PLAN.get("_na", {}).get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the specification is bound through the public API. All changes in /repo are fix: commits (KNOWN_FINDINGS.txt)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
