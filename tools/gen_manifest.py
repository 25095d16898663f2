#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py check {i}", thorough_cmd=f"python3 run.py check {i} thorough",
                           technique=pl.get("technique", "stateless model checking of the real code: exhaustive depth-first enumeration of bounded choice vectors against a reference model, under a ledger allocator"),
                           level="model_checking",
                           level_note="Every execution within the bounds is run on the real code and compared step by step with a boring reference model. Bounds: " + pl["bounds"] + " Nothing is claimed beyond the bounds; the harness, its models and the compiler are trusted."))
    else:
        na.append(dict(property=i, reason="check under construction"))
hooks = {}
try:
    from plan import HOOKS
    hooks = HOOKS
except ImportError:
    pass
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na, notes="See DESIGN.md. 'python3 run.py replay <file>' re-runs a recorded counterexample.")
if hooks:
    m["hooks"] = hooks
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
