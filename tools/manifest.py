#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl (run: python3 tools/manifest.py)."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "notes": "run.py builds each harness against /repo's working tree in a scratch directory; see DESIGN.md"}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "model_checking",
            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "machinery not built yet")})
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
