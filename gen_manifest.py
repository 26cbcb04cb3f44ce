#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os
from plan import PLAN
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PLAN:
        continue
    p = PLAN[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                       evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=i, reason="no check yet") for i in ids if i not in PLAN],
         notes="All checks compile the library from /repo's working tree; no hooks in /repo are needed. 'python3 check.py ID --replay FILE' repeats a reported violation.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
