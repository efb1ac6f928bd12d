#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import manifest_data as D

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in D.CHECKS:
        tech, level, note = D.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 /verif/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + i,
                       "evidence_file": "/verif/evidence/%s.json" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": D.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": D.HOOKS, "checks": checks, "not_applicable": na,
     "notes": D.NOTES}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
