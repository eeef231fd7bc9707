#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": CLAIMS[i][0], "level": "model_checking",
                       "level_note": CLAIMS[i][1]})
    else:
        na.append({"property": i, "reason": NOT.get(i, "No check yet: its specification module is not finished.")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "Every check rebuilds /repo's libraries and its driver from the working tree (out of tree, in /verif/.build), model-checks "
                    "its TLA+ module with TLC and replays the specification's behaviours in the real code. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
