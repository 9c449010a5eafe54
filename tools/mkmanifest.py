#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks there are."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC explores the bounded specification exhaustively; the code is bound to it by replaying enumerated behaviours and by "
        "validating recorded traces of seeded runs, so the code itself is judged on the runs performed, not on all inputs")
TECH = "TLA+ specification checked with TLC; replay of enumerated behaviours and TLC trace validation of the real code"
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "lib/kp/checks/%s.py" % p.lower())):
        checks.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "its check is not finished yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
