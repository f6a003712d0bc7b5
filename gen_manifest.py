#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
exec(open(here + "/claims.py").read())
checks, na = [], []
for i in ids:
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not decided yet by a check")})
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current source by the Go program in tool/ (SSA form, points-to, lock-state, zone and automata analyses). There are no hooks in /repo."}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
