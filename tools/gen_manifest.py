#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason="the check is not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                       thorough_cmd=f"python3 check.py {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=checks, not_applicable=na,
         notes="All checks use the exported API of sdrainer or the program itself; there are no hooks in /repo. Each check builds its harness from /repo's working tree.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
