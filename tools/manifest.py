#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist (checks/<ID>.py with TECHNIQUE, NOTE)"""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "checks", p["id"] + ".py")
    if os.path.exists(f) and p["id"] not in NA:
        c = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id in ("TECHNIQUE", "NOTE", "LEVEL"):
                c[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({"property": p["id"], "quick_cmd": "./run_check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "./run_check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": c["TECHNIQUE"], "level": c.get("LEVEL", "model_checking"), "level_note": c["NOTE"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet in this framework; the design is in DESIGN.md")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specifications are TLA+ (specs/), checked and used for trace validation with TLC. No hooks are needed in /repo: "
              "the real code is observed through its public C and Python interfaces and a scripted QP solver installed at link level. Seeded changes: seeded/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
