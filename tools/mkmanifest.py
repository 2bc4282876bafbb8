#!/usr/bin/env python3
"""writes MANIFEST.json from the tables below"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the LLVM IR of the current C source"
T = {}   # id -> (technique, level, note)
exec(open(os.path.join(R, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in T:
        t, lv, note = T[i]
        c = {"property": i, "quick_cmd": "python3-vt /verif/check.py %s --tier quick" % i,
             "thorough_cmd": "python3-vt /verif/check.py %s --tier thorough" % i,
             "technique": t, "level": lv, "level_note": note}
        checks.append(c)
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import sys; sys.exit(0)'", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
