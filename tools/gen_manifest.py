#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {}
def add(ids, binary, tech, note):
    for i in ids.split():
        T[i] = (binary, tech, note)
exec(open(V + "/tools/checks.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        b, tech, note = T[i]
        checks.append({
            "property": i,
            "quick_cmd": f"tools/check.sh {b} {i}",
            "thorough_cmd": f"tools/check.sh {b} {i} thorough",
            "technique": tech,
            "level": "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed: the machinery that would decide it is not built")})
m = {
    "version": 1,
    "setup_cmd": "tools/setup.sh",
    "hooks": HOOKS,
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
