#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
T = {}
exec(open(f"{here}/tools/checks_table.py").read(), T)
TABLE, NA = T["TABLE"], T["NOT_APPLICABLE"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        tech, level, note = TABLE[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": tech, "level": level, "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{here}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
