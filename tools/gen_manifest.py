#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from bin/props.py (claimed properties) and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
NOTE = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in props.PLANS:
        n = NOTE.get(p, NOTE["default"])
        checks.append({"property": p, "quick_cmd": f"python3 bin/check.py {p} quick", "thorough_cmd": f"python3 bin/check.py {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": NOTE.get("na", {}).get(p, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo: the harness uses its public interface only. /repo carries fix: commits only; see known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
