#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": []}
for i in ids:
    if i not in PLAN: continue
    p = PLAN[i]
    m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m["not_applicable"] = [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in PLAN]
m["notes"] = "No hooks are added to /repo: NuDB is generic over its File type and hash function, so the monitors plug in there. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
