"""Writes MANIFEST.json from the registry (run after adding a check)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "zv"))
import registry

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        n = registry.NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt /verif/check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt /verif/check.py %s --tier thorough" % i,
            "technique": n.get("technique", "contract-based deductive verification (symbolic execution of the real sources, z3)"),
            "level": n.get("level", "proof"),
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3-vt /verif/tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the sources are verified as they are."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
