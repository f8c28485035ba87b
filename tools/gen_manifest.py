#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V]
from checks import registry
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every check drives the public interfaces and replaces primitives at link time. "
              "Genuine defects are repaired by the fix: commits in /repo and listed in known_findings.json."}
for i in ids:
    p = registry.P.get(i)
    if p is None:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": p["level"],
                        "level_note": p["rule"] + " Assumes: " + (" ".join(p["assumptions"]) or "nothing beyond the compiler and platform.")})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
print(len(m["checks"]), "checks")
