#!/usr/bin/env python3
"""regenerate MANIFEST.json from tools/checks.py and properties.jsonl"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "", "enable": "", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "All checks build their harnesses from /repo's working tree; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        b = c["bounds"] if isinstance(c["bounds"], str) else c["bounds"]["quick"]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i,
                            "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                            "technique": "model checking: " + c["technique"], "level": c.get("level", "model_checking"),
                            "level_note": ("bounds (quick): " + b + ("; " + c["note"] if c["note"] else ""))[:1500]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
