#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (one place to keep them in step)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props.PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 checks/run.py --setup", "checks": [], "not_applicable": [],
     "notes": "All checks read /repo's current sources (lowered by clang to IR in a scratch directory); nothing is executed."}
for p in props.PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/run.py %s" % p["id"],
                            "thorough_cmd": "python3 checks/run.py %s --thorough" % p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
