#!/usr/bin/env python3
"""Writes MANIFEST.json; CLAIMS lists the properties that have a check."""
import json, sys, os
sys.path.insert(0, "/verif/lib")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    c = CLAIMS.get(p["id"])
    if c and "technique" in c:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                            "technique": c["technique"], "level": c.get("level", "model_checking"),
                            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": (c or {}).get("reason", "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
