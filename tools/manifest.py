#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    n = NOTES.get(p["id"])
    if n is None:
        na.append({"property": p["id"], "reason": "check not built yet (work in progress)"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
hooks = NOTES.get("hooks")
if hooks:
    m["hooks"] = hooks
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
