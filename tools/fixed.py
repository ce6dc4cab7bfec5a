#!/usr/bin/env python3
"""fixed.py PROP COMMIT [PROP COMMIT ...]: records repairs in known_findings.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, "known_findings.json")
d = json.load(open(F))
a = sys.argv[1:]
for prop, c in zip(a[::2], a[1::2]):
    s = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%s", "-1", c], text=True).strip()
    e = "fixed: property=%s %s %s" % (prop, c, s.removeprefix("fix: "))
    if e not in d["fixed"]:
        d["fixed"].append(e)
json.dump(d, open(F, "w"), indent=1)
