#!/usr/bin/env python3
"""dev helper: kf.py fixed PROP COMMIT WHAT | kf.py finding PROP KEY WHAT"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
kind, prop, k, what = sys.argv[1:5]
if kind == "fixed":
    e = {"status": "fixed", "property": prop, "key": "", "commit": k, "what": what, "line": f"fixed: property={prop} {k} {what}"}
else:
    e = {"status": "finding", "property": prop, "key": k, "what": what}
d["findings"].append(e)
json.dump(d, open(p, "w"), indent=1)
