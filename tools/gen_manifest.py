#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. A property is claimed when harness/src/props/<id>.rs exists."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NOTE = json.load(open(R + "/tools/levels.json"))
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if any(os.path.exists(f"{R}/{d}/src/props/{i.lower()}.rs") for d in ("harness", "editor")) and i in NOTE:
        n = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": n[0], "level": "exploration", "level_note": n[1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet: no check is registered for this property in this revision.")})
m = {"version": 1, "setup_cmd": "./check.sh all",
     "hooks": {"guard": "none", "enable": "no hooks were needed: the monitors use public APIs, the programs' outputs and sanitizer builds", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. check.sh ID builds the harness (path dependencies on /repo) and runs the monitor of that property; ./check.sh ID --replay FILE re-runs one reported case."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
