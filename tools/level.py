#!/usr/bin/env python3
"""dev helper: level.py CNN TECHNIQUE NOTE"""
import json, sys
p = "/verif/tools/levels.json"
d = json.load(open(p))
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
