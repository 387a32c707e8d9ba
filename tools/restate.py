#!/usr/bin/env python3
"""dev helper: restate.py CNN < new statement: replaces the statement in gen_properties.py"""
import re, sys, subprocess
p = "/verif/tools/gen_properties.py"
s = open(p).read()
new = " ".join(sys.stdin.read().split()).replace('"', '\\"')
lines = s.split("\n")
i = next(k for k, l in enumerate(lines) if l.startswith(f'p("{sys.argv[1]}"'))
lines[i + 1] = f'  "{new}",'
open(p, "w").write("\n".join(lines))
subprocess.check_call(["python3", p])
