#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
levels = json.load(open(R + "/tools/levels.json"))
kf = json.load(open(R + "/known_findings.json"))["findings"]
catches = json.load(open(R + "/tools/catches.json"))
bugs = {}
for b in sorted(os.listdir(R + "/seeded")):
    m = f"{R}/seeded/{b}/meta.json"
    if os.path.exists(m): bugs[b] = json.load(open(m))
def lit(s): return [x.encode().decode("unicode_escape").encode("latin1", "replace").decode("utf8", "replace") if "\\" in x else x for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s, re.S)]
def source(i):
    for d in ("harness", "editor"):
        p = f"{R}/{d}/src/props/{i.lower()}.rs"
        if os.path.exists(p): return open(p).read()
    return ""
out = [open(R + "/tools/design_head.md").read(), "## Properties\n"]
for p in props:
    i, s = p["id"], source(p["id"])
    rule = re.search(r'\brule:\s*("(?:[^"\\]|\\.)*")', s, re.S)
    ass = re.search(r"\bassumptions:\s*&\[(.*?)\],?\s*\n\s*(?:\.\.|\w+:|\})", s, re.S)
    scen = re.search(r"\bdirected:\s*&\[(.*?)\],\s*\n", s, re.S)
    t = levels.get(i, ["", ""])
    out.append(f"### {i} {p['title']}\n")
    out.append(f"* Decided by: {t[0]}.")
    if rule: out.append(f"* Workload and oracle: {lit(rule.group(1))[0]}.")
    if scen and lit(scen.group(1)): out.append(f"* Directed scenarios, in every run: {'; '.join(lit(scen.group(1)))}.")
    if ass and lit(ass.group(1)): out.append("* Assumptions: " + "; ".join(lit(ass.group(1))) + ".")
    out.append(f"* Bounds: {t[1].rstrip('.')}.")
    out.append(f"* Beyond the tests: {p['why_tests_cant']}")
    mine = [b for b in bugs if bugs[b]["property"] == i]
    if mine: out.append("* Planted bugs: " + ", ".join(f"`{b}` ({'caught' if i in catches.get(b, []) else 'not caught'})" for b in mine) + ".")
    fixed = [f for f in kf if f["status"] == "fixed" and f["property"] == i]
    if fixed: out.append("* Defects it found, repaired: " + "; ".join(f"{f['what']} ({f['commit']})" for f in fixed) + ".")
    known = [f for f in kf if f["status"] != "fixed" and f["property"] == i]
    if known: out.append("* Known findings: " + "; ".join(f["what"] for f in known) + ".")
    out.append("")
out.append("## Planted bugs\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|")
c = lambda t: t.replace("|", "\\|").replace("\n", " ")
for b, m in bugs.items(): out.append(f"| {b} | {m['property']} | {c(str(m['needs']))} | {c(m['what_it_breaks'])} | {', '.join(catches.get(b, [])) or 'none'} |")
out.append("")
out.append(open(R + "/tools/design_tail.md").read())
open(R + "/DESIGN.md", "w").write("\n".join(out))
print(len(bugs), "bugs,", sum(1 for b in bugs if catches.get(b)), "caught")
