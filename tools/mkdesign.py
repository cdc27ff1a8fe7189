#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded and the
record of what caught them (tools/caught.txt: id, property, caught or missed)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(V + "/tools/caught.txt"):
    if l.split(): caught.setdefault(l.split()[0], []).append(l.split()[1:])
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    c = caught.get(d, [])
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), ", ".join(p if r == "caught" else "missed by " + p for p, r in c) or "not run"))
t = "| bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- end -->)", lambda x: x.group(1) + t + x.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
