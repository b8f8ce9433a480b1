#!/usr/bin/env python3
"""Rewrites the table of the planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{root}/seeded")):
    p = f"{root}/seeded/{d}/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        c = lambda s: s.replace("|", "\\|").replace("\n", " ")
        rows.append(f"| {d} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
f = f"{root}/DESIGN.md"
s = open(f).read()
i = s.index("| bug | property")
j = s.index("\n\n## 7.")
head = s[i:].split("\n")[:2]
open(f, "w").write(s[:i] + "\n".join(head + rows) + s[j:])
