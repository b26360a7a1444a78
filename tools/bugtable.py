#!/usr/bin/env python3
"""rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
one = lambda t: " ".join(t.split()).replace("|", "/")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
i = s.index("| id | property | what it breaks | needs |")
rows = ["| id | property | what it breaks | needs |", "|----|----------|----------------|-------|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], one(m["what_it_breaks"]), one(m["needs"])))
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
