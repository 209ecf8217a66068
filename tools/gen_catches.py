#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = set()
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["needs"], d["what_it_breaks"], "missed" if i in miss else "caught by " + d["property"]))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
s = s[:s.index(a) + len(a)] + "| id | needs | breaks | |\n|----|-------|--------|--|\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
print(len(rows))
