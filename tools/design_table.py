#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
rows = ["| property | bug | needs | quick check |", "|---|---|---|---|"]
for p in sorted(by):
    for i, m in by[p]:
        rows.append(f"| {p} | {i} | {m['needs']} | {m.get('caught', 'catches it')} |")
d = open(here + "/DESIGN.md").read()
a = d.index("<!-- planted -->")
open(here + "/DESIGN.md", "w").write(d[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n")
print(sum(map(len, by.values())), "bugs")
