#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{R}/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
rows = ["| bug | caught by | needs | breaks |\n|---|---|---|---|\n"]
for f in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n")
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "".join(rows) + s[j:])
