#!/usr/bin/env python3
"""Rewrites the seeded-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
h = s.index("| bug | property |")
rows = ["| bug | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s | %s |" % (d.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"], m.get("caught", "yes, by ./check " + m["property"])))
open(V + "/DESIGN.md", "w").write(s[:h] + "\n".join(rows) + "\n")
