#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[1], m["property"], cell(m["what_it_breaks"]),
                cell(m["needs"]), cell(m.get("caught_by", "?"))))
s = open("DESIGN.md").read()
a = s.index("Each is in `seeded/<id>/`"); a = s.index("\n\n", a) + 2
b = s.index("Discarded since existing tests")
open("DESIGN.md", "w").write(s[:a] + "\n".join(rows) + "\n\n" + s[b:])
