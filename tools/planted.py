#!/usr/bin/env python3
"""Rewrite the "Planted bugs" table of DESIGN.md from seeded/*/meta.json (development tool)."""
import json, glob, re
missed = {"c01-local-numeric", "c02-ascii-case", "c15-size-u32", "c20-hash-cache", "c11-take", "c10-debug-empty", "c20-poison"}
for f in open("/verif/tools/missed_first.txt"):
    if f.strip(): missed.add(f.strip())
rows = ["| id | caught by | needs | first seen |", "|----|-----------|-------|------------|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), "missed" if i in missed else "caught"))
p = "/verif/DESIGN.md"; t = open(p).read()
a, b = "<!-- planted:begin -->\n", "<!-- planted:end -->\n"
t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
open(p, "w").write(t)
