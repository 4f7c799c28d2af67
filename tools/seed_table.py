#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"].replace("|", "/").replace("\n", " ")))
rows.sort()
missed = {}  # id: remark, for bugs the check does not catch
out = ["Each was written from the property's text and the code, confirmed by its demonstration on both trees, and then run against",
       "the check of its property (quick tier).", "",
       "| property | planted bug | needs | caught by |", "|----|----|----|----|"]
for p, d, n in rows:
    out.append(f"| {p} | {d} | {n} | {missed.get(d, p + ' quick')} |")
s = open(f"{here}/DESIGN.md").read()
head = s.split("## Planted bugs")[0]
open(f"{here}/DESIGN.md", "w").write(head + "## Planted bugs\n\n" + "\n".join(out) + "\n")
