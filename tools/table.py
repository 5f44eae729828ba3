#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (reads seeded/*/meta.json)."""
import glob, json, os
P = "/verif/DESIGN.md"
MARK = "<!-- table: python3 tools/table.py -->\n"
s = open(P).read().split(MARK)[0] + MARK
rows = []
for m in glob.glob("/verif/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
s += "| caught by | bug | needs |\n|---|---|---|\n" + "".join(f"| {a} | {b} | {c} |\n" for a, b, c in sorted(rows))
open(P, "w").write(s)
