#!/usr/bin/env python3
"""Adds the planted bugs that DESIGN.md does not list yet to its table."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a = s.index("<!-- planted -->")
rows = {}
lines = s[a:].split("\n")
i = 3
while i < len(lines) and lines[i].startswith("| c"):
    rows[lines[i].split("|")[1].strip()] = lines[i]
    i += 1
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    if d not in rows:
        m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        rows[d] = f"| {d} | {m['what_it_breaks']} | {m['property']}{' (' + sys.argv[1] + ')' if len(sys.argv) > 1 else ''} |"
open(p, "w").write(s[:a] + "\n".join(lines[:3] + [rows[k] for k in sorted(rows)] + lines[i:]))
