#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, E = "<!-- planted bugs -->", "<!-- end -->"
rows = ["| bug | property (check that reports it) | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    cell = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {cell(m['needs'])} | {cell(m['what_it_breaks'])} |")
p = V + "/DESIGN.md"
s = open(p).read()
a, b = s.index(B), s.index(E)
open(p, "w").write(s[:a] + B + "\n" + "\n".join(rows) + "\n" + s[b:])
