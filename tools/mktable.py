#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md. missed.txt next to it lists those the quick check misses."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(H, "DESIGN.md"); s = open(f).read(); k = s.index("<!-- table -->")
mf = os.path.join(H, "tools", "missed.txt"); missed = set(open(mf).read().split()) if os.path.exists(mf) else set()
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", b, "meta.json")))
    c = lambda t: " ".join(t.split()).replace("|", "/")
    rows.append(f"| {b} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {'missed by ' if b in missed else ''}{m['property']} |")
open(f, "w").write(s[:k] + "<!-- table -->\n" + "\n".join(rows) + "\n")
