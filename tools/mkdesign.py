#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and the list below."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(V, "tools", "caught.txt")):
    if l.strip() and not l.startswith("#"):
        k, v = l.strip().split(None, 1)
        caught[k] = v
rows = ["| planted bug | needs | caught by (quick check, seed 1) |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append(f"| {n} | {d['needs']} | {caught.get(n, '(not run)')} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
