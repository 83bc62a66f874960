#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json ({id: [checks that report it]})."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(V, "tools", "caught.json")
if os.path.exists(p):
    caught = json.load(open(p))
rows = ["| Planted bug | Property | Needs | Reported by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(caught.get(d, ['?']))} |")
t = open(os.path.join(V, "DESIGN.md"), encoding="utf-8").read()
a = t.index("## 5. Planted bugs")
b = t.find("\n## 6", a)
body = """## 5. Planted bugs

Each was written from a property and the code, applied, confirmed (stable tests pass, demonstration fails), and the checks were run on it
(`tools/mkseed.py`, `tools/crosscheck.py`).

"""
t = t[:a] + body + "\n".join(rows) + "\n" + (t[b:] if b >= 0 else "")
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write(t)
