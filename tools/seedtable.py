#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it needs to manifest |", "|---|---|---|"]
for n in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['needs']} |")
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| planted bug \|.*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, flags=re.S)
open(p, "w").write(s)
