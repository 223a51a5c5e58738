#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    p = f"{root}/seeded/{d}/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append(f"| {d} | {m['property']} | {m['needs']} |")
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
