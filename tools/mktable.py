#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(D + "/tools/caught.json"))
rows = ["| bug | check | needs | caught at run |", "|---|---|---|---|"]
for b in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(f"{D}/seeded/{b}/meta.json"))
    needs = m["needs"].replace("|", "/").replace("\n", " ")
    rows.append(f"| {b} | {m['property']} | {needs} | {caught.get(b, 'missed')} |")
p = D + "/DESIGN.md"
s = open(p).read()
s = s.split("@@BUGS@@")[0] if "@@BUGS@@" in s else s[: s.index("| bug | check |")]
open(p, "w").write(s + "\n".join(rows) + "\n")
