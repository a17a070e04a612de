#!/usr/bin/env python3
"""refreshes the two generated tables of DESIGN.md (repairs, planted bugs)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(f"{V}/known_findings.json"))
fix = "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(f"| {x['property']} | {x['commit']} | {x['what']} |" for x in k)
rows = []
for s in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    rows.append((m["property"], s, m["what_it_breaks"]))
seed = "| caught by | change | what it breaks |\n|---|---|---|\n" + "\n".join(f"| {a} | {b} | {c} |" for a, b, c in sorted(rows))
d = open(f"{V}/DESIGN.md").read()
for name, t in (("fixes", fix), ("seeds", seed)):
    d = re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m.group(1) + t + "\n" + m.group(2), d, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(d)
