#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, the per-property notes below and bugs/results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(V + "/tools/notes.py").read(), NOTES)
N = NOTES["NOTES"]
rows = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    n = N.get(p["id"])
    rows.append(f"| {p['id']} {p['title']} | " + (" | ".join(n) if n else "not built yet | | ") + " |")
res = json.load(open(V + "/bugs/results.json")) if os.path.exists(V + "/bugs/results.json") else {}
b = ["| bug | property | needs | result |", "|---|---|---|---|"]
for k in sorted(res, key=lambda k: (res[k]["property"], k)):
    r = res[k]
    b.append(f"| {k} | {r['property']} | {r.get('needs', '')} | {r['result']} |")
s = open(V + "/tools/DESIGN.in.md").read().replace("@TABLE@", "\n".join(rows)).replace("@BUGS@", "\n".join(b))
open(V + "/DESIGN.md", "w").write(s)
