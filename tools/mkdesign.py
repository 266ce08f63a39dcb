"""DESIGN.md from its template: the per-property table and the planted bugs are filled in"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/DESIGN.in.md").read()
L = json.load(open(V + "/levels.json"))
title = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
rows = []
for k in sorted(L):
    if "not_applicable" in L[k]:
        rows.append(f"| {k} | - | {title[k]}: not applicable, see below |")
        continue
    pr, bd = [], []
    for x in L[k]["note"].split("; "):
        (bd if x.startswith("bounded") else pr).append(x.removeprefix("proved: ").removeprefix("bounded: "))
    rows.append(f"| {k} | {'; '.join(pr) or '-'} | {'; '.join(bd) or '-'} |")
na = "; ".join(L[k]["not_applicable"] for k in sorted(L) if "not_applicable" in L[k])
seeds = []
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    seeds.append(f"* `{s}` ({m['property']}): {m['what_it_breaks'].rstrip('.')}; needs {m['needs'].rstrip('.')}.")
t = t.replace("@TABLE@", "\n".join(rows)).replace("@C26@", na).replace("@SEEDS@", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(t)
