"""MANIFEST.json from properties.jsonl and levels.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = json.load(open(V + "/levels.json"))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    l = L[p]
    if l.get("not_applicable"):
        na.append(dict(property=p, reason=l["not_applicable"]))
        continue
    checks.append(dict(property=p, quick_cmd=f"python3-vt check.py --property {p} --tier quick",
                       thorough_cmd=f"python3-vt check.py --property {p} --tier thorough",
                       technique=l["technique"], level=l["level"], level_note=l["note"]))
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
               notes="Contracts in contracts/; prover in pyvc/ (obligations from /repo's AST on every run, z3 and cvc5); "
                     "concrete reading of the same contracts in conc/. Known findings and fixes: known-findings.txt. No hooks in /repo."),
          open(V + "/MANIFEST.json", "w"), indent=1)
