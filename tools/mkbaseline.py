"""Records in proved.json what the prover discharges on the unchanged tree.

Only used to tell a proof that was lost from one that never existed; a check never
writes this file."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyvc import main as M  # noqa: E402

reg = M.load_all()
todo = [C for C in reg.values() if M.provable(C)]
if len(sys.argv) > 1:
    todo = [C for C in todo if C.__name__ in sys.argv[1:]]
res = M.run_all(todo, 380, None, 7)
old = M.baseline() if len(sys.argv) > 1 else {}
for r in res:
    old[r["contract"]] = dict(status=r["status"], reason=r["reason"], total=len(r["obligations"]),
                              proved=M.discharged(r["obligations"]),
                              not_proved=sorted(M.norm_name(o["name"]) + ": " + o["status"] for o in r["obligations"] if o["status"] != "proved"))
    for k, x in r.get("bounded", {}).items():
        old[r["contract"]].setdefault("bounded", {})[k] = M.discharged(x["obligations"])
        print("    size", k, x["status"], x["reason"], len(x["obligations"]), [o["name"] for o in x["obligations"] if o["status"] != "proved"])
    print(r["contract"], r["status"], len(old[r["contract"]]["proved"]), "/", len(r["obligations"]), r["reason"][:100], r.get("wall_s"), old[r["contract"]]["not_proved"])
json.dump(dict(sorted(old.items())), open(os.path.join(V, "proved.json"), "w"), indent=1)
