"""One property, decided on /repo's current source.

    python3-vt check.py --property C03 [--tier quick|thorough]

Two processes run side by side:
  proof     pyvc: reads the functions' AST from /repo, generates the obligations of
            their contracts, discharges them with z3 and cvc5
  concrete  conc/run.py under /opt/venv: the same contracts, executed on the real
            functions; it replays counterexamples and stands in, bounded, for what
            the prover does not reach
Exit 0: held on everything explored; 1: VIOLATION line; 2: undecided (broken check)."""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONC = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def known():
    out = []
    for line in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"known: property=(\w+) \| contract=(.*?) \| clause=(.*?) \| message=(.*)$", line.strip())
        if m:
            out.append(m.groups())
    return out


def start(cmd, tmp, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONHASHSEED="0", PYTHONPATH=V)
    return subprocess.Popen(cmd, cwd=tmp, env=env, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT,
                            start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def confirm(prop, fn, ob, tmp):
    """the verifier's counterexample on the real function: confirmed | spurious | None (not executable)"""
    if not ob.get("witness"):
        return None
    w, out = os.path.join(tmp, "w.json"), os.path.join(tmp, "w.out")
    json.dump(dict(contract=fn["contract"], witness=ob["witness"]), open(w, "w"))
    p = start([CONC, os.path.join(V, "conc/run.py"), "--witness", w, "--property", prop, "--out", out], tmp, out)
    try:
        p.wait(60)
    except subprocess.TimeoutExpired:
        stop(p)
    r = load(out)
    if r is None or r["status"] != "ok":
        return None
    return "confirmed" if r["failures"] else "spurious"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 780 if tier == "quick" else 3300
    tmp = tempfile.mkdtemp(prefix="verif_check_")
    evd = os.path.join(V, "evidence")
    os.makedirs(os.path.join(evd, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(evd, "replays")):
        if f.startswith(prop + "_") or f.startswith(prop + "."):
            os.remove(os.path.join(evd, "replays", f))
    try:
        cj, pj = os.path.join(tmp, "c.json"), os.path.join(tmp, "p.json")
        procs = []
        # two independent concrete runs with different seeds use the cores better than one
        seeds = [seed, seed + 1000] if tier == "quick" else [seed + 1000 * i for i in range(4)]
        cjs = [cj + str(i) for i in range(len(seeds))]
        for s, f in zip(seeds, cjs):
            procs.append(start([CONC, os.path.join(V, "conc/run.py"), "--property", prop, "--tier", tier,
                                "--seed", str(s), "--out", f,
                                "--budget", "300" if tier == "quick" else "1500"], tmp, f))
        pp = start([sys.executable, "-m", "pyvc.main", "--property", prop, "--tier", tier, "--out", pj,
                    "--budget", "420" if tier == "quick" else "2400"], tmp, pj)
        for p in procs + [pp]:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                stop(p)
        concs = [load(f) for f in cjs]
        proof = load(pj)
        if any(c is None for c in concs) or proof is None:
            for f in cjs + [pj]:
                if load(f) is None:
                    print(f"ERROR: {os.path.basename(f)} produced no result")
                    print(open(f + ".log").read()[-3000:])
            # a concrete run that died is decided by the others only if they found a violation
        fails = [f for c in concs if c for f in c["failures"]]
        kn, new = [], []
        for f in fails:
            hit = [k for k in known() if k[0] == prop and k[1] == f["contract"] and k[2] == f["clause"]
                   and f["message"].startswith(k[3])]
            (kn if hit else new).append(f)
        shown = set()
        for f in kn:
            key = (f["contract"], f["clause"])
            if key not in shown:
                shown.add(key)
                print(f"KNOWN-FINDING: property={prop} {f['contract']}: {f['clause']}: {f['message']}")
        lost = []     # obligations the prover refuted, that it discharges on the unchanged tree
        degraded = []
        tries = 0
        if proof:
            for fn in proof["functions"]:
                for size, ob in [(None, ob) for ob in fn["obligations"]] + [
                        (k, ob) for k, b in fn.get("bounded", {}).items() for ob in b["obligations"]]:
                    if ob["status"] == "refuted" and ob.get("baseline") == "proved" and ob["kind"] not in ("model", "inv"):
                        v = confirm(prop, fn, ob, tmp) if tries < 12 else None
                        tries += 1
                        ob["replayed"] = v
                        if size:
                            ob["size"] = "every dimension " + size
                        if v == "confirmed" or v is None and ob["kind"] != "safety":
                            lost.append((fn, ob))
                if fn.get("lost"):
                    degraded.append(fn["contract"])
        # what the prover no longer discharges gets a longer concrete search
        if (degraded or lost) and not new and tier == "quick":
            only = sorted(set(degraded) | {fn["contract"] for fn, _ in lost})
            left = limit - (time.time() - t0) - 20
            if left > 30:
                ps = []
                for i in range(4):
                    f = os.path.join(tmp, "x%d" % i)
                    cmd = [CONC, os.path.join(V, "conc/run.py"), "--property", prop, "--tier", "thorough", "--seed",
                           str(seed + 77 + i), "--out", f, "--budget", str(min(120, left))]
                    for c in only:
                        cmd += ["--only", c]
                    ps.append((start(cmd, tmp, f), f))
                for p, f in ps:
                    try:
                        p.wait(max(1, limit - (time.time() - t0)))
                    except subprocess.TimeoutExpired:
                        stop(p)
                    c = load(f)
                    if c:
                        concs.append(c)
                        new += c["failures"]
        rc = 0
        replay = None
        if new:
            f = new[0]
            replay = os.path.join(evd, "replays", f"{prop}_{f['contract']}.json")
            obs = []
            if proof:
                for fn in proof["functions"]:
                    if fn["contract"] == f["contract"]:
                        obs = [dict(ob, function=fn["func"]) for ob in fn["obligations"] if ob["status"] != "proved"]
            json.dump(dict(f, repo=REPO, how=f"{CONC} {V}/conc/run.py --replay {replay}", undischarged_obligations=obs,
                           others=[dict(contract=g["contract"], clause=g["clause"], message=g["message"]) for g in new[1:10]]),
                      open(replay, "w"), indent=1, default=str)
            print(f"{f['file']} {f['func']}: {f['clause']}: {f['message']}"[:1500])
            for o in obs[:10]:
                print(f"obligation not discharged: {o['name']} ({o['status']})")
            print(f"VIOLATION property={prop} replay={replay}")
            rc = 1
        elif lost:
            lost.sort(key=lambda x: x[1]["replayed"] != "confirmed")
            fn, ob = lost[0]
            replay = os.path.join(evd, "replays", f"{prop}_{fn['contract']}_obligation.json")
            json.dump(dict(obligation=ob, function=fn["func"], file=fn["file"], repo=REPO, contract=fn["contract"], witness=ob.get("witness"),
                           how=f"{CONC} {V}/conc/run.py --replay {replay}",
                           others=[dict(function=g["func"], obligation=o) for g, o in lost[1:10]]), open(replay, "w"),
                      indent=1, default=str)
            print(f"{fn['file']} {fn['func']}: obligation {ob['name']} fails: {ob.get('detail', '')}"[:1500])
            print(f"VIOLATION property={prop} replay={replay}" + ("" if ob["replayed"] == "confirmed" else " no-failing-input-found"))
            rc = 1
        elif any(c is None for c in concs) or proof is None:
            rc = 2
        evidence(prop, tier, seed, concs, proof, new, lost, kn, t0)
        sys.stdout.flush()
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def evidence(prop, tier, seed, concs, proof, new, lost, kn, t0):
    level = json.load(open(os.path.join(V, "levels.json"))).get(prop, {}).get("level", "other")
    per = {}
    for c in concs:
        for k, st in ((c or {}).get("contracts") or {}).items():
            d = per.setdefault(k, dict(evaluated=0, distinct=0, outside_precondition=0))
            d["evaluated"] += st["evaluated"]
            d["distinct"] += st["distinct"]
            d["outside_precondition"] += st["skipped"]
            if st.get("samples"):
                d["sample"] = st["samples"][0]
    fns = (proof or {}).get("functions", [])
    obl = [o for f in fns for o in f["obligations"]]
    dis = [o for o in obl if o["status"] == "proved"]
    backends = {}
    for o in dis:
        backends[o.get("backend", "?")] = backends.get(o.get("backend", "?"), 0) + 1
    proved = [f["contract"] for f in fns if f["status"] == "proved"]
    bounded = {k: v for k, v in per.items() if k not in proved}
    cov = dict(
        obligations=len(obl), discharged=len(dis),
        checker_cmd=f"python3-vt -m pyvc.main --property {prop} (z3, then cvc5; obligations generated from /repo's AST on this run)",
        trusted_base=(proof or {}).get("trusted", []),
        functions_under_contract=[dict(contract=f["contract"], file=f["file"], function=f["func"], status=f["status"],
                                       obligations=len(f["obligations"]),
                                       discharged=sum(o["status"] == "proved" for o in f["obligations"]),
                                       not_discharged=[o["name"] + ": " + o["status"] for o in f["obligations"] if o["status"] != "proved"][:12],
                                       reason=f.get("reason", "")[:400],
                                       bounded_sizes={k: dict(status=b["status"], obligations=len(b["obligations"]), reason=b.get("reason", "")[:200],
                                                              discharged=sum(o["status"] == "proved" for o in b["obligations"]))
                                                      for k, b in f.get("bounded", {}).items()}, inlined=f.get("inlined", []),
                                       modular_callees=f.get("modular", []),
                                       solver_s=round(sum(o.get("time", 0) for o in f["obligations"]), 2)) for f in fns],
        discharged_by_backend=backends,
        solver_time_s=round(sum(o.get("time", 0) for o in obl), 2),
        bounded=dict(what="contracts whose obligations are not all discharged, or that are concrete scenarios: executed on the real code, bounded, not proved",
                     contracts=bounded),
        concrete_executions=dict(what="every contract is also executed on the real function; generated arguments, all clauses compared", contracts=per),
        evaluations=sum(d["evaluated"] for d in per.values()),
        distinct_nontrivial=sum(d["distinct"] for d in per.values()),
        rule="arguments generated by the contract's gen() from VERIF_SEED, satisfying its precondition; distinct by content",
        samples=[d["sample"] for d in per.values() if d.get("sample")][:5],
        known_findings=[f"{f['contract']}: {f['clause']}" for f in kn][:5],
        explanation="contracts on the functions of /repo; the prover discharges the obligations counted above from the current source for all inputs; "
                    "the contracts listed under 'bounded' are decided only on the executions counted there")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=(proof or {}).get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new) + len(lost))
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
