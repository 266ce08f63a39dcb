"""Concrete runner: executes the real functions of /repo on generated arguments and
compares every clause of their contracts; also runs the scenarios (stubbed or whole-run).

    /opt/venv/bin/python conc/run.py --property C03 --tier quick --seed 1 --out result.json
    /opt/venv/bin/python conc/run.py --replay file.json
"""
import argparse
import copy
import importlib
import inspect
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

from conc.cenv import CEnv, SpecArr  # noqa: E402
from pyvc.dsl import ANY, NS, REGISTRY  # noqa: E402

import warnings  # noqa: E402
warnings.filterwarnings("ignore")


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def load_all():
    for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if f.endswith(".py") and f not in ("__init__.py", "gens.py"):
            importlib.import_module("contracts." + f[:-3])
    return REGISTRY


class Missing(Exception):
    """the repository has no such function any more: the contract is undecided, not violated"""


def load_fn(file, func):
    mod = "reliabilityassessment." + file[:-3].replace("/", ".")
    try:
        return getattr(importlib.import_module(mod), func)
    except (ModuleNotFoundError, AttributeError) as e:
        raise Missing(f"{file}: {func}: {e}")


def module(file):
    return importlib.import_module("reliabilityassessment." + file[:-3].replace("/", "."))


def describe(x, lim=400):
    if isinstance(x, np.ndarray):
        if x.size <= lim:
            return {"array": x.tolist(), "dtype": str(x.dtype)}
        return {"array_shape": list(x.shape), "dtype": str(x.dtype), "nonzero": int(np.count_nonzero(x)) if x.dtype != object else None}
    if isinstance(x, (np.integer, np.floating, np.bool_)):
        return x.item()
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    if isinstance(x, dict):
        return {str(k): describe(v, lim) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [describe(v, lim) for v in x][:50]
    return repr(x)[:300]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return a is b


def cmp(E, want, got, tag):
    """-> None or message"""
    if want is ANY or want is None and tag == "ret":
        return None
    if isinstance(want, tuple):
        if not isinstance(got, (tuple, list)) or len(got) != len(want):
            return f"{len(want)} results expected, got {describe(got)}"
        for i, (w, g) in enumerate(zip(want, got)):
            m = cmp(E, w, g, tag + str(i))
            if m:
                return f"result {i}: {m}"
        return None
    if isinstance(want, SpecArr):
        if got is None:
            return "nothing returned"
        g = np.asarray(got)
        if tuple(g.shape) != tuple(want.shape):
            return f"shape {tuple(g.shape)}, expected {tuple(want.shape)}"
        if g.dtype == object:
            return "object array"
        w = want.v
        if w.dtype.kind in "ib":
            bad = ~(g == w)
        else:
            gf = g.astype(float)
            fin = w[np.isfinite(w)]
            scale = max(1.0, float(np.abs(fin).max(initial=0)), E.scale)
            bad = ~(np.abs(gf - w) <= 1e-7 * scale)
        if want.skip is not None:
            bad &= ~want.skip
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            return f"at {list(i)}: {g[i]!r}, specified {w[i]!r}"
        return None
    if isinstance(want, (bool, np.bool_)):
        return None if bool(got) == bool(want) else f"{got!r}, specified {want!r}"
    try:
        g = float(np.asarray(got).reshape(()))
    except Exception:
        return f"not a number: {describe(got)}"
    if isinstance(want, (int, np.integer)):
        return None if g == want else f"{got!r}, specified {want!r}"
    return None if E.eq(want, g) else f"{got!r}, specified {want!r}"


def part_props(C, kind):
    p = C.parts.get(kind)
    if p is None and ":" in kind:
        p = C.parts.get(kind.split(":")[0])
    return tuple(p if p is not None else (C.props or sorted({q for v in C.parts.values() for q in v})))


def limit(sec):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sec)


def unlimit():
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_case(C, args, prop=None):
    """-> (status, failures) status in ok|skip; failures = [(kind, clause, message)]"""
    E = CEnv()
    args = dict(args)
    gh = args.pop("_ghost", None)
    E.ghost = NS(gh) if gh else None
    vals = [abs(float(np.nanmax(np.abs(v)))) for v in args.values()
            if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "fi"]
    E.scale = 1.0
    old = copy.deepcopy(args)
    o = NS(old)
    want = lambda k: prop is None or prop in part_props(C, k)
    for name, f in C.requires(E, o):
        if not f:
            return "skip", [("requires", name, "")]
    new = copy.deepcopy(args)
    fails = []
    try:
        limit(getattr(C, "timeout", 20))
        try:
            if hasattr(C, "call"):
                r = C.call(load_fn, new)
            else:
                r = load_fn(C.file, C.func)(*new.values())
        finally:
            unlimit()
    except Missing as e:
        return "skip", [("requires", f"missing: {e}", "")]
    except Timeout:
        return "ok", [("safety", "terminates", "no result after %s s" % getattr(C, "timeout", 20))]
    except SystemExit as e:
        if not C.exits:
            return "ok", [("safety", "does not exit", repr(e))]
        r = None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "ok", [("safety", "no exception on valid arguments", f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")]
    n = NS(new)
    for k in old:
        if k not in C.modifies and not same(old[k], new[k]):
            fails.append(("frame", f"argument {k} unchanged", ""))
    if C.spec is not None:
        res, mut = C.spec(E, o)
        if isinstance(res, tuple) and isinstance(r, (tuple, list)) and len(r) == len(res):
            for i, (w, g) in enumerate(zip(res, r)):
                m = cmp(E, w, g, "ret")
                if m:
                    fails.append((f"ret:{i}", f"result {i}", m))
        else:
            m = cmp(E, res, r, "ret")
            if m:
                fails.append(("ret", "result", m))
        for k, w in mut.items():
            m = cmp(E, w, new[k], k)
            if m:
                fails.append(("mut:" + k, f"final value of {k}", m))
        for k in C.modifies:
            if k not in mut and not same(old[k], new[k]):
                fails.append(("frame", f"argument {k} unchanged", ""))
    try:
        for name, f in C.ensures(E, o, n, r):
            if callable(f):
                f = f()
            if isinstance(f, str):
                fails.append(("ens", name, f))
            elif not f:
                fails.append(("ens", name, "false"))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        fails.append(("ens", "result has the specified form", f"{type(e).__name__}: {e} {tb.filename}:{tb.lineno} result {describe(r)}"))
    for name, f in C.lemmas(E, o):
        if not f:
            fails.append(("lemma", name, "false (specification lemma)"))
    return "ok", [(k, c, m) for k, c, m in fails if k == "lemma" or want(k)]


def case_args(C, seed, k):
    rng = np.random.default_rng([seed, k, zlib.crc32(C.__name__.encode())])
    return C.gen(rng, k)


class Patched:
    """every module of the package that refers to the function gets the stand-in, for the duration"""

    def __init__(self, *pairs):
        self.pairs, self.undo = pairs, []

    def __enter__(self):
        for orig, new in self.pairs:
            for name, m in list(sys.modules.items()):
                if name.startswith("reliabilityassessment") and m is not None:
                    for k, v in list(vars(m).items()):
                        if v is orig:
                            self.undo.append((m, k, v))
                            setattr(m, k, new)
        return self

    def __exit__(self, *a):
        for m, k, v in self.undo:
            setattr(m, k, v)


def bound(fn, a, k):
    """arguments of a call by parameter name"""
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


class Quiet:
    """scratch working directory, silent stdout"""

    def __enter__(self):
        self.old = os.getcwd()
        self.tmp = tempfile.TemporaryDirectory(prefix="verif_")
        os.chdir(self.tmp.name)
        sys.stdout.flush()
        self.fd = os.dup(1)
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        os.close(nul)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.fd, 1)
        os.close(self.fd)
        os.chdir(self.old)
        self.tmp.cleanup()


def run_scenario(C, seed, k):
    rng = np.random.default_rng([seed, k, zlib.crc32(C.__name__.encode())])
    T = NS(dict(fn=load_fn, module=module, tmp=os.getcwd(), describe=describe, same=same, CEnv=CEnv, Patched=Patched, bound=bound, cmp=cmp))
    try:
        limit(getattr(C, "timeout", 120))
        try:
            return C.run(T, rng, k)
        finally:
            unlimit()
    except Missing as e:
        return []
    except Timeout:
        return [("terminates", "no result after %s s" % getattr(C, "timeout", 120), None)]
    except SystemExit as e:
        return [("does not exit", repr(e), None)]
    except Exception as e:
        return [("no exception on a valid run", f"{type(e).__name__}: {e} " + " <- ".join(
            f"{os.path.basename(t.filename)}:{t.lineno}" for t in reversed(traceback.extract_tb(e.__traceback__)[-4:])), None)]


def is_scn(C):
    return getattr(C, "scenario", False)


def relevant(C, prop):
    allp = set(C.props) | {p for v in C.parts.values() for p in v}
    return prop in allp


def from_witness(C, w):
    """arguments described by a model of the prover, in the types the generator uses"""
    like = case_args(C, 1, 0)

    def val(d, t):
        if isinstance(d, dict) and "fields" in d:
            t = t if isinstance(t, dict) else {}
            return {k: val(x, t.get(k)) for k, x in d["fields"].items()}
        if isinstance(d, dict) and "values" in d:
            dt = t.dtype if isinstance(t, np.ndarray) else {"r": float, "b": bool, "i32": np.int32}.get(d["kind"], int)
            return np.array(d["values"], dtype=dt).reshape(d["shape"])
        return t if d is None else float(d) if isinstance(t, float) else d
    out = {k: val(d, like.get(k)) for k, d in w.items() if k != "_ghost"}
    out = {k: out[k] for k in like if k != "_ghost"}
    if "_ghost" in w:
        out["_ghost"] = {k: val(d, None) for k, d in w["_ghost"].items()}
    return out


def try_witness(path, prop=None):
    """-> status ok|skip|unusable, failures"""
    d = json.load(open(path))
    C = load_all()[d["contract"]]
    if not getattr(C, "concrete", True) and not getattr(C, "replay", False):
        return "unusable", []
    with Quiet():
        try:
            args = from_witness(C, d["witness"])
            s, f = run_case(C, args, prop)
        except Exception as e:
            return "unusable", [("", "", repr(e))]
    return s, f


def run_prop(prop, tier, seed, only=None, budget=None):
    reg = load_all()
    t0 = time.time()
    out = {"contracts": {}, "failures": []}
    todo = [C for C in reg.values() if relevant(C, prop) and getattr(C, "concrete", True) and (only is None or C.__name__ in only)]
    budget = budget or (240 if tier == "quick" else 700)
    extra = 40 if tier == "quick" else budget
    with Quiet():
        for ci, C in enumerate(todo):
            # the planned number is a floor; what is left of the budget goes on beyond it
            N = getattr(C, "n_quick", 300) if tier == "quick" else getattr(C, "n_thorough", None) or 10 * getattr(C, "n_quick", 300)
            most = 30 * N
            st = dict(evaluated=0, skipped=0, planned=N, wall_s=0.0, samples=[])
            t1 = time.time()
            share = (t0 + budget - t1) / (len(todo) - ci)
            distinct = set()
            for k in range(most):
                if time.time() - t1 > share and k > 2:
                    break
                if k >= N and time.time() - t1 > extra / max(1, len(todo)):
                    break
                if is_scn(C):
                    fails = [("scn", c, m, w) for c, m, w in C_filter(C, run_scenario(C, seed, k), prop)]
                    st["evaluated"] += 1
                    distinct.add(k)
                    args = None
                else:
                    args = case_args(C, seed, k)
                    s, f = run_case(C, args, prop)
                    if s == "skip":
                        st["skipped"] += 1
                        st.setdefault("skip_reasons", {}).setdefault(f[0][1], 0)
                        st["skip_reasons"][f[0][1]] += 1
                        continue
                    st["evaluated"] += 1
                    distinct.add(zlib.crc32(pickle.dumps(args)))
                    fails = [(a, b, c, None) for a, b, c in f]
                    if len(st["samples"]) < 1:
                        st["samples"].append(json.dumps(describe(args, 12))[:400])
                for kind, clause, msg, w in fails:
                    out["failures"].append(dict(
                        contract=C.__name__, file=C.file, func=C.func, case=k, seed=seed, kind=kind, clause=clause,
                        message=msg, witness=describe(w), args=describe(args), property=prop))
                if fails and len(out["failures"]) >= 5:
                    break
            st["distinct"] = len(distinct)
            st["wall_s"] = round(time.time() - t1, 2)
            out["contracts"][C.__name__] = st
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def C_filter(C, res, prop):
    """scenario clauses may be (clause, message, witness) with 'C12: text' prefixes selecting properties"""
    out = []
    for c, m, w in res:
        head = c.split(":")[0]
        if len(head) >= 3 and head[0] == "C" and head[1:3].isdigit():
            if prop not in head.split(","):
                continue
        out.append((c, m, w))
    return out


def replay(path):
    reg = load_all()
    d = json.load(open(path))
    if "witness" in d and "contract" in d and "case" not in d:
        s, f = try_witness(path)
        for x in f:
            print("FAILS:" if s == "ok" else s + ":", x)
        return 1 if s == "ok" and f else 0
    if "contract" not in d or "case" not in d:
        print("nothing to execute: the replay names an obligation")
        return 0
    C = reg[d["contract"]]
    with Quiet():
        if is_scn(C):
            f = run_scenario(C, d["seed"], d["case"])
        else:
            s, f = run_case(C, case_args(C, d["seed"], d["case"]))
    for x in f:
        print("FAILS:", x)
    return 1 if f else 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--witness")
    ap.add_argument("--only", action="append")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    if a.witness:
        s, f = try_witness(a.witness, a.property)
        json.dump(dict(status=s, failures=f), open(a.out, "w"), default=str)
        sys.exit(0)
    if a.replay:
        sys.exit(replay(a.replay))
    res = run_prop(a.property, a.tier, a.seed, a.only, a.budget)
    txt = json.dumps(res, indent=1, default=str)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(txt[:6000])
