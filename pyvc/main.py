"""Driver: obligations of every contract that serves a property, from /repo's AST."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")

import z3  # noqa: E402

from pyvc import terms as T  # noqa: E402
from pyvc.dsl import ANY, NS, REGISTRY  # noqa: E402
from pyvc.prove import Prover  # noqa: E402
from pyvc.sem import Engine, Obl, is_scalar  # noqa: E402
from pyvc.sym import Partial, SymArr, SymE  # noqa: E402
from pyvc.terms import Unsupported  # noqa: E402
from pyvc.vals import UNDEF, Arr, Masked, Maybe, Opaque, Poison, memo  # noqa: E402


def load_all():
    for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if f.endswith(".py") and f not in ("__init__.py", "gens.py"):
            importlib.import_module("contracts." + f[:-3])
    return REGISTRY


def all_props(C):
    return sorted(set(C.props) | {p for v in C.parts.values() for p in v})


def part_props(C, kind):
    p = C.parts.get(kind)
    if p is None and ":" in kind:
        p = C.parts.get(kind.split(":")[0])
    return tuple(p if p is not None else (C.props or all_props(C)))


def provable(C):
    return not getattr(C, "scenario", False) and not getattr(C, "assumed", False) and getattr(C, "symbolic", not hasattr(C, "call"))


def formula(f):
    if callable(f) and not T.is_z3(f):
        f = f()
    return f


class Run:
    """one execution of a function against its contract"""

    def __init__(self, C, dims=None, deadline=None, repo=REPO):
        self.C = C
        self.dims = dims
        E = self.E = SymE()
        E.dims = dims or {}
        eng = self.eng = Engine(repo, REGISTRY, exclude=[C.__name__, *getattr(C, "inlines", ())])
        eng.deadline = deadline
        eng.trace_of = getattr(C, "traces", ())
        eng.opaque_of = getattr(C, "opaque", {})
        eng.callees = getattr(C, "callees", {})
        eng.spec_env = E
        eng.forget = getattr(C, "forget", ())
        eng.must_end = getattr(C, "ends", True)
        eng.nan_ok = getattr(C, "nan_ok", False)
        fd = eng.funcdef(C.file, C.func)
        args = C.args(E)
        o = NS(dict(args))
        self.o = o
        if hasattr(C, "ghost"):
            E.ghost = NS(C.ghost(E, o))
            eng.ghost, eng.ghost_fn = E.ghost, C.ghost
        eng.args_ns = o
        names = [a.arg for a in fd.args.posonlyargs + fd.args.args]
        vals, bufs = {}, {}
        pos = []
        def given(k, v):
            if isinstance(v, SymArr):
                x = eng.alloc(v.shape, v.kind, v.content, k)
                bufs[k] = (x, v.content)
                return x
            if isinstance(v, dict):
                d = {i: given(f"{k}[{i!r}]", y) for i, y in v.items()}
                eng.given[id(d)] = d
                return d
            return v
        for k, v in args.items():
            pos.append(given(k, v))
        for f in E.facts:
            eng.assume(f)
        for name, f in C.requires(E, o):
            eng.assume(T.lit(formula(f)))
        eng.frames.append(dict(file=C.file, locals=()))
        vals = eng.bind(fd, pos, {}, C.file)
        eng.frames.pop()
        if hasattr(C, "invariants"):
            inv = C.invariants(E)
            if inv:
                eng.invariants[(C.file, C.func)] = inv
        self.pre = eng.st.hyps()
        if fd.decorator_list:
            raise Unsupported("decorated function")
        eng.base_path = len(eng.st.path)
        if hasattr(C, "sym_call"):
            # several functions in sequence
            outs = [("ret", eng.st, C.sym_call(eng, pos))]
            outs[0] = ("ret", eng.st, outs[0][2])
        else:
            outs = eng.run_body(fd, C.file, vals)
        rets, raises = [], []
        for kind, s, v in outs:
            (rets if kind == "ret" else raises).append((s, v))
        for s, v in raises:
            if C.exits:
                continue
            eng.st = s
            eng.oblige("no exception raised", False)
        if hasattr(C, "at_exit"):
            from pyvc.loops import state_vars
            E.trace = [(c, NS({k: self.spec_side(v) for k, v in ns.items()}), f) for c, ns, f in eng.trace]
            for s, v in rets:
                eng.st = s
                for name, f in C.at_exit(E, o, state_vars(eng, s)):
                    eng.oblige(name, formula(f), self.kind_of(name, "ens"))
        if len(rets) > 1 and len({type(v) for _, v in rets}) > 1:
            # a way out that returns something else altogether is dropped when it is proved impossible
            rets = [(s, v) for s, v in rets if not self.impossible(s)] or rets[-1:]
        if not rets:
            raise Unsupported("no normal return")
        base = len(eng.st.path)
        if len(rets) == 1:
            st, res = rets[0]
        else:
            st, res = eng.merge_states(base, len(self.pre) - base, rets)
        eng.st = st
        self.res = res
        for ob in eng.obls:
            ob.where = ob.line
        # ---- clauses
        n = {}
        for k, v in args.items():
            if k in bufs:
                x, c0 = bufs[k]
                c1 = st.heap[x.buf.id]
                n[k] = SymArr(x.shape, c1, x.kind)
            else:
                n[k] = v
        nn = NS(n)
        self.count_frame = 0

        def unchanged(k):
            x, c0 = bufs[k]
            c1 = st.heap[x.buf.id]
            if c1 is c0:
                self.trivial.append(Obl(f"argument {k} unchanged", "frame", [], True))
            else:
                self.compare(f"argument {k} unchanged", "frame", SymArr(x.shape, c0, x.kind), SymArr(x.shape, c1, x.kind))
        self.trivial = []
        for k in bufs:
            if k not in C.modifies:
                unchanged(k)
        E.calls = {k: [NS(dict(cond=c.cond, args=NS({a: self.spec_side(v) for a, v in c.args.__dict__.items()}), ret=c.ret, mut=c.mut))
                       for c in v] for k, v in eng.calls.items()}
        if C.spec is not None:
            want, mut = C.spec(E, o)
            self.assume_facts(E)
            if want is not None:
                self.compare("result", "ret", want, res)
            for k, w in mut.items():
                if k in bufs:
                    self.compare(f"final value of {k}", "mut:" + k, w, n[k])
                else:
                    raise Unsupported("changed argument %s" % k)
            for k in C.modifies:
                if k not in mut and k in bufs:
                    unchanged(k)
        r = self.spec_side(res)
        E.trace = [(c, NS({k: self.spec_side(v) for k, v in ns.items()}), f) for c, ns, f in eng.trace]
        for name, f in C.ensures(E, o, nn, r):
            f = formula(f)
            self.assume_facts(E)
            if isinstance(f, str):
                raise Unsupported("ensures clause is concrete only")
            eng.oblige(name, f, self.kind_of(name, "ens"))
        steps = []
        for name, f in C.lemmas(E, o):
            f = formula(f)
            self.assume_facts(E)
            eng.obls.append(Obl("lemma: " + name, self.kind_of(name, "lem"), self.pre + [T.to_z3(x) for x in E.facts + steps], f))
            if name.startswith("step"):
                steps.append(f)     # a step of a longer argument: an obligation itself, and known to the lemmas that follow
        self.obls = eng.obls + self.trivial
        only = getattr(C, "focus", None)
        if only:
            # a contract of the same function with stronger preconditions, there for these obligations; another decides the rest
            self.obls = [x for x in self.obls if any(w in x.name for w in only)]

    def impossible(self, st):
        try:
            return Prover(time.time() + 10).prove(st.hyps(), False).status == "proved"
        except (Unsupported, z3.Z3Exception):
            return False

    def assume_facts(self, E):
        pass

    def kind_of(self, name, dflt):
        head = name.split(":")[0]
        return head if head in self.C.parts else dflt

    def spec_side(self, v):
        eng = self.eng
        if isinstance(v, (tuple, list)):
            return tuple(self.spec_side(x) for x in v)
        if isinstance(v, dict):
            return {k: self.spec_side(x) for k, x in v.items()}
        if isinstance(v, Maybe):
            return self.spec_side(eng.force(v))
        if isinstance(v, Arr):
            if v.ndim == 0:
                return eng.read(v, ())
            return SymArr(v.shape, eng.reader(v), v.kind)
        return v

    def compare(self, name, kind, want, got):
        eng = self.eng
        if want is ANY:
            return
        if isinstance(got, Maybe):
            got = eng.force(got)
        if isinstance(want, tuple):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                eng.oblige(f"{name}: {len(want)} values", False, kind)
                return
            for i, (w, g) in enumerate(zip(want, got)):
                self.compare(f"{name} {i}", f"ret:{i}" if kind == "ret" else kind, w, g)
            return
        if isinstance(got, (Poison, Opaque, Masked)):
            raise Unsupported("%s is not tracked" % name)
        if isinstance(want, SymArr):
            if isinstance(got, (list, tuple)):
                got = eng.as_arr(got)
            if got is None or is_scalar(got):
                eng.oblige(f"{name}: an array", False, kind)
                return
            if len(got.shape) != len(want.shape):
                eng.oblige(f"{name}: dimensions", False, kind)
                return
            for d, (p, q) in enumerate(zip(want.shape, got.shape)):
                if not eng.same(p, q):
                    eng.oblige(f"{name}: dimension {d}", T.cmp("==", p, q), kind)
            rd = eng.reader(got)
            if all(isinstance(T.lit(T.num(s)), int) for s in want.shape):
                tot = 1
                for s in want.shape:
                    tot *= T.lit(T.num(s))
                if tot <= 64:
                    import itertools
                    for ix in itertools.product(*[range(T.lit(T.num(s))) for s in want.shape]):
                        self.clause(f"{name}[{','.join(map(str, ix))}]", kind, True, want.content(*ix), rd(*ix), want.kind)
                    return
            ks = [T.fresh_int("k") for _ in want.shape]
            g = T.And(*[T.And(T.cmp("<=", 0, k), T.cmp("<", k, s)) for k, s in zip(ks, want.shape)])
            self.clause(name, kind, g, want.content(*ks), rd(*ks), want.kind)
            return
        if want is None:
            return
        if isinstance(got, Arr):
            got = eng.scalar(got)
        if got is None or isinstance(got, (tuple, list, str)):
            eng.oblige(f"{name}: a number", False, kind)
            return
        self.clause(name, kind, True, want, got, None)

    def clause(self, name, kind, guard, want, got, wk):
        if want is ANY:
            return
        cond = True
        if isinstance(want, Partial):
            cond, want = want.cond, want.val
        if wk == "b" or T.is_bool(want):
            c = T.cmp("==", T.boolish(want), T.boolish(got))
        else:
            c = T.cmp("==", want, got)
        self.eng.oblige(name, T.Implies(T.And(guard, cond), c), kind)


def serves(C, kind, prop):
    """an obligation of this kind counts for the property"""
    return prop is None or prop in part_props(C, kind) or kind in ("safety", "req", "inv", "model")


def prove_contract(C, budget, dims=None, prop=None, shard=(0, 1), verbose=False):
    """the obligations that count for the property (all when None); of those every n-th from the k-th for shard (k, n)"""
    t0 = time.time()
    deadline = t0 + budget
    out = dict(contract=C.__name__, file=C.file, func=C.func, status="unsupported", reason="", lost=False, inlined=[],
               modular=[], obligations=[])
    try:
        run = Run(C, dims, deadline=t0 + budget * 0.6)
    except Unsupported as e:
        out["reason"] = str(e)
        if verbose:
            traceback.print_exc()
        return out
    except RecursionError:
        out["reason"] = "recursion depth"
        return out
    except Exception as e:
        if verbose:
            traceback.print_exc()
        out["reason"] = "engine: %s: %s" % (type(e).__name__, str(e)[:200])
        return out
    out["gen_s"] = round(time.time() - t0, 2)
    out["inlined"], out["modular"] = run.eng.inlined, run.eng.modular
    # vacuity: the precondition must be satisfiable
    v = vacuous(run.pre)
    names = {}
    groups = {}
    for ob in run.obls:
        k = (ob.kind, ob.name if ob.line is None or ob.kind != "safety" else f"{ob.name} (line {ob.line})")
        groups.setdefault(k, []).append(ob)
    if v is True:
        out["reason"] = "the precondition is contradictory"
        return out
    norm = T.Normaliser()
    out["skipped"] = []
    known = set(baseline().get(C.__name__, {}).get("proved", ()))
    mine = 0
    for (kind, name), obs in groups.items():
        t1 = time.time()
        if not serves(C, kind, prop):
            out["skipped"].append(name)
            continue
        mine += 1
        if (mine - 1) % shard[1] != shard[0]:
            continue
        st, be, det = "proved", set(), ""
        models = None
        # identical copies once
        uniq = {}
        for ob in obs:
            key = (ob.goal.get_id() if T.is_z3(ob.goal) else ob.goal, tuple(h.get_id() if T.is_z3(h) else h for h in ob.hyps))
            uniq.setdefault(key, ob)
        for ob in uniq.values():
            p = Prover(min(deadline, time.time() + max(5, budget / 8)))
            p.norm = norm
            p.dims = [d[1] for d in run.E.decls.values() if d[0] == "dim" and T.is_z3(d[1])]
            if time.time() > deadline:
                st, det = "unknown", "time limit"
                break
            try:
                r = p.prove(ob.hyps, ob.goal)
            except Unsupported as e:
                st, det = "unknown", str(e)
                break
            except z3.Z3Exception as e:
                st, det = "unknown", "z3: " + str(e)[:200]
                break
            be.add(r.backend)
            if r.status != "proved":
                st, det = r.status, r.detail
                if r.model is not None:
                    models = r.model
                break
        be.discard("simplifier")
        ent = dict(name=name, kind=kind, status=st, backend="+".join(sorted(be)) or "simplifier",
                   time=round(time.time() - t1, 3), copies=len(uniq))
        if det:
            ent["detail"] = det
        if models is not None:
            w = witness(run, models)
            if w is not None:
                ent["witness"] = w
        if verbose:
            print("   %-9s %-7s %6.2fs %s %s" % (st, kind, ent["time"], name, det[:150]), flush=True)
        out["obligations"].append(ent)
    # what was proved of the tree as delivered gets a second, longer try
    for ent in out["obligations"]:
        if ent["status"] != "unknown" or norm_name(ent["name"]) not in known or time.time() > deadline - 5:
            continue
        T.PATIENCE[2] = 4.0
        p = Prover(min(deadline, time.time() + 60))
        try:
            rs = [p.prove(ob.hyps, ob.goal) for ob in groups[ent["kind"], ent["name"]]]
            if all(r.status == "proved" for r in rs):
                ent.update(status="proved", backend="+".join(sorted({r.backend for r in rs} - {"simplifier"})) or "simplifier")
        except (Unsupported, z3.Z3Exception):
            pass
        finally:
            T.PATIENCE[2] = 1.0
    n = len(out["obligations"])
    ok = sum(o["status"] == "proved" for o in out["obligations"])
    out["status"] = "proved" if mine and ok == n else "partial" if mine else "unsupported"
    if not mine:
        out["reason"] = "no obligations were generated"
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def witness(run, m):
    """the arguments (and ghost values) of a model, as JSON; None if too big or not expressible"""
    def num(t):
        t = T.lit(t)
        if isinstance(t, (bool, int)):
            return t
        if isinstance(t, (float,)) or not T.is_z3(t):
            return float(t)
        e = m.eval(t, model_completion=True)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        if z3.is_algebraic_value(e):
            return float(e.approx(17).as_fraction())
        raise ValueError

    def val(v):
        if isinstance(v, SymArr):
            shape = [num(s) for s in v.shape]
            tot = 1
            for s in shape:
                tot *= s
            if tot > 12000 or tot < 0:
                raise ValueError
            import itertools
            return dict(shape=shape, kind=v.kind, values=[num(v.content(*ix)) for ix in itertools.product(*map(range, shape))])
        if isinstance(v, Opaque):
            return None
        if isinstance(v, dict):
            return dict(fields={k: val(x) for k, x in v.items()})
        if isinstance(v, (list, tuple)):
            raise ValueError
        return num(v)
    try:
        out = {k: val(v) for k, v in run.o.__dict__.items()}
        if run.E.ghost is not None:
            out["_ghost"] = {k: val(v) for k, v in run.E.ghost.__dict__.items()}
        return out
    except (ValueError, TypeError, AttributeError, OverflowError, Unsupported, z3.Z3Exception, MemoryError):
        return None


def vacuous(pre):
    s = z3.Solver()
    s.set("timeout", 2000)
    for h in pre:
        if not T.contains_bind(h) or z3.is_quantifier(h):
            s.add(h)
    return s.check() == z3.unsat


def work(a):
    """the proof for all sizes; where it is incomplete, the same obligations with every
    dimension fixed at 2 and at 3 (bounded in the dimensions, still for all values)"""
    name, budget, dims, prop, shard = a
    C = REGISTRY[name]

    def go(*x):
        try:
            return prove_contract(*x)
        except Exception as e:
            return dict(contract=name, file=C.file, func=C.func, status="unsupported", reason="engine: " + repr(e)[:300],
                        lost=False, inlined=[], modular=[], obligations=[])
    t0 = time.time()
    r = go(C, budget * .6, dims, prop, shard)
    if r["status"] != "proved" and not dims:
        for k in (2, 3):
            left = budget - (time.time() - t0)
            if left > 5:
                b = go(C, min(60, left / 2), {"*": k}, prop, shard)
                r.setdefault("bounded", {})[str(k)] = b
    return r


def child(conn, a):
    conn.send(work(a))
    conn.close()


def merged(parts):
    """the results of the shards of one contract"""
    r = parts[0]
    for x in parts[1:]:
        for k in ("inlined", "modular"):
            r[k] = r[k] + [y for y in x[k] if y not in r[k]]
        r["obligations"] += x["obligations"]
        r["wall_s"] = max(r.get("wall_s", 0), x.get("wall_s", 0))
        r["lost"] = r["lost"] or x["lost"]
        rank = ["unsupported", "partial", "proved"]
        if rank.index(x["status"]) < rank.index(r["status"]):
            r["status"], r["reason"] = x["status"], x["reason"]
        if x.get("bounded"):
            b = r.setdefault("bounded", {})
            for k, y in x["bounded"].items():
                b[k] = merged([b[k], y]) if k in b else y
    return r


def run_all(todo, per, dims, jobs, prop=None):
    """one process per contract (or shard of one); a process that dies or overruns loses only its own"""
    res, live = {}, {}
    order = [C.__name__ for C in todo]
    todo = [(C, (k, getattr(C, "shards", 1))) for C in todo for k in range(getattr(C, "shards", 1))]
    t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            C, shard = todo.pop(0)
            left = per - (time.time() - t0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=child, args=(w, (C.__name__, max(5, left), dims, prop, shard)), daemon=True)
            p.start()
            w.close()
            live[C.__name__, shard[0]] = (p, r, time.time() + max(5, left) * 1.08 + 5)
        mp.connection.wait([r for _, r, _ in live.values()], timeout=1)
        for k in list(live):
            p, r, end = live[k]
            got = None
            if r.poll():
                try:
                    got = r.recv()
                except EOFError:
                    got = "the prover's process ended without a result"
            elif time.time() > end:
                p.kill()
                got = "time limit"
            if got is None:
                continue
            if isinstance(got, str):
                C = REGISTRY[k[0]]
                got = dict(contract=k[0], file=C.file, func=C.func, status="unsupported", reason=got, lost=False, inlined=[],
                           modular=[], obligations=[])
            res.setdefault(k[0], []).append(got)
            p.join()
            del live[k]
    return [merged(res[k]) for k in order]


ASSUMED = [
    "floating-point numbers are treated as reals (rounding, overflow, NaN are not modelled)",
    "64-bit integers are treated as unbounded; stores into int32 arrays wrap",
    "array arguments do not alias each other",
    "the numpy functions and Python builtins behave as modelled in pyvc/npmodel.py",
    "np.linalg.inv returns the inverse of an invertible matrix (uninterpreted)",
    "the closed forms of loops (pyvc/loops.py) and the symbolic interpreter (pyvc/sem.py) are part of the trusted base",
    "termination: for-loops over finite ranges only; exceptions other than the generated safety obligations (out of memory) are not modelled",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("--only", action="append")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--dims")
    ap.add_argument("--jobs", type=int, default=6)
    a = ap.parse_args()
    reg = load_all()
    todo = [C for C in reg.values() if provable(C) and (a.property is None or a.property in all_props(C))
            and (a.only is None or C.__name__ in a.only)]
    dims = json.loads(a.dims) if a.dims else None
    if a.verbose:
        for C in todo:
            print(C.__name__, flush=True)
            r = prove_contract(C, a.budget, dims, a.property, verbose=True)
            print("  =>", r["status"], r["reason"], "obligations", len(r["obligations"]), "gen", r.get("gen_s"), "wall",
                  r.get("wall_s"), "inlined", r["inlined"], "modular", r["modular"], flush=True)
        return
    base = baseline()
    res = run_all(todo, a.budget * 0.9, dims, a.jobs, a.property)
    for r in res:
        b = base.get(r["contract"])
        C = reg[r["contract"]]
        if b is not None:
            compare_baseline(r, b)
        if a.property:
            for x in [r] + list(r.get("bounded", {}).values()):
                x["obligations"] = [o for o in x["obligations"] if serves(C, o["kind"], a.property)]
    used = sorted({m for r in res for m in r["modular"] if getattr(reg.get(m), "assumed", False)})
    out = dict(functions=res, assumptions=ASSUMED + ["contract not proved: %s: %s" % (m, " ".join(reg[m].__doc__.split())) for m in used], trusted=["pyvc (this prover)", "z3 " + z3.get_version_string(), "cvc5"])
    txt = json.dumps(out, indent=1, default=str)
    if a.out:
        open(a.out, "w").write(txt)
    else:
        print(txt)


def compare_baseline(r, b):
    """what the prover discharges on the unchanged tree and not here"""
    for k, x in r.get("bounded", {}).items():
        # proved for all sizes, or with this size
        compare_baseline(x, dict(status="", proved=b["proved"] + b.get("bounded", {}).get(k, [])))
    was = {norm_name(x) for x in b["proved"]} - {norm_name(x) for x in r.get("skipped", ())}
    now = set(discharged(r["obligations"]))
    for o in r["obligations"]:
        if norm_name(o["name"]) in was:
            o["baseline"] = "proved"
    if was - now and (r["status"] != "proved" or b["status"] != "proved"):
        r["lost"] = True


def norm_name(n):
    return re.sub(r"\[[\d,]*\]$", "", re.sub(r" \(line \d+\)", "", n))


def discharged(obls):
    """names all of whose obligations are discharged"""
    bad = {norm_name(o["name"]) for o in obls if o["status"] != "proved"}
    return sorted({norm_name(o["name"]) for o in obls} - bad)


def baseline():
    try:
        return json.load(open(os.path.join(VERIF, "proved.json")))
    except FileNotFoundError:
        return {}


if __name__ == "__main__":
    main()
