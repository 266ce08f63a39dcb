"""C02 C13 C15 C16 C17 C18 C22 C27: the event loop, the hour, the annual closing, the report, the snapshot."""
import os
import re

import numpy as np

from contracts import gens as G
from contracts import leaf, stats
from contracts.calendar import _ghost_of, filem, lay_out, pending, rand_times, wf
from contracts.network import *  # noqa
from pyvc.dsl import ANY, Contract, NS, contract

HA = [f"{q}{c}{w}A" for q in ("LOL", "MGN") for c in "GT" for w in "HP"]
HP = [f"{q}{c}{w}P" for q in ("LOL", "MGN") for c in "GT" for w in "HP"]


def eval_spec(C, **a):
    """concrete specification of a contract applied to arguments"""
    from conc.cenv import CEnv
    E = CEnv()
    gh = a.pop("_ghost", None)
    E.ghost = NS(gh) if gh else None
    return C.spec(E, NS(a))


def system(rng, n=None, nhours=8760, levels=None, tight=None):
    """a random small power system in the variables of the simulation"""
    n = int(rng.integers(1, 5)) if n is None else n
    m = n * int(rng.integers(1, 4))
    S = dict(NOAREA=n, NUNITS=m)
    S["CAPCON"] = np.concatenate([np.arange(n), rng.integers(0, n, size=m - n)]).astype(int)
    W = np.zeros((n, m))
    W[S["CAPCON"], np.arange(m)] = 1.0
    for u in range(m):
        if n > 1 and rng.random() < .2:
            p = rng.random(n)
            W[:, u] = p / p.sum()
    S["CAPOWN"] = W
    S["PROBG"] = G.cumprob(rng, m, 2)
    S["DERATE"] = rng.choice([0.0, .5, .75, 1.0], size=m)
    S["RATES"] = np.round(rng.uniform(50, 300, size=(m, 4)))
    if n > 1:
        LP, b = G.network(rng, n)
    else:
        LP, b = np.zeros((0, 3), dtype=int), np.zeros(0)
    nl = len(b)
    S["LP"], S["NLINES"] = LP, nl
    B = np.zeros((nl, 18))
    for l in range(nl):
        for s in range(6):
            B[l, 3 * s] = b[l] * rng.choice([1.0, 1.0, .5]) if s else b[l]
            B[l, 3 * s + 1:3 * s + 3] = np.round(rng.uniform(10, 300, size=2))
    S["BLPA"] = B
    S["PROBL"] = np.ascontiguousarray(G.cumprob(rng, nl, 6).T) if nl else np.zeros((6, 0))
    L = -np.ones((n, n), dtype=int)
    for l in range(nl):
        L[LP[l, 1], LP[l, 2]] = L[LP[l, 2], LP[l, 1]] = l
    S["LINENO"] = L
    S["JENT"] = leaf._jent(rng, n, 4)
    C = np.zeros((4, 365))
    for c in range(4):
        if rng.random() < .7:
            a, z = sorted(rng.integers(0, 366, size=2))
            C[c, a:z] = np.round(rng.uniform(0, 80))
    S["INTCH"] = C
    cap = np.array([S["RATES"][S["CAPCON"] == a].sum() / 4 for a in range(n)])
    S["HRLOAD"] = np.round(rng.uniform(.2, tight or rng.choice([.6, 1.0, 1.3]), size=(n, nhours)) * cap[:, None])
    S["NFCST"] = levels or int(rng.choice([1, 5]))
    F = np.ones((n, 5))
    if S["NFCST"] == 5:
        u = rng.choice([0, .03, .1], size=n)
        for i, x in enumerate((2.5, 1, 0, -1, -2.5)):
            F[:, i] = 1 + x * u
    S["FCTERR"] = F
    S["MXPLHR"] = rng.integers(0, 24, size=365) + 24 * np.arange(365)
    S["IGSEED"], S["ILSEED"] = G.seeds(rng, m + 1), G.seeds(rng, nl + 1)
    BN = np.zeros((n, 5))
    BN[:, 0] = np.arange(n)
    BN[:, 3] = BN[:, 4] = rng.choice([9999.0, 150.0], size=n)
    S["BN"] = BN
    S["NR"] = int(rng.integers(0, n))
    for x in HA:
        S[x] = np.zeros((n, 5))
    for x in HP:
        S[x] = np.zeros(5)
    S["LSFLG"] = np.zeros(n)
    S["LT"] = np.zeros(n, dtype=int)
    S["BB"], S["ZB"] = np.zeros((n, n)), np.zeros((n, n))
    S["BLP0"] = np.zeros(nl)
    S["PLNDST"] = rng.choice([0.0, 1.0, 1.0], size=m)
    S["MXCRIT"], S["JCRIT"] = 0, np.zeros(500, dtype=int)
    S["NLS"], S["IOI"], S["JFREQ"] = int(rng.choice([0, 1])), 0, 1
    return S


# --------------------------------------------------------------- C27
def _hour_args(rng, k, S, JSTEP):
    t = rng.random()
    clock = float(rng.integers(1, 3 * 8760 + 1))
    if t < .1:
        clock = float(rng.choice([1, 24, 25, 8759, 8760, 8761, 2 * 8760, 2 * 8760 + 1]))
    if JSTEP == 24:
        clock = 24.0 * max(1, clock // 24)
    now = [x for x in rand_times(rng, int(rng.choice([0, 2, 5]))) if True]
    cal, _ = lay_out(rng, sorted(clock + x % 30 for x in now))
    a = dict(ATRIB=np.array([clock, 1.0]), CLOCK=clock, MFA=cal["MFA"], JSTEP=JSTEP, JFREQ=S["JFREQ"], NUMINQ=cal["NUMINQ"],
             IPOINT=cal["IPOINT"], EVNTS=cal["EVNTS"])
    S = dict(S, RATING=S["RATES"][:, int(rng.integers(0, 4))].copy())
    for x in ("MXPLHR PROBG RATING DERATE PLNDST CAPOWN CAPCON PROBL JENT INTCH MXCRIT JCRIT NFCST HRLOAD FCTERR LSFLG LOLGHA LOLGPA "
              "LOLGHP LOLGPP LOLTHA LOLTHP LOLTPA LOLTPP MGNGHA MGNGPA MGNGHP MGNGPP MGNTHA MGNTHP MGNTPA MGNTPP LINENO LP LT BB ZB "
              "BLP0 BLPA IOI BN NR NLS IGSEED ILSEED").split():
        a[x] = S[x]
    for x in HA + HP:
        a[x] = np.round(rng.uniform(0, 20, size=a[x].shape))
    return a


def hour_reference(a, answers):
    """what the hour must do: a = arguments before, answers = what each load flow returned"""
    from conc.cenv import CEnv
    import copy
    w = copy.deepcopy({x: a[x] for x in ("ATRIB", "EVNTS", "LSFLG", "IGSEED", "ILSEED", *HA, *HP)})
    C = NS(a)
    w["ATRIB"][0] = C.CLOCK + C.JSTEP
    (num, mfa, ip), mut = eval_spec(filem, MFA=C.MFA, ATRIB=w["ATRIB"], NUMINQ=C.NUMINQ, IPOINT=C.IPOINT, EVNTS=w["EVNTS"],
                                    _ghost=_ghost_of(dict(EVNTS=C.EVNTS, IPOINT=C.IPOINT)))
    w["EVNTS"] = np.asarray(mut["EVNTS"].v)
    hourt = (int(C.CLOCK) % 8760 - 1) % 8760
    day = hourt // 24
    h = int(C.MXPLHR[day]) if C.JSTEP == 24 else hourt
    (pct, av), mut = eval_spec(leaf.gstate, **{x: a[x] for x in ("IGSEED", "PROBG", "RATING", "DERATE", "PLNDST")})
    w["IGSEED"] = mut["IGSEED"].v
    (_, own, con, trj), _m = eval_spec(leaf.sumcap, AVAIL=av.v, CAPOWN=C.CAPOWN, CAPCON=C.CAPCON)
    st, mut = eval_spec(leaf.lstate, ILSEED=a["ILSEED"], PROBL=a["PROBL"])
    w["ILSEED"] = mut["ILSEED"].v
    trn, _m = eval_spec(leaf.findtn, JENT=C.JENT, INTCH=C.INTCH, JDAY=day)
    n = C.CAPOWN.shape[0]
    calls = []
    for lev in range(C.NFCST):
        req = C.HRLOAD[:, h] * C.FCTERR[:, lev]
        marg = np.trunc(con.v - req).astype(int)
        if not (marg < 0).any():
            break
        if (marg < 0).sum() != n:
            if len(calls) >= len(answers):
                return None, None, calls + ["a load flow for load level %d" % lev]
            calls.append(dict(CLOCK=C.CLOCK, JHOUR=h, TRNSFR=trn.v, TRNSFJ=trj.v, SYSCON=con.v, CAPREQ=req, LNSTAT=st.v,
                              STMULT=np.ones((len(st.v), 2)), PCTAVL=pct.v, PLNDST=C.PLNDST, NR=C.NR, NLS=C.NLS, LP=C.LP,
                              BLPA=C.BLPA))
            jf, flow, sadj = answers[len(calls) - 1]
            if jf == 0:
                break
            marg = np.trunc(-sadj).astype(int)
            if not (marg < 0).any():
                break
        _, mut = eval_spec(stats.hrstat, NST=lev, MARGIN=marg, **{x: w[x] for x in stats.hrstat.order[2:]})
        for x in mut:
            w[x] = mut[x].v
        if h == C.MXPLHR[day]:
            _, mut = eval_spec(stats.pkstat, NST=lev, MARGIN=marg, **{x: w[x] for x in stats.pkstat.order[2:]})
            for x in mut:
                w[x] = mut[x].v
    return (num, mfa, ip, hourt), w, calls


def _hour_compare(T, a, new, r, log, answers):
    out = []
    E = T.CEnv()
    res, w, calls = hour_reference(a, answers)
    wit = dict(arguments={x: a[x] for x in a if not isinstance(a[x], np.ndarray) or a[x].size < 60}, load_flows=log, answers=answers)
    if res is None or len(calls) != len(log):
        return [("C27: load flows called", f"{len(log)} made, {len(calls)} due", wit)]
    # a flow call per level with some area short but not all
    for i, (got, want) in enumerate(zip(log, calls)):
        for x, v in want.items():
            if not T.same(np.asarray(got[x], dtype=float), np.asarray(v, dtype=float)) and not np.allclose(
                    np.asarray(got[x], dtype=float), np.asarray(v, dtype=float), rtol=1e-12, atol=1e-9):
                out.append((f"C27: load flow {i} works on this hour's {x}", f"{T.describe(got[x])}, specified {T.describe(v)}", wit))
        if i == 0 and got["IFLAG"] == 1:
            out.append(("C27,C13: the first load flow of the hour starts from the base network", "", wit))
        if got["JFLAG"] != 0:
            out.append(("C27,C13: a load flow starts with the firm transfers", "", wit))
    if tuple(int(x) for x in r[:3]) != tuple(int(x) for x in res[:3]) or (int(r[3]) - res[3]) % 8760:
        out.append(("C02,C27: calendar and hour of the year returned", f"{r}, specified {res}", wit))
    for x in w:
        if not np.allclose(np.asarray(new[x], dtype=float), np.asarray(w[x], dtype=float), rtol=1e-9, atol=1e-9):
            p = "C27" if x in HA + HP + ["LSFLG"] else "C02" if x in ("ATRIB", "EVNTS") else "C05,C27"
            if x in HA + HP:
                p = "C27,C14"
            out.append((f"{p}: final value of {x}", f"{T.describe(new[x])}, specified {T.describe(w[x])}", wit))
    for x in a:
        if x not in w and x not in ("BB", "ZB", "LT", "BLP0", "BN") and not T.same(a[x], new[x]):
            out.append((f"C27: argument {x} unchanged", "", wit))
    return out


@contract
class hour_level(Contract):
    """the hour with the load flow replaced by a recording stand-in that answers anything"""
    scenario = True
    file = "monte_carlo/hour.py"
    func = "hour"
    props = ["C27", "C02", "C14", "C05", "C13"]
    n_quick = 150

    @staticmethod
    def run(T, rng, k):
        import copy
        out = []
        hour, transm = T.fn("monte_carlo/hour.py", "hour"), T.fn("monte_carlo/transm.py", "transm")
        S = system(rng, tight=float(rng.choice([.5, .9, 1.4, 2.5])))
        for _ in range(4):
            JSTEP = int(rng.choice([1, 1, 24]))
            a = _hour_args(rng, k, S, JSTEP)
            if rng.random() < .3:      # an hour that is the peak hour of its day
                h = (int(a["CLOCK"]) % 8760 - 1) % 8760
                S["MXPLHR"][h // 24] = h
                a["MXPLHR"] = S["MXPLHR"]
            n = S["NOAREA"]
            answers, log = [], []
            for _ in range(5):
                x = np.round(rng.uniform(-60, 60, size=n), 1)
                if rng.random() < .3:
                    x = -abs(x)
                answers.append((int(rng.random() < .8), np.zeros(S["NLINES"]), x))

            def flow(*p, **kw):
                log.append(copy.deepcopy(T.bound(transm, p, kw)))
                return copy.deepcopy(answers[min(len(log), 5) - 1])
            new = copy.deepcopy(a)
            with T.Patched((transm, flow)):
                r = hour(*new.values())
            out += _hour_compare(T, a, new, r, log, answers)
            if out:
                return out
        return out


@contract
class hour_real(Contract):
    """the hour with the real load flow (its answers recorded)"""
    scenario = True
    file = "monte_carlo/hour.py"
    func = "hour"
    props = ["C27", "C13"]
    n_quick = 40

    @staticmethod
    def run(T, rng, k):
        import copy
        hour, transm = T.fn("monte_carlo/hour.py", "hour"), T.fn("monte_carlo/transm.py", "transm")
        S = system(rng, n=int(rng.integers(2, 5)), tight=float(rng.choice([.7, .9, 1.1])))
        answers, log = [], []

        def flow(*p, **kw):
            log.append(copy.deepcopy(T.bound(transm, p, kw)))
            r = transm(*p, **kw)
            answers.append(copy.deepcopy(r))
            return r
        for _ in range(6):
            answers.clear()
            log.clear()
            a = _hour_args(rng, k, S, 1)
            new = copy.deepcopy(a)
            with T.Patched((transm, flow)):
                r = hour(*new.values())
            out = _hour_compare(T, a, new, r, log, answers)
            if out:
                return out
        return []


@contract
class hour_frequency(Contract):
    """statuses drawn once a day (JFREQ 24)"""
    scenario = True
    file = "monte_carlo/hour.py"
    func = "hour"
    props = ["C27"]
    n_quick = 1
    n_thorough = 1

    @staticmethod
    def run(T, rng, k):
        hour = T.fn("monte_carlo/hour.py", "hour")
        S = system(rng, n=2)
        S["JFREQ"] = 24
        a = _hour_args(rng, k, S, 1)
        a["CLOCK"] = 26.0           # index 25 of the year, not a multiple of 24
        try:
            hour(*a.values())
        except UnboundLocalError as e:
            return [("C27: an hour between two draws uses the states drawn last", f"JSTEP=1 JFREQ=24 hour index 25: UnboundLocalError: {e}", None)]
        return []


# --------------------------------------------------------------- C02
HANDLER = {1: "hour", 2: "week", 3: "quartr", 4: "year"}


def _run_args(T, rng, S, clock, cal, FINISH, IYEAR=None):
    """arguments of contrl by name"""
    import inspect
    n, m = S["NOAREA"], S["NUNITS"]
    contrl = T.fn("monte_carlo/contrl.py", "contrl")
    V = dict(S)
    V.update(RFLAG=0, CLOCK=clock, ATRIB=np.zeros(2), FINISH=FINISH, ITAB=0, INDX=0, SUSTAT=np.zeros((n + 1, 6)),
             NAMA=[f"A{i}" for i in range(n)], JHOUR=0, IQ=-1, NHRSYR=8760, JSTEP=1, SSQ=0.0, XLAST=0.0, NORR=0 if S["NFCST"] == 1 else 2,
             INTV=1000, INTVT=1000, IOJ=0, KVLOC=int(rng.integers(0, n)), CVTEST=0.025, LSTEP=100, **cal)
    for x in ("KVSTAT", "KVTYPE", "KVWHEN", "KWHERE"):
        V[x] = int(rng.integers(1, 3))
    for x in ("HLOLE", "DPLOLE", "EUES"):
        V[x] = np.zeros((n, 22))
    J = -np.ones((52, m + 1), dtype=int)
    for w in range(52):
        c = int(rng.integers(0, m + 1))
        J[w, 0] = c
        J[w, 1:c + 1] = rng.permutation(m)[:c]
    V["JPLOUT"] = J
    V["RATING"] = np.zeros(m)
    names = list(inspect.signature(contrl).parameters)
    for x in names:
        if x not in V:
            if x[:2] == "SW":
                V[x] = np.zeros(n) if x.endswith("A") else np.zeros(())
            elif x in ("XNEWA", "XNEWP"):
                V[x] = np.zeros((n, 3)) if x == "XNEWA" else np.zeros(3)
            elif x[:2] in ("SG", "SO"):
                V[x] = np.zeros((n, 5)) if x.endswith("A") else np.zeros(5)
            else:
                raise KeyError(x)
    return {x: V[x] for x in names}


def _drive(T, V, out, wit, horizon):
    """run the event loop with recorders around the four handlers -> [(kind, clock)]"""
    fns = {k: T.fn(f"monte_carlo/{v}.py", v) for k, v in HANDLER.items()}
    findld = T.fn("monte_carlo/findld.py", "findld")
    log, st = [], dict(clock=V["CLOCK"], seen=None, ratings=None)
    ends = []
    EV = V["EVNTS"]

    def recorder(kind, fn):
        def g(*p, **kw):
            b = T.bound(fn, p, kw)
            pre = pending(b["EVNTS"], b["IPOINT"])
            t = b["CLOCK"]
            if isinstance(pre, str):
                out.append(("C01,C02: calendar when an event is served", pre, wit))
                raise StopIteration
            want = st["next"] if "next" in st else None
            if want is not None:
                if (t, kind) != (want[0], int(want[1])):
                    out.append(("C02: the earliest event is served, by the handler of its kind",
                                f"served kind {kind} at {t}, first pending was kind {int(want[1])} at {want[0]}", wit))
                if [x[:2] for x in pre] != st["rest"]:
                    out.append(("C02: the other events stay pending", f"{[x[:2] for x in pre][:6]}", wit))
            if t < st["clock"]:
                out.append(("C02: time never goes backwards", f"{t} after {st['clock']}", wit))
            if t > horizon + 1:
                out.append(("C02: nothing runs after the horizon", f"{t}", wit))
            if st.get("done"):
                out.append(("C02,C17: nothing runs after convergence", f"kind {kind} at {t}", wit))
            st["clock"] = t
            log.append((kind, t))
            r = fn(*p, **kw)
            if kind == 1:
                num, mfa, ip, jh = r
                if (jh - int(t) + 1) % 8760:
                    out.append(("C02: hour of the year", f"{jh} for clock {t}", wit))
            elif kind == 3:
                iq, ip, mfa, num, rating = r
                if not (0 <= iq <= 3) or not np.array_equal(rating, V["RATES"][:, iq]):
                    out.append(("C18: ratings of the season that begins", f"season {iq}", wit))
                if "iq" in st and iq != (st["iq"] + 1) % 4 or "iq" not in st and V["IQ"] == -1 and iq != 0:
                    out.append(("C18: seasons follow each other", f"{iq} after {st.get('iq')}", wit))
                st["iq"] = iq
            else:
                ip, mfa, num = r[:3]
                if kind == 4 and r[5] == 1:
                    st["done"] = True
            post = pending(EV, ip)
            step = {1: V["JSTEP"], 2: 168, 3: 8760, 4: 8760}[kind]
            if isinstance(post, str):
                out.append(("C01,C02: calendar after a handler", post, wit))
                raise StopIteration
            exp = [x[:2] for x in pre]
            i = next((j for j, x in enumerate(exp) if x[0] >= t + step), len(exp))
            exp.insert(i, (t + step, float(kind)))
            if [x[:2] for x in post] != exp:
                out.append((f"C02: the handler of kind {kind} at {t} schedules exactly one next event {step} h later",
                            f"calendar {[x[:2] for x in post]}, expected {exp}", wit))
            if num != len(post):
                out.append(("C01,C02: number of pending events", f"{num} for {len(post)}", wit))
            st["next"], st["rest"] = post[0][:2], [x[:2] for x in post[1:]]
            if len(out) > 3:
                raise StopIteration
            return r
        return g

    def load(*p, **kw):
        b = T.bound(findld, p, kw)
        if not 0 <= b["JHOUR"] <= 8759:
            out.append(("C02: load looked up at an hour of the year", f"{b['JHOUR']} at {st['clock']}", wit))
        return findld(*p, **kw)
    report = T.fn("monte_carlo/report.py", "report")
    st["reports"] = 0

    def rep(*p, **kw):
        st["reports"] += 1
        return report(*p, **kw)
    with T.Patched(*[(f, recorder(k, f)) for k, f in fns.items()], (findld, load), (report, rep)):
        try:
            T.fn("monte_carlo/contrl.py", "contrl")(**V)
        except StopIteration:
            pass
    return log, st


@contract
class event_loop(Contract):
    """the real loop and handlers around the turn of a year and at the horizon, on a small system"""
    scenario = True
    file = "monte_carlo/contrl.py"
    func = "contrl"
    props = ["C02", "C01", "C18", "C17"]
    n_quick = 12
    n_thorough = 60

    @staticmethod
    def run(T, rng, k):
        out = []
        S = system(rng, n=2, tight=.9 if k % 3 else 1.2)
        start = int(rng.integers(8760 - 200, 8760 - 2))
        wk = int(rng.integers(0, 150))
        h0 = float(start + 1)
        q = sorted(float(start) + .5 + rng.choice(300, size=4, replace=False))
        ev = [(h0, 1), (start + .5 + wk, 2)] + [(x, 3) for x in q] + [(8760.0, 4)]
        order = sorted(range(len(ev)), key=lambda i: (ev[i][0], -ev[i][1]))
        ev = [ev[i] for i in order]
        cal, _ = lay_out(rng, [e[0] for e in ev], kinds=[e[1] for e in ev], cells=25)
        horizon = float(8760 + int(rng.choice([0, 0, 30, 150])))
        V = _run_args(T, rng, S, float(start), dict(EVNTS=cal["EVNTS"], IPOINT=cal["IPOINT"], NUMINQ=cal["NUMINQ"]), horizon)
        wit = dict(start=start, events=ev, horizon=horizon, case=k)
        log, st = _drive(T, V, out, wit, horizon)
        hours = [t for q, t in log if q == 1]
        if out:
            return out
        if hours != [float(h) for h in range(start + 1, start + 1 + len(hours))]:
            out.append(("C02: every hour is simulated once, in order", f"{hours[:5]}...", wit))
        if log.count((4, 8760.0)) != 1 or (1, 8760.0) not in log:
            out.append(("C02: the year is closed once, its last hour simulated", f"{[x for x in log if x[0] == 4]}", wit))
        elif log.index((1, 8760.0)) > log.index((4, 8760.0)):
            out.append(("C02: the last hour of the year comes before the annual closing", "", wit))
        if not st.get("done") and (not log or st["next"][0] <= horizon + 1):
            out.append(("C02: every event up to the horizon is served", f"stopped before {st.get('next')}", wit))
        if st["reports"] != 1:
            out.append(("C17: one final report", f"{st['reports']}", wit))
        return out


@contract
class dispatch(Contract):
    """every argument of the dispatcher reaches the handler of the event's kind, and nothing else runs"""
    scenario = True
    file = "monte_carlo/events.py"
    func = "events"
    props = ["C02"]
    n_quick = 20
    n_thorough = 20

    @staticmethod
    def run(T, rng, k):
        import inspect
        out = []
        events = T.fn("monte_carlo/events.py", "events")
        names = list(inspect.signature(events).parameters)
        fns = {q: T.fn(f"monte_carlo/{v}.py", v) for q, v in HANDLER.items()}
        res = {1: ["NUMINQ", "MFA", "IPOINT", "JHOUR"], 2: ["IPOINT", "MFA", "NUMINQ"], 3: ["IQ", "IPOINT", "MFA", "NUMINQ", "RATING"],
               4: ["IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB"]}
        for kind in HANDLER:
            tok = {x: ("in", x) for x in names}
            tok["NUMBER"] = kind
            tok["RATING"] = np.zeros(3)
            got = []

            def stub(q, fn):
                def g(*p, **kw):
                    got.append((q, T.bound(fn, p, kw)))
                    return tuple(np.array([1.0, 2.0, 3.0]) if x == "RATING" else ("out", x) for x in res[q])
                return g
            with T.Patched(*[(f, stub(q, f)) for q, f in fns.items()]):
                r = events(**tok)
            if [g[0] for g in got] != [kind]:
                out.append((f"C02: kind {kind} runs its own handler", f"{[g[0] for g in got]}", None))
                continue
            for x, v in got[0][1].items():
                if v is not tok.get(x, None) and v != ("in", x) and x != "RATING":
                    out.append((f"C02: {HANDLER[kind]} works on the current {x}", f"got {v!r}", None))
            back = ["RFLAG", "IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "INTVT", "ITAB", "IQ", "JHOUR"]
            for x, v in zip(back, r):
                want = ("out", x) if x in res[kind] else ("in", x)
                if v != want:
                    out.append((f"C02: after {HANDLER[kind]}, {x} is passed on", f"{v!r}", None))
            if kind == 3 and list(tok["RATING"]) != [1.0, 2.0, 3.0]:
                out.append(("C02,C18: the ratings in effect become the season's", f"{tok['RATING']}", None))
        return out


@contract
class start_up(Contract):
    """narpMain hands the input data and a cleared state to the event loop"""
    scenario = True
    file = "monte_carlo/narpMain.py"
    func = "narpMain"
    props = ["C18", "C15", "C01", "C05", "C02"]
    n_quick = 20
    n_thorough = 60

    @staticmethod
    def run(T, rng, k):
        out = []
        narp = T.fn("monte_carlo/narpMain.py", "narpMain")
        contrl = T.fn("monte_carlo/contrl.py", "contrl")
        dataf1 = T.fn("data_processing/dataf1.py", "dataf1")
        S = system(rng)
        n, m = S["NOAREA"], S["NUNITS"]
        order = ("QTR NORR NFCST NOAREA PKLOAD FU MINRAN MAXRAN INHBT1 INHBT2 BN SUSTAT FCTERR CAPCON CAPOWN NOGEN PROBG DERATE JENT INTCH "
                 "INTCHR LP LINENO PROBL BLPA MXCRIT JCRIT RATES ID HRLOAD MAXHR DYLOAD MAXDAY WPEAK MXPLHR JPLOUT ITAB NLS IOI IOJ KVLOC "
                 "KVSTAT KVTYPE KVWHEN KWHERE CVTEST MAXEUE JSTEP JFREQ FINISH INTV INTVT NR NAMA").split()
        D = dict(S)
        D.update(QTR=np.sort(rng.choice(np.arange(1, 52), size=3, replace=False)) * 168 + .5, MAXEUE=int(rng.integers(20, 9999)),
                 JSTEP=int(rng.choice([1, 24])), JPLOUT=np.zeros((52, m + 1), dtype=int), SUSTAT=np.zeros((n + 1, 6)))
        for x in order:
            D.setdefault(x, ("data", x))
        got = []
        with T.Patched((contrl, lambda *p, **kw: got.append(T.bound(contrl, p, kw))),
                       (dataf1, lambda *p, **kw: tuple(D[x] for x in order))):
            narp(T.tmp)
        if len(got) != 1:
            return [("C02: one run of the event loop", f"{len(got)}", None)]
        g = got[0]
        for x in order:
            if x in g and g[x] is not D[x] and not T.same(g[x], D[x]):
                out.append((f"C15,C18,C02: the run uses the input's {x}", T.describe(g[x]), None))
        for x, v in g.items():
            if x[:2] in ("SG", "SO", "SW") or x in HA + HP or x in ("XNEWA", "XNEWP", "HLOLE", "DPLOLE", "EUES", "LSFLG"):
                if np.any(np.asarray(v) != 0):
                    out.append((f"C15: {x} starts at zero", T.describe(v), None))
                w = 22 if x in ("HLOLE", "DPLOLE", "EUES") else 3 if x.startswith("XN") else None
                sh = tuple(np.shape(v))
                if x in ("LSFLG",) or x[:2] == "SW" and x.endswith("A"):
                    ok = sh == (n,)
                elif x[:2] == "SW":
                    ok = sh == () and isinstance(v, np.ndarray)
                elif x == "XNEWP":
                    ok = sh == (3,)
                elif w:
                    ok = sh == (n, w)
                else:
                    ok = sh == ((n, 5) if x.endswith("A") else (5,))
                if not ok:
                    out.append((f"C15: {x} has a place for every area and level", f"shape {sh}", None))
        ids = [id(v) for x, v in g.items() if isinstance(v, np.ndarray)]
        if len(set(ids)) != len(ids):
            out.append(("C15: no two quantities share their storage", "", None))
        if g["IQ"] != -1 or g["RFLAG"] != 0 or g["CLOCK"] != 0 or g["SSQ"] != 0 or g["XLAST"] != 0 or g["NHRSYR"] != 8760 or g["JHOUR"] != 0:
            out.append(("C18,C02,C15: start values", T.describe({x: g[x] for x in ("IQ", "RFLAG", "CLOCK", "SSQ", "XLAST", "NHRSYR", "JHOUR")}), None))
        if g["INDX"] != (1 if D["JSTEP"] == 24 else 0):
            out.append(("C15: peak-only statistics exactly when the step is a day", g["INDX"], None))
        if g["LSTEP"] != D["MAXEUE"] // 20:
            out.append(("C15: width of the energy histogram", g["LSTEP"], None))
        (gs, ls), _ = eval_spec(leaf.seeder, JSEED=123456, NUNITS=m, NLINES=S["NLINES"])
        if not np.array_equal(np.asarray(g["IGSEED"][:m], dtype=np.int64), np.asarray(gs.v)[:m]) or \
                not np.array_equal(np.asarray(g["ILSEED"][:S["NLINES"]], dtype=np.int64), np.asarray(ls.v)[:S["NLINES"]]):
            out.append(("C05: one stream per unit and line, from the master seed", T.describe([g["IGSEED"], g["ILSEED"]]), None))
        p = pending(g["EVNTS"], g["IPOINT"])
        q = D["QTR"]
        want = sorted([(.5, 2.), (.5, 3.), (float(D["JSTEP"]), 1.), (q[0], 3.), (q[1], 3.), (q[2], 3.), (8760., 4.)])
        if isinstance(p, str) or [x[:2] for x in p] != want or g["NUMINQ"] != 7:
            out.append(("C01,C18: the calendar at the start", T.describe(p), None))
        return out


# --------------------------------------------------------------- C15 C16 C17 C22
YEAR = ("ATRIB CLOCK CVTEST DPLOLE EUES EVNTS FINISH HLOLE IPOINT MFA NUMINQ RFLAG LSFLG NAMA SSQ SUSTAT XLAST BB LT ZB INTV INTVT IOJ "
        "KVLOC KVSTAT KVTYPE KVWHEN KWHERE LSTEP NFCST NORR INDX ITAB LOLGHA LOLGHP LOLGPA LOLGPP LOLTHA LOLTHP LOLTPA LOLTPP MGNGHA "
        "MGNGHP MGNGPA MGNGPP MGNTHA MGNTHP MGNTPA MGNTPP SGNGHA SGNGHP SGNGPA SGNGPP SGNSHA SGNSHP SGNSPA SGNSPP SGNTHA SGNTHP "
        "SGNTPA SGNTPP SOLGHA SOLGHP SOLGPA SOLGPP SOLSHA SOLSHP SOLSPA SOLSPP SOLTHA SOLTHP SOLTPA SOLTPP SWLGHA SWLGHP SWLGPA "
        "SWLGPP SWLSHA SWLSHP SWLSPA SWLSPP SWLTHA SWLTHP SWLTPA SWLTPP SWNGHA SWNGHP SWNGPA SWNGPP SWNSHA SWNSHP SWNSPA SWNSPP "
        "SWNTHA SWNTHP SWNTPA SWNTPP XNEWA XNEWP IGSEED ILSEED").split()
COUNT = HA + HP
TOTAL = [f"{q}{c}{w}{a}" for q in ("SGN", "SOL", "SWL", "SWN") for c in "GST" for w in "HP" for a in "AP"]
HIST = ("HLOLE", "DPLOLE", "EUES")
REPORT = ("IYEAR ITAB INDX SUSTAT DPLOLE EUES HLOLE LSTEP NAMA NFCST SGNGHA SGNGHP SGNGPA SGNGPP SGNSHA SGNSHP SGNSPA SGNSPP SGNTHA "
          "SGNTHP SGNTPA SGNTPP SOLGHA SOLGHP SOLGPA SOLGPP SOLSHA SOLSHP SOLSPA SOLSPP SOLTHA SOLTHP SOLTPA SOLTPP SWLGHA SWLGHP "
          "SWLGPA SWLGPP SWLSHA SWLSHP SWLSPA SWLSPP SWLTHA SWLTHP SWLTPA SWLTPP SWNGHA SWNGHP SWNGPA SWNGPP SWNSHA SWNSHP SWNSPA "
          "SWNSPP SWNTHA SWNTHP SWNTPA SWNTPP XNEWA XNEWP").split()
SNAP = ("ATRIB CLOCK IPOINT XLAST SSQ MFA NUMINQ ITAB INTVT EVNTS IGSEED ILSEED LT BB ZB SOLTHA SOLGHA SOLSHA SGNTHA SGNGHA SGNSHA SOLTPA "
        "SOLGPA SOLSPA SGNTPA SGNGPA SGNSPA SWLSHA SWLGHA SWLTHA SWNSHA SWNGHA SWNTHA SWLSPA SWLGPA SWLTPA SWNSPA SWNGPA SWNTPA SOLTHP "
        "SOLGHP SOLSHP SGNTHP SGNGHP SGNSHP SOLTPP SOLGPP SOLSPP SGNTPP SGNGPP SGNSPP HLOLE DPLOLE EUES XNEWA XNEWP WOLSHA LSFLG").split()
PROB = ("0.0668", "0.2417", "0.383", "0.2417", "0.0668")


def cell(E, X):
    """value of a 0-d array"""
    return E.real(X[()])


def weight(E, F, l):
    """probability of load level l of F levels"""
    return E.ite(l == 0, lambda: E.ite(F == 1, lambda: E.real(1), lambda: E.lit(PROB[0])), lambda: E.ite(
        l == 1, lambda: E.lit(PROB[1]), lambda: E.ite(l == 2, lambda: E.lit(PROB[2]), lambda: E.ite(
            l == 3, lambda: E.lit(PROB[3]), lambda: E.lit(PROB[4])))))


def annual(E, o, q, c, w, a):
    """this year's value of a counter: q LOL/MGN, c G/T or S for both, w H/P, a A/P -> function of (area, level) or (level)"""
    if c == "S":
        g, t = annual(E, o, q, "G", w, a), annual(E, o, q, "T", w, a)
        return lambda *i: g(*i) + t(*i)
    X = o[q + c + w + a]
    return lambda *i: X[i] if len(i) > 1 else X[i[0]]


def weighted(E, o, q, c, w, a):
    f = annual(E, o, q, c, w, a)
    return lambda *i: E.sum(0, o.NFCST, lambda l: weight(E, o.NFCST, l) * f(*i, l))


def sustat(E, o, IYEAR, S):
    """summary table of the final report; S gives the totals by name"""
    n = o.SUSTAT.shape[0] - 1
    y = E.real(IYEAR)
    mean_a = {3: "SWLSHA", 4: "SWLSPA", 5: "SWNSHA"}
    mean_p = {3: "SWLSHP", 4: "SWLSPP", 5: "SWNSHP"}
    sums = lambda c: o.SUSTAT[n, c] + E.sum(0, n, lambda i: o.SUSTAT[i, c])

    def f(i, c):
        area = lambda: E.ite(c == 2, lambda: E.ite(o.SUSTAT[i, 0] > 0, lambda: (o.SUSTAT[i, 1] - o.SUSTAT[i, 0]) / o.SUSTAT[i, 0] * 100,
                                                   lambda: o.SUSTAT[i, 2]),
                             lambda: E.ite(c == 3, lambda: S["SWLSHA"](i) / y, lambda: E.ite(
                                 c == 4, lambda: S["SWLSPA"](i) / y, lambda: E.ite(
                                     c == 5, lambda: S["SWNSHA"](i) / y, lambda: o.SUSTAT[i, c]))))
        pool = lambda: E.ite(c == 2, lambda: E.ite(sums(0) > 0, lambda: (sums(1) - sums(0)) / sums(0) * 100, lambda: o.SUSTAT[n, 2]),
                             lambda: E.ite(c == 3, lambda: S["SWLSHP"]() / y, lambda: E.ite(
                                 c == 4, lambda: S["SWLSPP"]() / y, lambda: E.ite(
                                     c == 5, lambda: S["SWNSHP"]() / y, lambda: E.ite(c == 0, lambda: sums(0), lambda: sums(1))))))
        return E.ite(i < n, area, pool)
    return E.fn(o.SUSTAT.shape, f)


@contract
class year(Contract):
    symbolic = True
    file = "monte_carlo/year.py"
    func = "year"
    parts = {"mut:EVNTS": ["C02"], "mut:ATRIB": ["C02"], "ret": ["C02", "C15", "C17", "C22"], "ret:0": ["C02"], "ret:1": ["C02"], "ret:2": ["C02"],
             "ret:3": ["C17"], "ret:4": ["C17"], "ret:5": ["C17"], "ret:6": ["C22"],
             "safety": ["C02", "C15", "C16", "C17", "C22"], "frame": ["C15", "C17", "C22"],
             **{"mut:" + x: ["C15"] for x in COUNT + TOTAL + ["XNEWA", "XNEWP"]}, **{"mut:" + x: ["C16"] for x in HIST},
             "mut:SUSTAT": ["C16"], "lem": ["C16"], "ens": ["C22", "C17", "C02", "C15"]}
    props = ["C15", "C16", "C17", "C22", "C02"]
    modifies = ("ATRIB", "EVNTS", "SUSTAT", *HIST, *COUNT, *TOTAL, "XNEWA", "XNEWP")

    @staticmethod
    def args(E):
        n, f, ncell = E.dim("NOAREA", 1), E.dim("NLEV", 1), E.dim("NCELL", 4)
        d = {}
        for x in YEAR:
            if x in COUNT:
                d[x] = E.arr(x, (n, f) if x.endswith("A") else (f,), "ri")
            elif x[:2] in ("SG", "SO"):
                d[x] = E.arr(x, (n, f) if x.endswith("A") else (f,), "r")
            elif x[:2] == "SW":
                d[x] = E.arr(x, (n,) if x.endswith("A") else (), "r")
            elif x in HIST:
                d[x] = E.arr(x, (n, 22), "r")
            elif x in ("CLOCK", "FINISH", "CVTEST", "SSQ", "XLAST"):
                d[x] = E.real_var(x)
            elif x in ("XNEWA", "XNEWP"):
                d[x] = E.arr(x, (n, 3) if x == "XNEWA" else (3,), "r")
            elif x == "SUSTAT":
                d[x] = E.arr(x, (n + 1, 6), "r")
            elif x == "EVNTS":
                d[x] = E.arr(x, (ncell,), "r")
            elif x == "ATRIB":
                d[x] = E.arr(x, (2,), "r")
            elif x in ("BB", "ZB", "LT", "NAMA", "LSFLG", "IGSEED", "ILSEED"):
                d[x] = E.opaque(x)
            else:
                d[x] = E.int(x)
        return d

    ghost = filem.ghost

    @staticmethod
    def filed(E, o):
        return NS(dict(MFA=o.MFA, ATRIB=E.fn((2,), lambda i: E.ite(i == 0, lambda: o.CLOCK + 8760, lambda: E.real(4))),
                       NUMINQ=o.NUMINQ, IPOINT=o.IPOINT, EVNTS=o.EVNTS))

    @staticmethod
    def requires(E, o):
        n, f = o.EUES.shape[0], o.LOLGHP.shape[0]
        S = year.monitored(E, o)
        IY = year.years(E, o)
        d = S - o.XLAST
        cal = filem.requires(E, year.filed(E, o)) if E.ghost else []
        ints = E.And(*[E.forall((0, n), (0, f), lambda a, l, X=o[x]: E.And(X[a, l] >= 0, E.is_int(X[a, l]))) for x in HA],
                     *[E.forall((0, f), lambda l, X=o[x]: E.And(X[l] >= 0, E.is_int(X[l]))) for x in HP])
        return cal + [
            ("levels", E.And(1 <= o.NFCST, o.NFCST <= 5, o.NFCST <= f, 0 <= o.NORR, o.NORR < o.NFCST)),
            ("counters count", ints),
            ("a full year", E.And(IY >= 1, o.CLOCK >= 0)),
            ("histogram width", o.LSTEP >= 1),
            ("monitored area", E.And(0 <= o.KVLOC, o.KVLOC < n)),
            ("history of the monitored index", E.And(S >= 0, (o.SSQ + d * d) * IY >= S * S, o.CVTEST >= 0, o.FINISH >= 0)),
            ("every year is in the histograms", E.forall((0, n), lambda a: E.And(*[
                E.sum(0, 22, lambda b, X=o[x]: X[a, b]) == E.real(IY - 1) for x in HIST]))),
        ]

    @staticmethod
    def years(E, o):
        return E.floor((o.CLOCK + 1) / 8760)

    @staticmethod
    def totals(E, o):
        """running totals after the closing, by name"""
        out = {}
        for x in TOTAL:
            q, c, w, a = x[:3], x[3], x[4], x[5]
            src = {"SGN": "MGN", "SWN": "MGN", "SOL": "LOL", "SWL": "LOL"}[q]
            X = o[x]
            if q in ("SGN", "SOL"):
                f = annual(E, o, src, c, w, a)
                if a == "A":
                    out[x] = lambda i, l, X=X, f=f: X[i, l] + E.ite(l < o.NFCST, lambda: f(i, l), lambda: E.real(0))
                else:
                    out[x] = lambda l, X=X, f=f: X[l] + E.ite(l < o.NFCST, lambda: f(l), lambda: E.real(0))
            else:
                f = weighted(E, o, src, c, w, a)
                if a == "A":
                    out[x] = lambda i, X=X, f=f: X[i] + f(i)
                else:
                    out[x] = lambda X=X, f=f: cell(E, X) + f()
        return out

    @staticmethod
    def monitored(E, o):
        """the total the user asked to watch"""
        T = year.totals(E, o)

        def pick(w, a):
            wt = (lambda name: lambda: T[name](o.KVLOC)) if a == "A" else (lambda name: lambda: T[name]())
            lev = (lambda name: lambda: T[name](o.KVLOC, o.NORR)) if a == "A" else (lambda name: lambda: T[name](o.NORR))
            return E.ite(o.KVSTAT == 1, lambda: E.ite(o.KVTYPE == 1, wt("SWLS" + w + a), lev("SOLS" + w + a)),
                         lambda: E.ite(o.KVTYPE == 1, wt("SWNS" + w + a), lev("SGNS" + w + a)))
        when = lambda a: E.ite(o.KVWHEN == 1, lambda: pick("H", a), lambda: pick("P", a))
        return E.ite(o.KWHERE == 1, lambda: when("A"), lambda: when("P"))

    @staticmethod
    def bin(E, o, x, a):
        """bin of this year's value in histogram x"""
        q, w = {"HLOLE": ("LOL", "H"), "DPLOLE": ("LOL", "P"), "EUES": ("MGN", "H")}[x]
        v = annual(E, o, q, "S", w, "A")(a, o.NORR)
        v = E.toint_real(v) if x != "EUES" else E.trunc(v / E.real(o.LSTEP))
        return E.ite(v < 21, lambda: v, lambda: 21)

    @staticmethod
    def spec(E, o):
        n = o.EUES.shape[0]
        T = year.totals(E, o)
        mut = {}
        if E.ghost:
            fa = year.filed(E, o)
            (num, mfa, ip), m2 = filem.spec(E, fa)
            mut["EVNTS"], mut["ATRIB"] = m2["EVNTS"], fa.ATRIB
        for x in COUNT:
            X = o[x]
            mut[x] = E.fn(X.shape, lambda *i, X=X: E.ite(i[-1] < o.NFCST, lambda: E.real(0), lambda: X[i]))
        for x in TOTAL:
            mut[x] = E.fn(o[x].shape, lambda *i, f=T[x]: f(*i))
        for x in HIST:
            X = o[x]
            mut[x] = E.fn(X.shape, lambda a, b, X=X, x=x: X[a, b] + E.ite(b == year.bin(E, o, x, a), lambda: E.real(1), lambda: E.real(0)))
        sq = [weighted(E, o, "LOL", "S", "H", "A"), weighted(E, o, "MGN", "S", "H", "A"), weighted(E, o, "LOL", "S", "P", "A")]
        sp = [weighted(E, o, "LOL", "S", "H", "P"), weighted(E, o, "MGN", "S", "H", "P"), weighted(E, o, "LOL", "S", "P", "P")]
        pick = lambda c, f: E.ite(c == 0, lambda: f[0], lambda: E.ite(c == 1, lambda: f[1], lambda: f[2]))
        mut["XNEWA"] = E.fn((n, 3), lambda a, c: o.XNEWA[a, c] + pick(c, [f(a) * f(a) for f in sq]))
        mut["XNEWP"] = E.fn((3,), lambda c: o.XNEWP[c] + pick(c, [f() * f() for f in sp]))
        (flag, ssq, xlast), _ = stats.cvchk.spec(E, year.check(E, o))
        IY = year.years(E, o)
        final = E.Or(flag == 1, o.CLOCK >= o.FINISH)
        SU = sustat(E, o, IY, T)
        mut["SUSTAT"] = E.fn(o.SUSTAT.shape, lambda i, c: E.ite(final, lambda: SU[i, c], lambda: o.SUSTAT[i, c]))
        r = (ip, mfa, num) if E.ghost else (E.any(),) * 3
        return r + (ssq, xlast, flag, o.INTVT + E.ite(IY == o.INTVT, lambda: o.INTV, lambda: 0), E.any()), mut

    @staticmethod
    def check(E, o):
        return NS(dict(CLOCK=o.CLOCK, FINISH=o.FINISH, IYEAR=year.years(E, o), CVTEST=o.CVTEST, SUM=year.monitored(E, o),
                       XLAST=o.XLAST, SSQ=o.SSQ))

    @staticmethod
    def lemmas(E, o):
        n = o.EUES.shape[0]
        _, mut = year.spec(E, o)
        out = []
        for x in HIST:
            H, X = mut[x], o[x]
            out.append((f"lem: one observation per area and year in {x}", E.forall((0, n), lambda a, H=H, X=X: E.eq(
                E.sum(0, 22, lambda b: H[a, b]), E.sum(0, 22, lambda b: X[a, b]) + 1))))
        return out

    # ------------------------------------------------ concrete side
    @staticmethod
    def call(fns, a):
        import os
        for f in ("DUMP.pkl", "output.txt"):
            if os.path.exists(f):
                os.remove(f)
        r = fns("monte_carlo/year.py", "year")(**a)
        year.dump = fns("monte_carlo/rstart.py", "rstart")("DUMP.pkl") if os.path.exists("DUMP.pkl") else None
        return r

    @staticmethod
    def saved(E, o, n, r):
        """what the snapshot has to hold after the closing, by name"""
        have = dict(zip(("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST"), r[:5]))
        have.update(CLOCK=o.CLOCK, LT=o.LT, BB=o.BB, ZB=o.ZB, LSFLG=o.LSFLG, INTVT=o.INTVT, IGSEED=o.IGSEED, ILSEED=o.ILSEED)
        return {x: have[x] if x in have else n[x] for x in SNAP if x not in ("ITAB", "WOLSHA")}

    traces = ("intm",)

    @staticmethod
    def ensures(E, o, n, r):
        if E.sym:
            IY = year.years(E, o)
            due = E.Or(IY == o.INTVT, IY == E.toint_real(E.floor(o.FINISH / 8760)))
            want = year.saved(E, o, n, r)
            out = [("C22: a snapshot exactly in the years of the interval and in the last year",
                    due == E.Or(*[c for c, _, _ in E.trace]))]
            for x, w in want.items():
                out.append((f"C22: the snapshot holds {x}", E.And(*[E.Implies(c, lambda a=a: E.equal(a[x], w)) for c, a, _ in E.trace])))
            return out
        IY = int(year.years(E, o))
        due = IY == o.INTVT or IY == int(o.FINISH / 8760)
        d = year.dump
        out = [("a snapshot exactly in the years of the interval and in the last year", (d is not None) == due)]
        if d is not None and due:
            from conc.run import same
            have = dict(zip(("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST"), r[:5]))
            have.update(CLOCK=o.CLOCK, LT=o.LT, BB=o.BB, ZB=o.ZB, LSFLG=o.LSFLG, INTVT=o.INTVT, IGSEED=o.IGSEED, ILSEED=o.ILSEED)
            for x in SNAP:
                if x in ("ITAB", "WOLSHA"):
                    continue
                want = have[x] if x in have else getattr(n, x)
                if x not in d or not same(np.asarray(d[x]), np.asarray(want)):
                    out.append((f"the snapshot holds {x}", f"{d.get(x)!r}, value {want!r}"[:300]))
        return out

    @staticmethod
    def gen(rng, k):
        n, NF = G.size(rng, 1, 4), int(rng.choice([1, 5]))
        y = int(rng.choice([1, 2, 4, 5, 6, 9]))
        clock = 8760.0 * y
        cal, _ = lay_out(rng, sorted(clock + float(x) for x in rng.choice([1, 1, 24, 80, 168, 3000, 8760, 9000], size=int(rng.integers(0, 6)))))
        d = {}
        for x in YEAR:
            if x in COUNT or x[:2] in ("SG", "SO"):
                sh = (n, 5) if x.endswith("A") else (5,)
                hi = {"L": 12, "M": 900}.get(x[0], 5000)
                if k % 4 == 0 and x[0] == "L":
                    hi = 30
                d[x] = rng.integers(0, hi, size=sh).astype(float) * rng.choice([0, 1, 1, 1], size=sh)
                if NF == 1 and x in COUNT:
                    d[x][..., 1:] = 0
            elif x[:2] == "SW":
                d[x] = np.round(rng.uniform(0, 500, size=(n,) if x.endswith("A") else ()) * 8) / 8
                if not isinstance(d[x], np.ndarray):
                    d[x] = np.array(d[x])
            elif x in HIST:
                h = np.zeros((n, 22))
                for a in range(n):
                    for _ in range(y - 1):
                        h[a, min(21, int(rng.integers(0, 26)))] += 1
                d[x] = h
            elif x == "XNEWA":
                d[x] = rng.uniform(0, 900, size=(n, 3))
            elif x == "XNEWP":
                d[x] = rng.uniform(0, 900, size=3)
        d["ATRIB"] = np.array([clock, 4.0])
        d.update(CLOCK=clock, CVTEST=float(rng.choice([0.0, .025, .1, .6])), EVNTS=cal["EVNTS"], IPOINT=cal["IPOINT"], MFA=cal["MFA"],
                 NUMINQ=cal["NUMINQ"], RFLAG=0, LSFLG=rng.integers(0, 3, size=n).astype(float), NAMA=[f"A{i}" for i in range(n)],
                 IGSEED=G.seeds(rng, 5), ILSEED=G.seeds(rng, 3), SUSTAT=np.zeros((n + 1, 6)), BB=rng.random((n, n)), ZB=rng.random((n, n)), LT=rng.permutation(n),
                 FINISH=8760.0 * int(rng.choice([y, y + 1, 50, 9999])), INTV=int(rng.integers(1, 5)), INTVT=int(rng.choice([y, y, y + 1, 5])),
                 IOJ=int(rng.choice([0, 1])), KVLOC=int(rng.integers(0, n)), KVSTAT=int(rng.integers(1, 3)), KVTYPE=int(rng.integers(1, 3)),
                 KVWHEN=int(rng.integers(1, 3)), KWHERE=int(rng.integers(1, 3)), LSTEP=int(rng.choice([1, 10, 100, 400])), NFCST=NF,
                 NORR=0 if NF == 1 else int(rng.choice([2, 2, 0, 4])), INDX=int(rng.choice([0, 1])), ITAB=int(rng.integers(0, 20)))
        d["SUSTAT"][:n, 0] = rng.choice([0, 100, 2000.0], size=n)
        d["SUSTAT"][:n, 1] = rng.uniform(0, 3000, size=n)
        from conc.cenv import CEnv
        E = CEnv()
        o = NS(dict(d, SSQ=0.0, XLAST=0.0))
        S1 = float(year.monitored(E, o))
        z = NS(dict(d, SSQ=0.0, XLAST=0.0, **{x: np.asarray(d[x] * 0) for x in COUNT}))
        S0 = float(year.monitored(E, z))
        past = rng.random(max(1, y - 1)) * rng.choice([0, .1, 1]) + .5
        past = past / past.sum() * S0
        d["XLAST"] = S0 if y > 1 else 0.0
        if y == 1:          # first year: no history
            for x in TOTAL:
                d[x] = np.asarray(d[x] * 0)
            d["SSQ"] = 0.0
        else:
            d["SSQ"] = float((past ** 2).sum()) * (1 + 1e-9) + 1e-9
        return {**{x: d[x] for x in YEAR}, "_ghost": _ghost_of(d)}

    n_quick = 120


@contract
class report(Contract):
    symbolic = True
    nan_ok = True       # standard deviations are printed only
    file = "monte_carlo/report.py"
    func = "report"
    props = ["C16"]
    modifies = ("SUSTAT",)

    @staticmethod
    def args(E):
        n, f = E.dim("NOAREA", 1), E.dim("NLEV", 1)
        d = {}
        for x in REPORT:
            if x[:2] in ("SG", "SO"):
                d[x] = E.arr(x, (n, f) if x.endswith("A") else (f,), "r")
            elif x[:2] == "SW":
                d[x] = E.arr(x, (n,) if x.endswith("A") else (), "r")
            elif x in HIST:
                d[x] = E.arr(x, (n, 22), "r")
            elif x in ("XNEWA", "XNEWP"):
                d[x] = E.arr(x, (n, 3) if x == "XNEWA" else (3,), "r")
            elif x == "SUSTAT":
                d[x] = E.arr(x, (n + 1, 6), "r")
            elif x == "NAMA":
                d[x] = E.opaque(x)
            else:
                d[x] = E.int(x)
        return d

    @staticmethod
    def requires(E, o):
        n = o.SUSTAT.shape[0] - 1
        f = o.SOLGHP.shape[0]
        return [("years", o.IYEAR >= 1), ("levels", E.And(1 <= o.NFCST, o.NFCST <= f)),
                ("observations", E.forall((0, n), lambda a: E.And(*[E.sum(0, 22, lambda b, X=o[x]: X[a, b]) == E.real(o.IYEAR) for x in HIST])))]

    @staticmethod
    def spec(E, o):
        S = {x: (lambda *i, X=o[x]: X[i[0]] if i else cell(E, X)) for x in REPORT if x[:2] == "SW"}
        return E.any(), {"SUSTAT": sustat(E, o, o.IYEAR, S)}

    @staticmethod
    def call(fns, a):
        import os
        if os.path.exists("output.txt"):
            os.remove("output.txt")
        return fns("monte_carlo/report.py", "report")(**a)

    @staticmethod
    def ensures(E, o, n, r):
        return [] if E.sym else report.printed(o)

    @staticmethod
    def printed(o):
        """the printed tables against the totals"""
        txt = open("output.txt").read()
        na = o.SUSTAT.shape[0] - 1
        y = o.IYEAR
        out = []
        near = lambda s, v, d: abs(float(s) - v) <= 10.0 ** -d * .5001 + 1e-9 * abs(v)
        # distributions
        blocks = txt.split("PROBABILITY DISTRIBUTIONS FOR AREA")[1:]
        if len(blocks) != na:
            return [("a table of distributions for every area", f"{len(blocks)}")]
        for a, b in enumerate(blocks):
            rows = [ln.split() for ln in b.splitlines() if re.match(r"^\s*\d+(\s+[-\d.]+){7}\s*$", ln)]
            if len(rows) != 22 or int(b.split()[0]) != a + 1:
                return [("22 rows per table of distributions", f"area {a}: {len(rows)}")]
            ps = [0.0] * 3
            for j, x in enumerate(rows):
                want = [j, o.DPLOLE[a, j], o.DPLOLE[a, j] / y, o.HLOLE[a, j], o.HLOLE[a, j] / y, j * o.LSTEP, o.EUES[a, j], o.EUES[a, j] / y]
                dec = [0, 0, 3, 0, 3, 0, 0, 4]
                for c in range(8):
                    if not near(x[c], want[c], dec[c]):
                        out.append(("printed distribution", f"area {a} row {j} column {c}: {x[c]}, value {want[c]}"))
        # expectations and magnitudes
        num = r"([-+\d.naif]+)"
        pat = re.compile(r"^\s*" + (r"(\d+)\s+" if True else "") + r"(\d+|AV)\s+" + (num + r"\s+" + num + r"\s+" + num + r"\s+" if o.INDX != 1 else "")
                         + num + r"\s+" + num + r"\s+(GC|TC|GT)\s*$", re.M)
        head = txt.split("POOL STATISTICS")[0]
        cls = {"GC": "G", "TC": "T", "GT": "S"}
        seen = set()
        div = lambda p, q: float(p) / float(q) if q > 0 else 0.0

        def check(tag, g, ev, en, evp, enp, d):
            want = ([(ev / y, d), (div(en, ev), 2), (en / y, 0)] if o.INDX != 1 else []) + [(evp / y, d if o.INDX != 1 else 2), (div(enp, evp), 2)]
            for s, (v, dd) in zip(g, want):
                if not near(s, float(v), dd):
                    out.append(("printed expectation or magnitude", f"{tag}: {s}, value {float(v)}"))
        for mt in pat.finditer(head):
            g = mt.groups()
            a, lev, c = int(g[0]) - 1, g[1], cls[g[-1]]
            if lev == "AV":
                v = [o["SWL" + c + "HA"][a], o["SWN" + c + "HA"][a], o["SWL" + c + "PA"][a], o["SWN" + c + "PA"][a]]
            else:
                l = int(lev) - 1
                v = [o["SOL" + c + "HA"][a, l], o["SGN" + c + "HA"][a, l], o["SOL" + c + "PA"][a, l], o["SGN" + c + "PA"][a, l]]
            seen.add((a, lev, c))
            check(f"area {a} level {lev} {g[-1]}", g[2:-1], *v, 2)
        want = {(a, lv, c) for a in range(na) for lv in ["AV"] + ([str(i + 1) for i in range(o.NFCST)] if o.NFCST != 1 else []) for c in "GTS"}
        if seen != want:
            out.append(("a line for every area, level and class", f"missing {sorted(want - seen)[:3]} extra {sorted(seen - want)[:3]}"))
        pool = txt.split("POOL STATISTICS")[1].split("SUMMARY OF RESULTS")[0]
        pat2 = re.compile(pat.pattern.replace(r"(\d+)\s+(\d+|AV)", r"(\d+|AV)", 1), re.M)
        seen = set()
        for mt in pat2.finditer(pool):
            g = mt.groups()
            lev, c = g[0], cls[g[-1]]
            if lev == "AV":
                v = [float(o["SWL" + c + "HP"]), float(o["SWN" + c + "HP"]), float(o["SWL" + c + "PP"]), float(o["SWN" + c + "PP"])]
            else:
                l = int(lev) - 1
                v = [o["SOL" + c + "HP"][l], o["SGN" + c + "HP"][l], o["SOL" + c + "PP"][l], o["SGN" + c + "PP"][l]]
            seen.add((lev, c))
            check(f"pool level {lev} {g[-1]}", g[1:-1], *v, 3 if lev == "AV" else 2)
        want = {(lv, c) for lv in ["AV"] + ([str(i + 1) for i in range(o.NFCST)] if o.NFCST != 1 else []) for c in "GTS"}
        if seen != want:
            out.append(("a pool line for every level and class", f"missing {sorted(want - seen)[:3]} extra {sorted(seen - want)[:3]}"))
        return out[:4]

    @staticmethod
    def gen(rng, k):
        a = year.gen(rng, k)
        n = a["EUES"].shape[0]
        y = int(rng.choice([1, 2, 7, 40]))
        d = {x: a[x] for x in REPORT if x in a}
        for x in d:
            if x[:2] in ("SG", "SO"):
                d[x] = rng.integers(0, 900 if x[1] == "G" else 40, size=d[x].shape).astype(float) * rng.choice([0, 1, 1], size=d[x].shape)
            elif x[:2] == "SW":
                d[x] = np.asarray(np.round(rng.uniform(0, 800 if x[2] == "N" else 30, size=d[x].shape), 2) * rng.choice([0, 1, 1], size=d[x].shape))
            elif x in HIST:
                d[x] = np.array([np.bincount(rng.integers(0, 22, size=y), minlength=22) for _ in range(n)]).astype(float)
        d["IYEAR"] = y
        return {x: d[x] for x in REPORT}

    n_quick = 80


@contract
class intm(Contract):
    """as seen by the annual closing: changes none of its arguments; what it saves is the contract snapshot"""
    file = "monte_carlo/intm.py"
    func = "intm"
    props = ["C22"]

    @staticmethod
    def args(E):
        return {x: E.arr(x, (2,)) for x in SNAP}

    @staticmethod
    def spec(E, o):
        return E.any(), {}

    @staticmethod
    def gen(rng, k):
        return {x: rng.random(3) for x in SNAP}

    n_quick = 3


@contract
class snapshot(Contract):
    """saved and read back"""
    symbolic = True
    modular = False
    inlines = ("intm",)
    file = "monte_carlo/intm.py"
    func = "intm"
    props = ["C22"]
    spec = None

    @staticmethod
    def args(E):
        return {x: E.opaque(x) for x in SNAP}

    @staticmethod
    def call(fns, a):
        import os
        if os.path.exists("DUMP.pkl"):
            os.remove("DUMP.pkl")
        fns("monte_carlo/intm.py", "intm")(**a)
        return fns("monte_carlo/rstart.py", "rstart")("DUMP.pkl")

    @staticmethod
    def sym_call(eng, pos):
        eng.call_func("monte_carlo/intm.py", "intm", pos, {})
        return eng.call_func("monte_carlo/rstart.py", "rstart", ["DUMP.pkl"], {})

    @staticmethod
    def ensures(E, o, n, r):
        if E.sym:
            return [("exactly the quantities of the state are saved", isinstance(r, dict) and set(r) == set(SNAP))] + \
                [(f"{x} saved under its own name", isinstance(r, dict) and r.get(x) is o[x]) for x in SNAP]
        from conc.run import same
        out = [("exactly the quantities of the state are saved", set(r) == set(SNAP))]
        for x in SNAP:
            if x in r:
                ok = same(np.asarray(r[x]), np.asarray(o[x])) and type(r[x]) is type(o[x])
                out.append((f"{x} saved under its own name", ok or f"read back {r[x]!r}, saved {o[x]!r}"[:300]))
        return out

    @staticmethod
    def gen(rng, k):
        d = {}
        for i, x in enumerate(SNAP):
            t = rng.integers(0, 4)
            d[x] = rng.random(2) if x == "ATRIB" else float(rng.random()) if t == 0 else int(rng.integers(0, 10**6)) if t == 1 else \
                rng.random((int(rng.integers(0, 4)), int(rng.integers(1, 4)))) if t == 2 else rng.integers(0, 99, size=int(rng.integers(0, 30)))
        return d

    n_quick = 60


