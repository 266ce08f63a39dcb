"""C10 C13 C24: the transmission step against an independent DC solution and an independent linear program."""
import numpy as np

from contracts import gens as G
from contracts.network import assign
from contracts.simulation import eval_spec
from pyvc.dsl import ANY, Contract, NS, contract


# ------------------------------------------------------------ oracle
def simplex(c, A, b, Aeq, beq):
    """min c x, A x <= b, Aeq x = beq, x >= 0: Bland's rule; the answer is returned only with a certificate (primal and dual
    feasible, equal values), else None"""
    c = np.asarray(c, float)
    n = len(c)
    A, Aeq = np.asarray(A, float).reshape(-1, n), np.asarray(Aeq, float).reshape(-1, n)
    m1, m2 = len(A), len(Aeq)
    m = m1 + m2
    T = np.zeros((m, n + m1 + m))
    T[:m1, :n], T[m1:, :n] = A, Aeq
    T[:m1, n:n + m1] = np.eye(m1)
    r = np.concatenate([b, beq]).astype(float)
    s = np.where(r < 0, -1.0, 1.0)
    T[:, :n + m1] *= s[:, None]
    r = r * s
    T[:, n + m1:] = np.eye(m)
    full, rhs = T.copy(), r.copy()
    B = list(range(n + m1, n + m1 + m))
    N = n + m1 + m

    def solve(cost, cols):
        nonlocal B
        for _ in range(3000):
            try:
                Binv = np.linalg.inv(full[:, B])
            except np.linalg.LinAlgError:
                return None
            x = Binv @ rhs
            y = cost[B] @ Binv
            d = cost - y @ full
            e = next((j for j in range(cols) if j not in B and d[j] < -1e-9), None)
            if e is None:
                return x, y
            w = Binv @ full[:, e]
            k = [(max(x[i], 0) / w[i], B[i], i) for i in range(m) if w[i] > 1e-9]
            if not k:
                return None
            best = min(t for t, _, _ in k)
            i = min((bi, i) for t, bi, i in k if t <= best + 1e-12)[1]
            B[i] = e
        return None
    cost1 = np.zeros(N)
    cost1[n + m1:] = 1
    s1 = solve(cost1, N)
    if s1 is None or cost1[B] @ s1[0] > 1e-7:
        return None
    cost2 = np.zeros(N)
    cost2[:n] = c
    cost2[n + m1:] = 1e7
    s2 = solve(cost2, n + m1)
    if s2 is None:
        return None
    x, y = s2
    z = np.zeros(N)
    z[B] = x
    if (z < -1e-6).any() or abs(z[n + m1:]).max(initial=0) > 1e-6 or (cost2[:n + m1] - y @ full[:, :n + m1] < -1e-6).any() \
            or abs(y @ rhs - cost2 @ z) > 1e-5:
        return None
    return float(c @ z[:n])


def admittance_full(n, LP, b):
    B = np.zeros((n, n))
    for l in range(len(b)):
        i, j = int(LP[l, 1]), int(LP[l, 2])
        B[i, i] += b[l]
        B[j, j] += b[l]
        B[i, j] -= b[l]
        B[j, i] -= b[l]
    return -B if False else B


def dc(n, LP, b, NR, inj):
    """flows and net flows into the areas for balanced injections (the code's sign: row of the matrix times angles = injection
    with the sign the repository gives its matrix)"""
    from contracts.leaf import admittance
    from conc.cenv import CEnv
    E = CEnv()
    Y = np.array([[admittance(E, LP, lambda l: b[l], i, j) for j in range(n)] for i in range(n)])
    keep = [a for a in range(n) if a != NR]
    th = np.zeros(n)
    th[keep] = np.linalg.solve(Y[np.ix_(keep, keep)], np.asarray(inj, float)[keep])
    F = np.array([(th[int(LP[l, 1])] - th[int(LP[l, 2])]) * b[l] for l in range(len(b))])
    S = np.zeros(n)
    for l in range(len(b)):
        S[int(LP[l, 2])] += F[l]
        S[int(LP[l, 1])] -= F[l]
    return F, S


def ptdf(n, LP, b, NR):
    """flow per unit of injection at each area (taken out at the reference)"""
    P = np.zeros((len(b), n))
    for a in range(n):
        if a != NR:
            e = np.zeros(n)
            e[a], e[NR] = 1, -1
            P[:, a] = dc(n, LP, b, NR, e)[0]
    return P


def least_curtailment(n, LP, BLP, NR, INJ, LOD, NLS, lim_in, lim_out):
    P = ptdf(n, LP, BLP[:, 0], NR)
    I = np.eye(n)
    if NLS != 0:
        sg = np.where(INJ > 0, 1.0, -1.0)
        D = np.diag(sg)                      # injections = D x, x served amounts
        off = np.zeros(n)
        c = np.where(INJ > 0, 0.0, -1.0)
        up = abs(INJ)
        const = float(-INJ[INJ <= 0].sum())
    else:
        D = np.hstack([I, I])                # x = (generation, curtailment)
        off = -LOD
        c = np.concatenate([np.zeros(n), np.ones(n)])
        up = np.concatenate([LOD + INJ, LOD])
        const = 0.0
    k = D.shape[1]
    A = np.vstack([P @ D, -P @ D, -D, D, np.eye(k)])
    b = np.concatenate([BLP[:, 1] - P @ off, BLP[:, 2] + P @ off, lim_in + off, lim_out - off, up])
    v = simplex(c, A, b, np.ones((1, n)) @ D, [-off.sum()])
    return None if v is None else const + v


# ------------------------------------------------------------ cases
def network_case(rng, n):
    """lines in their present state: (LP, base data, present data)"""
    LP, b = G.network(rng, n)
    nl = len(b)
    base = np.zeros((nl, 3))
    base[:, 0] = b
    base[:, 1:] = np.round(rng.uniform(5, 200, size=(nl, 2)))
    now = base.copy()
    for l in rng.permutation(nl):
        r = rng.random()
        if r < .3:
            now[l, 0] = b[l] * rng.choice([.5, 2.0])
        elif r < .6:
            t = now[:, 0].copy()
            t[l] = 0
            Y = admittance_full(n, LP, t)[:n - 1, :n - 1]
            if n == 1 or abs(np.linalg.det(Y / 50)) > 1e-3:
                now[l] = 0
        if rng.random() < .3:
            now[l, 1:] = np.round(now[l, 1:] * rng.random())
    return LP, base, now


def check_step(T, n, LP, BLP, BLP0, NR, NLS, BN0, LT, BB0, ZB0, BN, BB, ZB, FLOW, INDIC, tag, wit):
    """outcome of one tm2 call"""
    out = []
    X = n - 1
    if not (np.allclose(BB[:X, :X], BB0[:X, :X], atol=1e-6) and np.allclose(ZB[:X, :X], ZB0[:X, :X], rtol=1e-6, atol=1e-9)):
        out.append((f"C13,C10: {tag}the matrices of the base network are restored", f"BB {T.describe(BB)} was {T.describe(BB0)}", wit))
    if not np.array_equal(BN[:, [0, 3, 4]], BN0[:, [0, 3, 4]]):
        out.append((f"C13: {tag}area data unchanged", T.describe(BN), wit))
    INJ, LOD = BN0[:, 2], BN0[:, 1]
    o = NS(dict(INJ=INJ[LT], LOD=LOD, LT=LT, NN=n, NLS=NLS))
    E = T.CEnv()
    inj, cut = np.zeros(n), np.zeros(n)
    for i in range(n):
        inj[LT[i]], cut[LT[i]] = assign.inj(E, o, i), assign.curtail(E, o, i)
    F, S = dc(n, LP, BLP[:, 0], NR, inj)
    over = [BLP[l, 1] - F[l] if F[l] >= 0 else BLP[l, 2] + F[l] for l in range(len(F))] + \
        [BN0[a, 3] - S[a] if S[a] >= 0 else BN0[a, 4] + S[a] for a in range(n)]
    over = np.array(over)
    if (abs(over) < 1e-6).any():
        want = None                  # on a limit: either verdict
    else:
        want = int((over < 0).any())
    if want is not None and INDIC != want:
        out.append((f"C13: {tag}violation reported exactly when a limit is exceeded", f"reported {INDIC}, margins {over.tolist()}", wit))
        return out
    if want is None:
        want = INDIC
    F = F[:len(F)]
    if want == 0:
        if not np.allclose(FLOW, F, rtol=1e-6, atol=1e-5):
            out.append((f"C13,C10,C11: {tag}flows are those of the present network", f"{FLOW}, Kirchhoff {F}", wit))
        if not np.allclose(BN[:, 1], inj, rtol=1e-6, atol=1e-5) or not np.allclose(BN[:, 2], cut, rtol=1e-6, atol=1e-5):
            out.append((f"C13,C12: {tag}injections and curtailments of the areas", f"{BN[:, 1:3].tolist()}, {inj.tolist()} {cut.tolist()}", wit))
        return out
    # linear program
    x, c = BN[:, 1], BN[:, 2]
    tol = 1e-4 * max(1.0, abs(INJ).max(), LOD.max())
    F, S = dc(n, LP, BLP[:, 0], NR, x)
    if abs(x.sum()) > tol:
        out.append((f"C24: {tag}injections after curtailment are balanced", f"{x}", wit))
    if not np.allclose(FLOW, F, atol=tol):
        out.append((f"C24: {tag}reported flows are those of the reported injections", f"{FLOW}, {F}", wit))
    bad = [l for l in range(len(F)) if F[l] > BLP[l, 1] + tol or -F[l] > BLP[l, 2] + tol] + \
        [n + a for a in range(n) if S[a] > BN0[a, 3] + tol or -S[a] > BN0[a, 4] + tol]
    if bad:
        out.append((f"C24: {tag}no limit is exceeded after curtailment", f"flows {F} net {S} limits {BLP[:, 1:]} {BN0[:, 3:]}", wit))
    if (c < -tol).any():
        out.append((f"C24: {tag}curtailments are not negative", f"{c}", wit))
    if NLS != 0:
        ok = all((abs(x[a] - INJ[a] - c[a]) <= tol and x[a] <= tol) if INJ[a] <= 0 else
                 (-tol <= x[a] <= INJ[a] + tol and abs(c[a]) <= tol) for a in range(n))
    else:
        g = x + LOD - c
        ok = all(-tol <= g[a] <= LOD[a] + INJ[a] + tol and c[a] <= LOD[a] + tol for a in range(n))
    if not ok:
        out.append((f"C24: {tag}each area's injection is its request less its curtailment", f"inj {x} cut {c} requests {INJ} loads {LOD}", wit))
    best = least_curtailment(n, LP, BLP, NR, INJ, LOD, NLS, BN0[:, 3], BN0[:, 4])
    if best is not None and abs(c.sum() - best) > 10 * tol:
        out.append((f"C24: {tag}the curtailment is the least possible", f"{c.sum()}, possible {best}", wit))
    return out


@contract
class load_flow(Contract):
    """one tm2 call on a random network with changed lines"""
    scenario = True
    file = "monte_carlo/tm2.py"
    func = "tm2"
    props = ["C10", "C13", "C24", "C11", "C12"]
    n_quick = 150

    @staticmethod
    def run(T, rng, k):
        tm1, tm2 = T.fn("monte_carlo/tm1.py", "tm1"), T.fn("monte_carlo/tm2.py", "tm2")
        n = int(rng.integers(2, 5))
        LP, base, now = network_case(rng, n)
        NR = int(rng.integers(0, n))
        BN = np.zeros((n, 5))
        BN[:, 0] = np.arange(n)
        BN[:, 3] = BN[:, 4] = rng.choice([9999.0, 80.0, 40.0], size=n)
        NLS = int(rng.choice([0, 1]))
        LOD = np.round(rng.uniform(50, 400, size=n))
        INJ = np.round(rng.uniform(-200, 200, size=n))
        INJ = np.maximum(INJ, -LOD)
        if rng.random() < .3:
            now[:, 1:] *= 20
        BN[:, 1], BN[:, 2] = LOD if NLS == 0 else 0.0, INJ
        if rng.random() < .2:
            BN[:, 2] = 0
        B0, BB, LT, ZB = tm1(BN, LP, base, NR)
        BB0, ZB0, BN0 = BB.copy(), ZB.copy(), BN.copy()
        BLP = now.copy()
        FLOW, INDIC = tm2(BN, LP, BLP, B0, BB, ZB, LT, NR, NLS, np.zeros((n, 6)), 10.0, 9, 0, 1, np.ones(3), np.ones(3))
        wit = dict(LP=LP, base=base, now=now, NR=NR, NLS=NLS, BN=BN0)
        out = check_step(T, n, LP, now, B0, NR, NLS, BN0, np.asarray(LT), BB0, ZB0, BN, BB, ZB, FLOW, INDIC, "", wit)
        if not np.array_equal(BLP, now):
            out.append(("C13: line data unchanged by the load flow", "", wit))
        return out


@contract
class transmission_hour(Contract):
    """several hours in a row on one network: stages, verdict, restoration"""
    scenario = True
    file = "monte_carlo/transm.py"
    func = "transm"
    props = ["C13", "C10", "C24", "C12", "C11"]
    n_quick = 60

    @staticmethod
    def run(T, rng, k):
        import copy
        tm1, tm2, transm = (T.fn(f"monte_carlo/{x}.py", x) for x in ("tm1", "tm2", "transm"))
        n = int(rng.integers(2, 5))
        LP, base, _ = network_case(rng, n)
        nl = len(LP)
        NR = int(rng.integers(0, n))
        BLPA = np.zeros((nl, 18))
        for s in range(6):
            _, _, now = (LP, base, base.copy())
            BLPA[:, 3 * s] = base[:, 0] * (rng.choice([.5, 1, 1, 2], size=nl) if s else 1)
            BLPA[:, 3 * s + 1:3 * s + 3] = np.round(rng.uniform(5, 250, size=(nl, 2)))
        outage = rng.random(nl) < .4
        BLPA[outage, 15:18] = 0                  # state 6: out
        BN = np.zeros((n, 5))
        BN[:, 0] = np.arange(n)
        BN[:, 3] = BN[:, 4] = rng.choice([9999.0, 9999.0, 60.0], size=n)
        lim0 = BN[:, 3:].copy()
        BB, ZB, LT, B0 = np.zeros((n, n)), np.zeros((n, n)), np.zeros(n, dtype=int), np.zeros(nl)
        want = tm1(BN.copy(), LP, BLPA[:, :3].copy(), NR)
        NLS = int(rng.choice([0, 1]))
        out = []
        log = []

        def step(*p, **kw):
            b = T.bound(tm2, p, kw)
            pre = copy.deepcopy(b)
            r = tm2(*p, **kw)
            log.append((pre, b, copy.deepcopy(b), copy.deepcopy(r)))
            return r
        for hr in range(4):
            ST = rng.integers(1, 7, size=nl)
            t = BLPA[np.arange(nl), (ST - 1) * 3]
            if abs(np.linalg.det(admittance_full(n, LP, t)[:n - 1, :n - 1] / 50)) < 1e-3:
                ST[:] = 1
            M = np.where(rng.random((nl, 2)) < .8, 1.0, .5)
            REQ = np.round(rng.uniform(150, 500, size=n))      # capacity CAPREQ + margin stays positive
            m = np.round(rng.uniform(-120, 120, size=n))
            if not (m < 0).any():
                m[0] = -abs(m[0]) - 1
            TR = np.zeros(n)
            if n > 1 and rng.random() < .6:
                x = float(np.round(rng.uniform(5, 90)))
                i, j = rng.choice(n, size=2, replace=False)
                TR[i], TR[j] = x, -x
            TJ = np.zeros(n)
            if rng.random() < .3:
                x = float(np.round(rng.uniform(5, 30)))
                TJ[0], TJ[-1] = x, -x
            if n == 1:
                TJ[:] = 0
            CON = REQ + m
            log.clear()
            a = dict(IFLAG=0 if hr == 0 or rng.random() < .3 else 1, JFLAG=0, CLOCK=100.0 + hr, JHOUR=99 + hr, IOI=0, BN=BN, BLPA=BLPA, BLP0=B0, BB=BB,
                     LT=LT, ZB=ZB, LP=LP, NR=NR, STMULT=M, LNSTAT=ST, NLS=NLS, TRNSFR=TR, TRNSFJ=TJ, SYSCON=CON, CAPREQ=REQ,
                     PLNDST=np.ones(3), PCTAVL=np.ones(3))
            keep = copy.deepcopy(a)
            with T.Patched((tm2, step)):
                J, FLOW, SADJ = transm(*a.values())
            wit = dict(hour=hr, **{x: keep[x] for x in ("BLPA", "LP", "NR", "STMULT", "LNSTAT", "NLS", "TRNSFR", "TRNSFJ", "SYSCON", "CAPREQ", "BN", "IFLAG")})
            for x in ("BLPA", "LP", "STMULT", "LNSTAT", "TRNSFR", "TRNSFJ", "SYSCON", "CAPREQ", "PLNDST", "PCTAVL"):
                if not T.same(a[x], keep[x]):
                    out.append((f"C13: {x} unchanged", "", wit))
            X = n - 1
            if not (np.allclose(BB[:X, :X], want[1][:X, :X], atol=1e-6) and np.allclose(ZB[:X, :X], want[3][:X, :X], rtol=1e-6, atol=1e-9)
                    and np.array_equal(LT, want[2]) and np.array_equal(B0, want[0])):
                out.append(("C13,C10: after the hour the matrices are those of the base network", f"hour {hr}: BB {BB.tolist()}, base {want[1].tolist()}", wit))
            if not np.array_equal(BN[:, 3:], lim0):
                out.append(("C13: after the hour the area limits are the original ones", f"{BN[:, 3:].tolist()}", wit))
            if not log or len(log) > 2:
                out.append(("C13: one load flow, or two when shortages remain", f"{len(log)}", wit))
                return out
            pre, _, post, r = log[0]
            state = np.array([[BLPA[l, 3 * (ST[l] - 1)], BLPA[l, 3 * (ST[l] - 1) + 1] * M[l, 0], BLPA[l, 3 * (ST[l] - 1) + 2] * M[l, 1]] for l in range(nl)])
            if not np.allclose(pre["BLP"], state):
                out.append(("C13: each line has the data of its state, capacities scaled", f"{pre['BLP'].tolist()}, {state.tolist()}", wit))
            firm = np.maximum(TR + TJ, np.minimum(m, 0))
            if not np.allclose(pre["BN"][:, 2], firm) or abs(pre["BN"][:, 1]).max() > 0 or pre["NLS"] == 0:
                out.append(("C13: the first load flow carries the firm transfers, limited to the shortages", f"{pre['BN'].tolist()}, {firm}", wit))
            inj = post["BN"][:, 1]
            solved = bool(((m - inj) >= 0).all())
            near = abs(m - inj).min() < 1e-7
            if not near and solved != (J == 0):
                out.append(("C13: solved exactly when the firm transfers clear every shortage", f"reported {J}, margins {m - inj}", wit))
            if near:
                solved = J == 0
            if solved != (len(log) == 1):
                out.append(("C13: emergency assistance exactly when shortages remain", f"{len(log)} load flows", wit))
                return out
            if solved and not np.allclose(SADJ, m - inj):
                out.append(("C13: margins after the firm transfers", f"{SADJ}", wit))
            for i, (pre, _, post, r) in enumerate(log):
                out += check_step(T, n, LP, pre["BLP"], B0, NR, pre["NLS"], pre["BN"], np.asarray(LT), pre["BB"], pre["ZB"], post["BN"],
                                  post["BB"], post["ZB"], r[0], r[1], f"stage {i + 1}: ", wit)
            if not solved:
                p2 = log[1][0]
                cadj = inj * (NLS != 0)
                if not np.allclose(p2["BN"][:, 2], m - cadj) or not np.allclose(p2["BN"][:, 1], REQ) or (p2["NLS"] != 0) != (NLS != 0):
                    out.append(("C13: emergency assistance starts from the remaining margins and the loads", f"{p2['BN'].tolist()}", wit))
                if NLS == 0 and not np.allclose(p2["BLP"], state):
                    out.append(("C13: each line has the data of its state, capacities scaled", f"{p2['BLP'].tolist()}, {state.tolist()}", wit))
                if NLS != 0:
                    left = np.array([[s[0], max(s[1] - f, 0), max(s[2] + f, 0)] for s, f in zip(state, log[0][3][0])])
                    into = np.zeros(n)
                    for l, f in enumerate(log[0][3][0]):
                        into[LP[l, 2]] += f
                        into[LP[l, 1]] -= f
                    if not np.allclose(p2["BLP"], left) or not np.allclose(p2["BN"][:, 3:], lim0 + np.outer(into, [-1, 1])):
                        out.append(("C13: emergency assistance uses the capacity the firm transfers leave", f"{p2['BLP'].tolist()} {p2['BN'].tolist()}", wit))
                if not np.allclose(SADJ, log[1][2]["BN"][:, 1] - m + cadj):
                    out.append(("C13,C24: reported margins are the injections less the margins", f"{SADJ}", wit))
            if out:
                return out
        return out
