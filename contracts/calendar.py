"""C01, C02: the calendar of events (sorted linked list of 4-number cells) and its users."""
import numpy as np

from contracts import gens as G
from pyvc.dsl import ANY, Contract, NS, contract


# ------------------------------------------------------------ concrete helpers
def lay_out(rng, times, cells=None, kinds=None, spare=2):
    """a calendar holding the given times (sorted) in arbitrary cells.
    -> dict(EVNTS, IPOINT, MFA, NUMINQ), positions"""
    n = len(times)
    ncell = max(n + spare, 2) if cells is None else cells
    pos = [int(x) * 4 for x in rng.permutation(ncell)]
    seq, free = pos[:n], pos[n:]
    EV = np.zeros(4 * ncell)
    for k, c in enumerate(seq):
        EV[c] = seq[k + 1] if k + 1 < n else -1
        EV[c + 1] = times[k]
        EV[c + 2] = kinds[k] if kinds is not None else int(rng.integers(1, 5))
    for k, c in enumerate(free):
        EV[c] = free[k + 1] if k + 1 < len(free) else 0
        if rng.random() < .3:
            EV[c + 1] = rng.integers(0, 100)      # left over
            EV[c + 2] = 3
    return dict(EVNTS=EV, IPOINT=seq[0] if n else -1, MFA=free[0], NUMINQ=n), seq


def pending(EVNTS, IPOINT, limit=None):
    """[(time, kind, cell)] in list order, or a text if the list is broken"""
    out, c, seen = [], int(IPOINT), set()
    N = len(EVNTS)
    while c != -1:
        if c in seen:
            return "the list of pending events is circular"
        if c < 0 or c % 4 or c + 3 >= N + 1:
            return f"cell {c} is not a cell"
        seen.add(c)
        out.append((float(EVNTS[c + 1]), float(EVNTS[c + 2]), c))
        c = int(EVNTS[c])
    return out


def rand_times(rng, n):
    t = rng.integers(0, 12, size=n).astype(float) if rng.random() < .6 else rng.uniform(0, 9000, size=n)
    if rng.random() < .3:
        t = t + 0.5
    return sorted(float(x) for x in t)


# ------------------------------------------------------------ contracts
def wf(E, o, g):
    """the calendar holds the ghost sequence g.seq of g.n cells, sorted by time"""
    n = g.n
    L = o.EVNTS.shape[0]
    nxt = lambda k: E.ite(k + 1 < n, lambda: g.seq[k + 1], lambda: -1)
    return [
        ("number of pending events", E.And(n >= 0, o.NUMINQ == n)),
        ("head", o.IPOINT == E.ite(n > 0, lambda: g.seq[0], lambda: -1)),
        ("cells", E.forall((0, n), lambda k: E.And(0 <= g.seq[k], g.seq[k] + 3 < L, E.mod(g.seq[k], 4) == 0))),
        ("links", E.forall((0, n), lambda k: o.EVNTS[g.seq[k]] == E.real(nxt(k)))),
        ("one cell per event", E.forall((0, n), (0, n), lambda i, j: E.Implies(i != j, lambda: g.seq[i] != g.seq[j]))),
    ]


def is_sorted(E, EVNTS, seq, n):
    return E.forall((0, n), (0, n), lambda i, j: E.Implies(i < j, lambda: EVNTS[seq[i] + 1] <= EVNTS[seq[j] + 1]))


def _ghost_of(a):
    p = pending(a["EVNTS"], a["IPOINT"])
    return dict(n=len(p), seq=np.array([x[2] for x in p], dtype=int))


@contract
class filem(Contract):
    file = "monte_carlo/filem.py"
    func = "filem"
    props = ["C01"]
    modifies = ("EVNTS",)

    @staticmethod
    def args(E):
        return dict(MFA=E.int("MFA"), ATRIB=E.arr("ATRIB", (2,), "r"), NUMINQ=E.int("NUMINQ"), IPOINT=E.int("IPOINT"),
                    EVNTS=E.arr("EVNTS", (E.dim("NCELL", 4),), "r"))

    @staticmethod
    def ghost(E, o):
        n = E.dim("n")
        return dict(n=n, seq=E.arr("seq", (n,), "i"))

    @staticmethod
    def requires(E, o):
        g = E.ghost
        return wf(E, o, g) + [
            ("sorted", is_sorted(E, o.EVNTS, g.seq, g.n)),
            ("a free cell", E.And(0 <= o.MFA, o.MFA + 3 < o.EVNTS.shape[0], E.mod(o.MFA, 4) == 0,
                                  E.forall((0, g.n), lambda k: g.seq[k] != o.MFA))),
            ("the next free cell is a whole number", E.is_int(o.EVNTS[o.MFA])),
        ]

    @staticmethod
    def ghost_after(E, o):
        g = E.ghost
        p, N = filem.place(E, o), o.MFA
        return dict(n=g.n + 1, seq=E.fn((g.n + 1,), lambda k: E.ite(k < p, lambda: g.seq[k], lambda: E.ite(
            k == p, lambda: N, lambda: g.seq[k - 1])), "i"))

    @staticmethod
    def invariants(E):
        """search loop after k rounds: at position k, everything before it is earlier than the new event"""
        def loop0(o, v, k):
            g = E.ghost
            return [("at position k", E.And(k < g.n, lambda: v.j == g.seq[k])),
                    ("one behind", E.Implies(k > 0, lambda: v.K == g.seq[k - 1])),
                    ("those before are earlier", E.forall((0, k), lambda m: o.EVNTS[g.seq[m] + 1] < o.ATRIB[0])),
                    ("bound", g.n)]
        return [loop0]

    @staticmethod
    def place(E, o):
        """position the new event takes: before the first one that is not earlier"""
        g = E.ghost
        return E.first(0, g.n, lambda k: o.EVNTS[g.seq[k] + 1] >= o.ATRIB[0])

    @staticmethod
    def spec(E, o):
        g = E.ghost
        n, p, N = g.n, filem.place(E, o), o.MFA

        def cell(c):
            return E.ite(c == N, lambda: E.real(E.ite(p < n, lambda: g.seq[p], lambda: -1)), lambda: E.ite(
                c == N + 1, lambda: o.ATRIB[0], lambda: E.ite(
                    c == N + 2, lambda: o.ATRIB[1], lambda: E.ite(
                        E.And(p > 0, lambda: c == g.seq[p - 1]), lambda: E.real(N), lambda: o.EVNTS[c]))))
        return ((n + 1, E.toint_real(o.EVNTS[N]), E.ite(p == 0, lambda: N, lambda: o.IPOINT)),
                {"EVNTS": E.fn(o.EVNTS.shape, cell)})

    @staticmethod
    def lemmas(E, o):
        """the calendar afterwards holds the sequence with the new event at its place"""
        g = E.ghost
        p, N = filem.place(E, o), o.MFA
        (num, mfa, ip), mut = filem.spec(E, o)
        EV = mut["EVNTS"]
        g2 = NS(filem.ghost_after(E, o))
        new = g2.seq
        o2 = NS(dict(EVNTS=EV, NUMINQ=num, IPOINT=ip))
        return [("after: " + a, f) for a, f in wf(E, o2, g2)] + [
            ("after: sorted", is_sorted(E, EV, new, g.n + 1)),
            ("every pending event keeps its time and kind", E.forall((0, g.n), lambda k: E.And(
                EV[g.seq[k] + 1] == o.EVNTS[g.seq[k] + 1], EV[g.seq[k] + 2] == o.EVNTS[g.seq[k] + 2]))),
            ("served before those scheduled earlier for its time", E.forall((0, g.n), lambda k: E.Implies(
                o.EVNTS[g.seq[k] + 1] == o.ATRIB[0], lambda: k >= p)))]

    @staticmethod
    def gen(rng, k):
        n = int(rng.choice([0, 1, 2, 3, 6, 10]))
        t = rand_times(rng, n)
        a, seq = lay_out(rng, t)
        r = rng.random()
        x = float(rng.choice(t)) if n and r < .5 else -1.0 if r < .6 else 99999.0 if r < .7 else float(rng.integers(0, 13))
        return dict(MFA=a["MFA"], ATRIB=np.array([x, float(rng.integers(1, 5))]), NUMINQ=n, IPOINT=a["IPOINT"],
                    EVNTS=a["EVNTS"], _ghost=_ghost_of(a))


@contract
class remove(Contract):
    file = "monte_carlo/remove.py"
    func = "remove"
    props = ["C01"]
    modifies = ("ATRIB", "EVNTS")

    @staticmethod
    def args(E):
        return dict(NUMINQ=E.int("NUMINQ"), ATRIB=E.arr("ATRIB", (2,), "r"),
                    EVNTS=E.arr("EVNTS", (E.dim("NCELL", 4),), "r"), IPOINT=E.int("IPOINT"))

    ghost = filem.ghost

    @staticmethod
    def requires(E, o):
        return wf(E, o, E.ghost) + [("an event is pending", E.ghost.n >= 1)]

    @staticmethod
    def spec(E, o):
        g, I = E.ghost, o.IPOINT
        return ((I, o.NUMINQ - 1, E.ite(g.n > 1, lambda: g.seq[1], lambda: -1)), {
            "ATRIB": E.fn((2,), lambda k: E.ite(k == 0, lambda: o.EVNTS[I + 1], lambda: o.EVNTS[I + 2])),
            "EVNTS": E.fn(o.EVNTS.shape, lambda c: E.ite(
                E.Or(c == I + 1, c == I + 2), lambda: E.real(0), lambda: o.EVNTS[c]))})

    @staticmethod
    def ghost_after(E, o):
        g = E.ghost
        return dict(n=g.n - 1, seq=E.fn((g.n - 1,), lambda k: g.seq[k + 1], "i"))

    @staticmethod
    def lemmas(E, o):
        g = E.ghost
        (mfa, num, ip), mut = remove.spec(E, o)
        EV = mut["EVNTS"]
        o2 = NS(dict(EVNTS=EV, NUMINQ=num, IPOINT=ip))
        g2 = NS(remove.ghost_after(E, o))
        return [("after: " + a, f) for a, f in wf(E, o2, g2)] + [
            ("the others keep their time and kind", E.forall((1, g.n), lambda k: E.And(
                EV[g.seq[k] + 1] == o.EVNTS[g.seq[k] + 1], EV[g.seq[k] + 2] == o.EVNTS[g.seq[k] + 2]))),
            ("the cell for the next event holds no pending one", E.forall((1, g.n), lambda k: g.seq[k] != mfa)),
            ("it still names the cell that follows it", EV[mfa] == E.real(ip)),
            ("the cell it names is a whole number", E.is_int(EV[mfa]))]

    @staticmethod
    def gen(rng, k):
        n = int(rng.choice([1, 2, 3, 6, 10]))
        a, seq = lay_out(rng, rand_times(rng, n))
        return dict(NUMINQ=n, ATRIB=np.array([-7.0, -8.0]), EVNTS=a["EVNTS"], IPOINT=a["IPOINT"], _ghost=_ghost_of(a))


@contract
class initfl(Contract):
    file = "monte_carlo/initfl.py"
    func = "initfl"
    props = ["C01"]

    @staticmethod
    def args(E):
        return {}

    @staticmethod
    def spec(E, o):
        # 25 cells, each but the last linked to the next one; nothing pending
        return (0, -1, E.fn((100,), lambda c: E.ite(E.And(E.mod(c, 4) == 0, c < 96), lambda: E.real(c + 4),
                                                    lambda: E.real(0)))), {}

    @staticmethod
    def gen(rng, k):
        return {}

    n_quick = 1
    n_thorough = 1


class _initial:
    @staticmethod
    def expect(E, o):
        """(times, kinds) in order of service"""
        return [(0.5, 2), (0.5, 3), (o.JSTEP, 1), (o.QTR[0], 3), (o.QTR[1], 3), (o.QTR[2], 3), (8760.0, 4)]

    @staticmethod
    def check(E, o, EVNTS, IPOINT, NUMINQ):
        want = _initial.expect(E, o)
        out = [("seven events", NUMINQ == 7)]
        c = IPOINT
        cells = []
        for k, (t, kind) in enumerate(want):
            ok = E.And(0 <= c, c + 3 < o.EVNTS.shape[0])
            out.append((f"event {k} is in a cell", ok))
            if not E.sym and not ok:
                return out
            cells.append(c)
            out.append((f"event {k}: time", EVNTS[c + 1] == t))
            out.append((f"event {k}: kind", EVNTS[c + 2] == kind))
            c = E.toint_real(EVNTS[c])
        out.append(("nothing after the last event", c == -1))
        return out, cells


@contract
class initl(Contract):
    file = "monte_carlo/initl.py"
    func = "initl"
    props = ["C01", "C18"]
    modifies = ("EVNTS",)
    spec = None

    @staticmethod
    def args(E):
        return dict(JSTEP=E.int("JSTEP"), EVNTS=E.arr("EVNTS", (100,), "r"), QTR=E.arr("QTR", (3,), "r"))

    @staticmethod
    def requires(E, o):
        return [("time step", E.Or(o.JSTEP == 1, o.JSTEP == 24)),
                ("seasons in order", E.And(24 < o.QTR[0], o.QTR[0] < o.QTR[1], o.QTR[1] < o.QTR[2], o.QTR[2] < 8760)),
                ("calendar of initfl", E.forall((0, 100), lambda c: o.EVNTS[c] == E.ite(
                    E.And(E.mod(c, 4) == 0, c < 96), lambda: E.real(c + 4), lambda: E.real(0))))]

    @staticmethod
    def ensures(E, o, n, r):
        ATRIB, CLOCK, IPOINT, MFA, NUMINQ = r
        res = _initial.check(E, o, n.EVNTS, IPOINT, NUMINQ)
        if isinstance(res, list):
            return res
        out, cells = res
        out.append(("the clock starts at zero", CLOCK == 0))
        for i in range(7):
            out.append((f"event {i}: the next free cell is another one", MFA != cells[i]))
        out.append(("the next free cell", E.And(0 <= MFA, MFA + 3 < 100, E.mod(MFA, 4) == 0)))
        return out

    @staticmethod
    def gen(rng, k):
        E = np.zeros(100)
        E[:96:4] = np.arange(0, 96, 4) + 4
        q = np.sort(rng.choice(np.arange(1, 52), size=3, replace=False)) * 168 + 0.5
        return dict(JSTEP=int(rng.choice([1, 24])), EVNTS=E, QTR=q)


@contract
class initl_general(initl):
    """_initl: the same calendar, filed event by event (used nowhere; executed only)"""
    symbolic = False
    func = "_initl"
    props = ["C01"]

    @staticmethod
    def args(E):
        return dict(JSTEP=E.int("JSTEP"), EVNTS=E.arr("EVNTS", (100,), "r"), IPOINT=E.int("IPOINT"), MFA=E.int("MFA"),
                    NUMINQ=E.int("NUMINQ"), QTR=E.arr("QTR", (3,), "r"))

    @staticmethod
    def requires(E, o):
        return initl.requires(E, o) + [("empty", E.And(o.IPOINT == -1, o.MFA == 0, o.NUMINQ == 0))]

    @staticmethod
    def gen(rng, k):
        a = initl.gen(rng, k)
        return dict(JSTEP=a["JSTEP"], EVNTS=a["EVNTS"], IPOINT=-1, MFA=0, NUMINQ=0, QTR=a["QTR"])


@contract
class calendar_history(Contract):
    """any initial filing, then any sequence of serve-and-reschedule, against a sorted list"""
    scenario = True
    file = "monte_carlo/filem.py"
    func = "initfl; filem*; (remove; filem)*"
    props = ["C01"]
    n_quick = 120

    @staticmethod
    def run(T, rng, k):
        filem, remove, initfl = T.fn("monte_carlo/filem.py", "filem"), T.fn("monte_carlo/remove.py", "remove"), \
            T.fn("monte_carlo/initfl.py", "initfl")
        MFA, IP, EV = initfl()
        N, model, log = 0, [], []

        def bad(what):
            p = pending(EV, IP)
            if isinstance(p, str):
                return [(what, p, log)]
            if N != len(model):
                return [(what + ": count", f"{N} for {len(model)}", log)]
            if [(t, q) for t, q, _ in p] != model:
                return [(what + ": pending events", f"{[(t, q) for t, q, _ in p]}, expected {model}", log)]
            if MFA in [c for _, _, c in p]:
                return [(what + ": next free cell", f"{MFA} holds a pending event", log)] if what == "served" else []
            return []

        def file(t, q):
            nonlocal N, MFA, IP
            log.append(("file", t, q))
            N, MFA, IP = filem(MFA, np.array([t, float(q)]), N, IP, EV)
            i = next((j for j, m in enumerate(model) if m[0] >= t), len(model))
            model.insert(i, (t, float(q)))
            return bad("scheduled")
        for _ in range(int(rng.integers(1, 24))):
            f = file(float(rng.integers(0, 9)) + (.5 if rng.random() < .3 else 0), int(rng.integers(1, 5)))
            if f:
                return f
        for _ in range(60):
            A = np.zeros(2)
            log.append(("serve",))
            MFA, N, IP = remove(N, A, EV, IP)
            if (A[0], A[1]) != model[0]:
                return [("served event", f"{tuple(A)}, expected {model[0]}", log)]
            model.pop(0)
            f = bad("served")
            f = f or file(A[0] + float(rng.choice([0, 1, 1, 3, 7])), int(A[1]))
            if f:
                return f
        return []
