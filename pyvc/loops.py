"""Loops.

A loop over a literal number of rounds is unrolled.  Any other `for` is summarised
exactly: the body is executed once for an arbitrary round k with every variable and
array cell it changes replaced by an unknown value "at the start of round k"; from the
resulting recurrence the value after any number of rounds is read off (sum of the
increments, last write, running maximum).  A recurrence of no such form is outside the
fragment unless the contract supplies invariants, which are then checked at the start
and preserved by an arbitrary round."""
import ast
from fractions import Fraction

import z3

from pyvc import terms as T
from pyvc.terms import Unsupported
from pyvc.vals import UNDEF, Arr, Masked, Maybe, Opaque, Poison, Range, Seq, State, fold, memo

UNROLL = 8


def scal(x):
    return isinstance(x, (int, bool, Fraction, float)) or T.is_z3(x)


def kind_of(x):
    return "b" if T.is_bool(x) else "i" if T.is_int(x) else "r"


SORT = {"r": z3.RealSort, "i": z3.IntSort, "i32": z3.IntSort, "b": z3.BoolSort}


def assigned(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    return out


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def loop_number(eng, s):
    fd = eng.frames[-1].get("fd")
    if fd is None:
        return None
    n = 0
    for x in ast.walk(fd):
        pass
    loops = [x for x in walk_order(fd) if isinstance(x, (ast.For, ast.While))]
    for i, x in enumerate(loops):
        if x is s:
            return i
    return None


def walk_order(n):
    yield n
    for c in ast.iter_child_nodes(n):
        yield from walk_order(c)


def for_loop(eng, s, st):
    it = eng.force(eng.ev(s.iter))
    st = eng.st
    if s.orelse:
        raise Unsupported("else of a loop")
    inv = eng.invariants.get((eng.frames[-1]["file"], eng.frames[-1].get("func")))
    if inv is not None:
        n = loop_number(eng, s)
        if n is not None and n < len(inv) and inv[n] is not None:
            return invariant_loop(eng, s, st, it, inv[n])
    conc = eng.try_concrete(it, limit=64)
    if conc is not None and len(conc) <= UNROLL:
        return unroll(eng, s, conc, st)
    seq = eng.to_seq(it)
    names = assigned(s.body) + [n for n in target_names(s.target)]
    mark = (len(eng.obls), eng.nbuf)
    try:
        return loop_levels(eng, s, seq, st, names)
    except Unsupported as e:
        if conc is not None and eng.loop_depth <= 2:
            del eng.obls[mark[0]:]
            return unroll(eng, s, conc, st.copy())
        raise


def unroll(eng, s, elems, st):
    base, fbase = len(st.path), len(st.facts)
    outs, breaks = [], []
    active = st
    for x in elems:
        eng.st = active
        eng.assign(s.target, x)
        b1, f1 = len(eng.st.path), len(eng.st.facts)
        res = eng.block(s.body, eng.st)
        nx = [x[1] for x in res if x[0] in ("next", "cont")]
        breaks += [x[1] for x in res if x[0] == "break"]
        outs += [x for x in res if x[0] in ("ret", "raise")]
        if not nx:
            active = None
            break
        active = nx[0] if len(nx) == 1 else eng.merge_states(b1, f1, [(y, None) for y in nx])[0]
    fin = breaks + ([active] if active is not None else [])
    if fin:
        m = fin[0] if len(fin) == 1 else eng.merge_states(base, fbase, [(y, None) for y in fin])[0]
        outs.append(("next", m, None))
    return outs


def loop_levels(eng, s, seq, st, names):
    """nested rounds over the levels of the sequence"""
    levels = seq.levels

    def run(n, ks, st):
        lo, hi = levels[n]
        last = n == len(levels) - 1

        def step(k, st1):
            eng.st = st1
            if not last:
                return run(n + 1, ks + (k,), st1)
            kk = ks + (k,)
            g = T.lit(seq.guard(*kk))
            g = eng.decide(g) if eng.decide(g) is not None else g
            if g is False:
                return [("next", st1, None)]
            if g is True:
                eng.assign(s.target, seq.elem(*kk))
                return eng.block(s.body, eng.st)
            s2 = st1.copy()
            s1 = st1.copy()
            b, fb = len(st1.path), len(st1.facts)
            s1.path += (T.to_z3(g),)
            s2.path += (z3.Not(T.to_z3(g)),)
            eng.st = s1
            eng.assign(s.target, seq.elem(*kk))
            outs = eng.block(s.body, eng.st)
            nx = [o[1] for o in outs if o[0] in ("next", "cont")]
            rest = [o for o in outs if o[0] not in ("next", "cont")]
            m = eng.merge_states(b, fb, [(x, None) for x in nx + [s2]])[0]
            return rest + [("next", m, None)]
        return summarise(eng, st, lo, hi, step, names)
    return run(0, (), st)


def quick(hyps, c, ms=300):
    """is c unsatisfiable together with the quantifier-free hypotheses"""
    s = z3.Solver()
    s.set("timeout", T.patient(ms))
    for h in hyps:
        if not T.contains_bind(h):
            s.add(h)
    s.add(T.to_z3(c))
    if s.check() == z3.unsat:
        return True
    from pyvc.prove import relevant
    quantified = [h for h in hyps if z3.is_quantifier(h) and h.is_forall() and not T.collect(h.body(), lambda x: T.is_bind(x) or z3.is_quantifier(x))]
    quantified = relevant(quantified, [T.to_z3(c)], [])
    if not quantified:
        return False
    for h in quantified:
        s.add(h)
    return s.check() == z3.unsat


class Unit:
    """one variable or array changed by the loop"""

    def __init__(self, name, sort, arity, init, kind):
        self.name, self.arity, self.init, self.kind = name, arity, init, kind
        nm = T.fresh_name("at_" + name)
        if arity:
            self.decl = z3.Function(nm, *([z3.IntSort()] * arity + [sort]))
            self.here = lambda *i: self.decl(*[T.to_z3(x) for x in i])
        else:
            c = z3.Const(nm, sort)
            self.decl = c.decl()
            self.here = lambda *i: c
        self.id = self.decl.get_id()
        self.term = None
        self.ks = []
        self.closed = None      # function (round, *idx) -> term at the start of the round
        self.defined = None     # for variables that were undefined before: (round) -> condition


def summarise(eng, st, lo, hi, step, names):
    lo, hi = T.lit(T.num(lo)), T.lit(T.num(hi))
    if isinstance(lo, int) and isinstance(hi, int) and hi <= lo:
        return [("next", st, None)]
    base, fbase = len(st.path), len(st.facts)
    base_vars, base_heap = dict(st.vars), dict(st.heap)
    k = T.fresh_int("it")
    kinds, bufs = {}, set()
    eng.loop_depth += 1
    try:
        for attempt in range(8):
            nob, nbuf0 = len(eng.obls), eng.nbuf
            units = {}
            s = State(dict(base_vars), dict(base_heap), st.path, st.facts)
            for n in names:
                v = base_vars.get(n, UNDEF)
                if isinstance(v, Arr) and v.ndim == 0:
                    v = eng.read(v, ())
                if scal(v):
                    v = T.num(v)
                    kd = kinds.get(n, kind_of(v))
                    init = T.real(v) if kd == "r" else v
                    u = Unit(n, SORT[kd](), 0, lambda init=init: init, kd)
                    units[("v", n)] = u
                    s.vars[n] = u.here()
                elif v is UNDEF:
                    pass
                else:
                    s.vars[n] = Poison("%s is bound again in a loop" % n)
            for b in bufs:
                B = eng.bufs[b]
                u = Unit(B.name, SORT[B.kind](), len(B.shape), base_heap[b], B.kind)
                units[("b", b)] = u
                s.heap[b] = memo(u.here)
            start_heap = dict(s.heap)
            s.path += tuple(T.to_z3(x) for x in (T.cmp("<=", lo, k), T.cmp("<", k, hi)) if T.lit(x) is not True)
            pb = len(s.path)
            # facts about unknown values of the int32 arrays
            outs = step(k, s)
            nx = [o[1] for o in outs if o[0] in ("next", "cont")]
            br = [o[1] for o in outs if o[0] == "break"]
            rt = [o for o in outs if o[0] == "ret"]
            for o in outs:
                if o[0] == "raise":
                    cur, eng.st = eng.st, o[1]
                    eng.oblige("no exception raised", False)
                    eng.st = cur
            if not nx:
                raise Unsupported("a loop that always ends in its first round")
            n1 = nx[0] if len(nx) == 1 else eng.merge_states(pb, fbase, [(y, None) for y in nx])[0]
            bstate = None
            if br:
                bstate = br[0] if len(br) == 1 else None
                bconds = [eng.path_cond(x, pb) for x in br]
                bcond = T.Or(*bconds)
                if bstate is None:
                    bstate = eng.merge_states(pb, fbase, [(y, None) for y in br])[0]
            ends = [n1] + ([bstate] if bstate else []) + [o[1] for o in rt]
            changed = {b for e in ends for b in base_heap if e.heap.get(b) is not start_heap[b]}
            again = False
            if changed - bufs:
                bufs |= changed
                again = True
            for e in ends:
                for n in names:
                    u = units.get(("v", n))
                    x = e.vars.get(n)
                    x = x.val if isinstance(x, Maybe) else x
                    if isinstance(x, Arr) and x.ndim == 0:
                        x = e.heap[x.buf.id](*x.bidx(()))
                    if u is not None and scal(x) and kind_of(x) != u.kind:
                        new = "r" if "r" in (kind_of(x), u.kind) else "i"
                        if u.kind != new:
                            kinds[n] = new
                            again = True
            if not again:
                break
            del eng.obls[nob:]
        else:
            raise Unsupported("a loop that keeps changing more")
    finally:
        eng.loop_depth -= 1
    kvar = k
    hyps = list(s.path[:pb]) + list(st.facts)
    # ---- terms of one round
    temps = {}
    for (t, n), u in list(units.items()):
        if t == "v":
            x = n1.vars.get(n, UNDEF)
            if isinstance(x, Arr) and x.ndim == 0:
                x = n1.heap[x.buf.id](*x.bidx(()))
            if not scal(x):
                if isinstance(x, Maybe):
                    raise Unsupported("variable %s defined on some paths" % n)
                temps[n] = x
                u.term = None
                continue
            x = T.real(x) if u.kind == "r" else T.arith(x) if u.kind == "i" else x
            u.term = T.to_z3(x)
        else:
            u.ks = [z3.Int(T.fresh_name("ix")) for _ in range(u.arity)]
            u.term = T.to_z3(n1.heap[n](*u.ks))
    for n in names:
        if ("v", n) not in units:
            temps[n] = n1.vars.get(n, UNDEF)
    table = {}
    ids = {u.id for u in units.values()}
    for key in [key for key, u in units.items() if u.term is None]:
        u = units.pop(key)
        table[u.id] = lambda *i: (_ for _ in ()).throw(Unsupported("value of a variable bound to an array"))
    # ---- unchanged ones
    todo = dict(units)
    for key, u in list(todo.items()):
        if u.term.eq(u.here(*u.ks)):
            u.closed = lambda r, *i, u=u: u.init(*i)
            table[u.id] = lambda *i, u=u: T.to_z3(u.init(*i))
            todo.pop(key)
            u.same = True
        else:
            u.same = False
    rw = T.Rewriter(table)
    while todo:
        progress = False
        for key, u in list(todo.items()):
            rw.memo.clear()
            t = rw(u.term)
            others = {x.id for q, x in todo.items() if q != key}
            if others and T.contains_any(t, others):
                continue
            c = classify(eng, u, t, k, lo, hi, hyps, rw)
            if c is None:
                continue
            u.closed = c
            table[u.id] = lambda *i, u=u: T.to_z3(u.closed(kvar, *i))
            todo.pop(key)
            progress = True
        if not progress:
            raise Unsupported("recurrence of %s" % ", ".join(u.name for u in todo.values()))
    rw.memo.clear()
    # ---- early end
    J = None
    exits = []
    cexit = False
    if bstate is not None:
        cexit = T.Or(cexit, bcond)
    for o in rt:
        cexit = T.Or(cexit, eng.path_cond(o[1], pb))
    if T.lit(cexit) is not False:
        ct = T.to_z3(rw(T.to_z3(cexit)))
        J = T.First(lo, hi, lambda j: z3.substitute(ct, (k, T.to_z3(j))))
    # ---- obligations inside
    for ob in eng.obls[nob:]:
        ob.hyps = [rw(T.to_z3(h)) for h in ob.hyps]
        if J is not None:
            ob.hyps.append(k <= J)
        g = ob.goal
        ob.goal = T.lit(rw(T.to_z3(g)))
    facts = list(st.facts)
    for f in n1.facts[fbase:]:
        f = rw(f)
        f = T.to_z3(T.Implies(T.And(T.cmp("<=", lo, k), T.cmp("<", k, hi)), f))
        facts.append(z3.ForAll([k], f) if T.contains(f, k) else f)

    def final(s1, temps_state, at, defcond, closed_at):
        """state after the loop: units at `closed_at`, temporaries of round `at`"""
        out = State(dict(base_vars), dict(base_heap), st.path, tuple(facts))
        for (t, n), u in units.items():
            if t == "b":
                if not u.same:
                    out.heap[n] = memo(lambda *i, u=u: T.lit(u.closed(closed_at, *i)))
            else:
                out.vars[n] = T.lit(u.closed(closed_at))
        sub = lambda x: T.lit(z3.substitute(rw(T.to_z3(x)), (k, T.to_z3(at)))) if T.is_z3(x) else x
        for n, x in temps.items():
            out.vars[n] = inst_temp(eng, n, x, n1, nbuf0, sub, base_vars.get(n, UNDEF), defcond, rw, k, lo, closed_at, out)
        return out
    nonempty = T.cmp("<", lo, hi)
    if eng.decide(nonempty) is True:
        nonempty = True
    if J is None:
        hi2 = hi if nonempty is True or eng.decide(T.cmp("<=", lo, hi)) is True else hi
        out = final(n1, n1, T.sub(hi, 1), nonempty, hi2)
        eng.st = out
        return [("next", out, None)]
    res = []
    early = J < T.to_z3(hi)
    nout = final(n1, n1, T.sub(hi, 1), nonempty, hi)
    nout.path += (z3.Not(early),)
    sts = [(nout, None)]

    def at_exit(s1, cond):
        o = State(dict(base_vars), dict(base_heap), st.path, tuple(facts))
        o.path += (T.to_z3(T.And(early, z3.substitute(rw(T.to_z3(cond)), (k, J)))),)
        sub = lambda x: T.lit(z3.substitute(rw(T.to_z3(x)), (k, J))) if T.is_z3(x) else x
        for (t, n), u in units.items():
            if t == "b":
                c = s1.heap[n]
                o.heap[n] = memo(lambda *i, c=c: at_content(c, i, sub))
            else:
                x = s1.vars.get(n, UNDEF)
                o.vars[n] = sub(x) if scal(x) else Poison("left by an early exit")
        for n in temps:
            x = s1.vars.get(n, UNDEF)
            o.vars[n] = inst_temp(eng, n, x, s1, nbuf0, sub, base_vars.get(n, UNDEF), True, rw, k, lo, J, o, exact=True)
        return o, sub
    if bstate is not None:
        sts.append((at_exit(bstate, bcond)[0], None))
    for o in rt:
        es, sub = at_exit(o[1], eng.path_cond(o[1], pb))
        res.append(("ret", es, inst_value(eng, o[2], o[1], nbuf0, sub, es)))
    m = sts[0][0] if len(sts) == 1 else eng.merge_states(base, len(facts), sts)[0]
    eng.st = m
    res.append(("next", m, None))
    return res


def at_content(c, idx, sub):
    ks = [z3.Int(T.fresh_name("ax")) for _ in idx]
    t = c(*ks)
    if not T.is_z3(t):
        return t
    t = sub(t)
    if not T.is_z3(t):
        return t
    return T.lit(fold(z3.substitute(t, *[(a, T.to_z3(b)) for a, b in zip(ks, idx)])))


def inst_value(eng, v, s1, nbuf0, sub, out):
    if v is None or isinstance(v, (str, Opaque)):
        return v
    if scal(v):
        return sub(v)
    if isinstance(v, (tuple, list)):
        return type(v)(inst_value(eng, x, s1, nbuf0, sub, out) for x in v)
    if isinstance(v, Arr):
        if v.buf.id <= nbuf0:
            axes = [("f", sub(a[1])) if a[0] == "f" else ("v", a[1], sub(a[2]), a[3]) for a in v.axes]
            return Arr(v.buf, axes, [sub(x) for x in v.shape])
        c = s1.heap[v.buf.id]
        rd = lambda *i: c(*v.bidx(i))
        cur, eng.st = eng.st, out
        a = eng.alloc([sub(x) for x in v.shape], v.kind, memo(lambda *i: at_content(rd, i, sub)), "temp")
        eng.st = cur
        return a
    return Poison("value of the last round")


def inst_temp(eng, n, x, s1, nbuf0, sub, before, defcond, rw, k, lo, closed_at, out, exact=False):
    """a variable always set before it is used in the body: its value after the loop"""
    if x is UNDEF:
        return before
    if isinstance(x, Poison):
        return x
    cond = True
    if isinstance(x, Maybe):
        if before is not UNDEF:
            return Poison("%s after the loop" % n)
        if exact:
            return Maybe(sub(T.to_z3(x.cond)), inst_value(eng, x.val, s1, nbuf0, sub, out))
        c = T.to_z3(rw(T.to_z3(x.cond)))
        if not scal(x.val):
            return Poison("%s after the loop" % n)
        j = T.Last(lo, closed_at, lambda j: z3.substitute(c, (k, T.to_z3(j))))
        v = rw(T.to_z3(x.val))
        return Maybe(T.cmp(">=", j, lo), T.lit(z3.substitute(v, (k, T.to_z3(j)))))
    v = inst_value(eng, x, s1, nbuf0, sub, out)
    if isinstance(v, Poison):
        return v
    if defcond is True:
        return v
    if before is UNDEF:
        return Maybe(defcond, v)
    if scal(v) and scal(before):
        return T.ite(defcond, v, before)
    return Poison("%s after the loop" % n)


# ---------------------------------------------------------------- recurrences
class NoForm(Exception):
    pass


def classify(eng, u, t, k, lo, hi, hyps, rw):
    """closed form of the recurrence u' = t(k, u), or None"""
    idx = u.ks
    here = u.here(*idx)
    zero = T.to_z3(0 if u.kind in ("i", "i32") else Fraction(0)) if u.kind != "b" else None
    ids = {u.id}
    has = lambda x: T.is_z3(x) and T.contains_any(x, ids)

    if u.kind == "i32":
        t2 = strip_wrap(t)
    # running maximum or minimum
    if not idx:
        m = max_form(u, t, has)
        if m is not None:
            big, v, g = m
            kk = k

            def vat(j):
                return z3.substitute(v, (kk, T.to_z3(j)))

            def closed(r):
                init = u.init()
                sgn = (lambda x: x) if big else T.neg
                mx = sgn(T.Max(lo, r, lambda j: sgn(vat(j))))
                return T.ite(T.cmp("<", lo, r), T.zmax(init, mx) if big else T.zmin(init, mx), init)
            return closed

    # over-approximate write condition
    def wc(x, path):
        if x.eq(here):
            return False
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c, a, b = x.children()
            ca, cb = wc(a, path), wc(b, path)
            if has(c):
                return T.Or(ca, cb)
            return T.Or(T.And(c, ca), T.And(z3.Not(c), cb))
        return True
    W = wc(t, ())

    def resolve(x, path):
        """reads of cells no earlier round has written take their initial value"""
        if not has(x):
            return x
        apps = T.collect(x, lambda y: z3.is_app(y) and y.decl().get_id() == u.id)
        pairs = []
        for a in apps:
            if T.has_free_var(a):
                raise NoForm()
            e = [a.arg(i) for i in range(a.num_args())]
            if any(has(y) for y in e):
                raise NoForm()
            j = T.fresh_int("j")
            w = T.to_z3(W) if not isinstance(W, bool) else z3.BoolVal(W)
            w = z3.substitute(w, (k, j), *zip(idx, e)) if idx else z3.substitute(w, (k, j))
            if not quick(list(hyps) + list(path), z3.And(T.to_z3(T.cmp("<=", lo, j)), j < k, w)):
                raise NoForm()
            pairs.append((a, T.to_z3(u.init(*e))))
        r = z3.substitute(x, *pairs)
        if has(r):
            raise NoForm()
        return r

    def selfref(a, path):
        if a.eq(here):
            return True
        if not idx:
            return False
        e = [a.arg(i) for i in range(a.num_args())]
        if any(has(y) for y in e):
            return False
        return quick(list(hyps) + list(path), z3.Not(z3.And(*[p == q for p, q in zip(e, idx)])))

    def walk(x, path):
        """-> (set condition, set value or None, increment)"""
        if not has(x):
            return True, x, None
        if z3.is_app(x) and x.decl().get_id() == u.id and selfref(x, path):
            return False, None, None
        kd = x.decl().kind() if z3.is_app(x) else None
        if kd == z3.Z3_OP_ITE:
            c, a, b = x.children()
            c = resolve(c, path)
            ra, rb = walk(a, path + (c,)), walk(b, path + (z3.Not(c),))
            sc = T.And(*[]) if False else T.Or(T.And(c, ra[0]), T.And(z3.Not(c), rb[0]))
            sc = T.lit(sc)
            sv = ra[1] if rb[1] is None else rb[1] if ra[1] is None else T.to_z3(T.ite(c, ra[1], rb[1]))
            if ra[2] is None and rb[2] is None:
                d = None
            else:
                d = T.to_z3(T.ite(c, ra[2] if ra[2] is not None else zero, rb[2] if rb[2] is not None else zero))
            return sc, sv, d
        if u.kind in ("r", "i") and kd == z3.Z3_OP_ADD:
            ch = x.children()
            w = [c for c in ch if has(c)]
            # one addend carries the old value, the others may read unwritten cells
            for pick in range(len(ch)):
                if not has(ch[pick]):
                    continue
                try:
                    rest = 0
                    for n, c in enumerate(ch):
                        if n != pick:
                            rest = T.add(rest, resolve(c, path))
                    r = walk(ch[pick], path)
                    if r[0] is True and r[2] is None:
                        continue
                    break
                except NoForm:
                    continue
            else:
                return True, resolve(x, path), None
            rest = T.to_z3(rest)
            return r[0], (None if r[1] is None else T.to_z3(T.add(r[1], rest))), \
                T.to_z3(T.add(r[2], rest)) if r[2] is not None else rest
        if u.kind in ("r", "i") and kd == z3.Z3_OP_SUB and x.num_args() == 2 and has(x.arg(0)):
            try:
                rest = resolve(x.arg(1), path)
                r = walk(x.arg(0), path)
                if not (r[0] is True and r[2] is None):
                    return r[0], (None if r[1] is None else T.to_z3(T.sub(r[1], rest))), \
                        T.to_z3(T.sub(r[2] if r[2] is not None else zero, rest))
            except NoForm:
                pass
            return True, resolve(x, path), None
        if u.kind == "b" and kd in (z3.Z3_OP_OR, z3.Z3_OP_AND):
            ch = x.children()
            keep = [c for c in ch if z3.is_app(c) and c.decl().get_id() == u.id and selfref(c, path)]
            rest = [resolve(c, path) for c in ch if c not in keep] if keep else None
            if keep:
                if kd == z3.Z3_OP_OR:
                    return T.Or(*rest), z3.BoolVal(True), None
                return T.Not(T.And(*rest)), z3.BoolVal(False), None
        return True, resolve(x, path), None

    try:
        sc, sv, d = walk(t, ())
    except NoForm:
        return None
    sc = T.lit(sc)

    def at(x, j, i):
        if not T.is_z3(x):
            return x
        return T.lit(fold(z3.substitute(x, (k, T.to_z3(j)), *[(a, T.to_z3(b)) for a, b in zip(idx, i)])))

    if d is not None and T.is_z3(d) and (z3.is_int_value(d) or z3.is_rational_value(d)) and T.lit(d) == 0:
        d = None
    if sc is False or sv is None:
        if d is None:
            return lambda r, *i: u.init(*i)
        return lambda r, *i: T.add(u.init(*i), sum_closed(lo, r, lambda j: at(d, j, i)))
    if d is None:
        if sc is True:
            return lambda r, *i: T.ite(T.cmp("<", lo, r), at(sv, T.sub(r, 1), i), u.init(*i))

        def closed(r, *i):
            return last_value(lo, r, lambda j: at(sc, j, i), lambda j: at(sv, j, i), lambda: u.init(*i))
        return closed

    def closed(r, *i):
        L = T.Last(lo, r, lambda j: at(sc, j, i))
        inc = lambda a: sum_closed(a, r, lambda j: at(d, j, i))
        # increments after the last reset
        return T.ite(T.cmp(">=", L, lo), T.add(at(sv, L, i), inc(T.add(L, 1))), T.add(u.init(*i), inc(lo)))
    return closed


def tidy_indices(t):
    """indices without sums that cancel, comparisons of literals and c-or-not-c decided"""
    if not T.is_z3(t) or not z3.is_app(t) or not t.num_args() or T.is_bind(t):
        return t
    ch = [T.to_z3(tidy_indices(c)) for c in t.children()]
    kd = t.decl().kind()
    if kd == z3.Z3_OP_UNINTERPRETED:
        ch = [cancel(c) if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) else c for c in ch]
    elif kd in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and all(z3.is_int_value(c) for c in ch):
        return z3.simplify(t.decl()(*ch))
    elif kd == z3.Z3_OP_NOT:
        return T.to_z3(T.Not(ch[0]))
    elif kd == z3.Z3_OP_OR and any(z3.is_not(c) and c.arg(0).eq(d) for c in ch for d in ch):
        return z3.BoolVal(True)
    if kd in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR) or any(not a.eq(b) for a, b in zip(ch, t.children())):
        return T.to_z3(T.rebuild(t, ch))
    return t


def cancel(t):
    """a sum of integers, simplified around its bound terms and reads"""
    out = T.collect(t, lambda x: T.is_bind(x) or z3.is_app(x) and x.num_args() and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ITE))
    names = [(a, z3.Const("out!%d" % i, a.sort())) for i, a in enumerate(out)]
    return z3.substitute(z3.simplify(z3.substitute(t, *names)), *[(b, a) for a, b in names])


def last_value(lo, hi, cond, val, init):
    llo, lhi = T.lit(T.num(lo)), T.lit(T.num(hi))
    if T.is_z3(llo):
        n = T.lit(z3.simplify(T.to_z3(T.sub(hi, lo))))
        back = lambda f: lambda j: T.lit(tidy_indices(T.to_z3(f(T.add(lo, j)))))
        return last_value(0, n, back(cond), back(val), init)
    if isinstance(llo, int) and isinstance(lhi, int) and lhi - llo <= 8:
        r = init()
        for j in range(llo, lhi):
            c = T.lit(cond(j))
            r = val(j) if c is True else r if c is False else T.ite(c, val(j), r)
        return r
    k = T.fresh_int("w")
    c = T.lit(cond(k))
    if c is False:
        return init()
    if c is True:
        return T.ite(T.cmp("<", lo, hi), val(T.sub(hi, 1)), init())
    # alternatives that pin the round
    e = T.pinned(c, k)
    if e is not None:
        e = T.lit(e)
        g = T.And(T.cmp("<=", lo, e), T.cmp("<", e, hi), T.subst_true(c, k, e))
        return T.ite(g, val(e), init())
    j = T.Last(lo, hi, cond)
    return T.ite(T.cmp(">=", j, lo), val(j), init())


def sum_closed(lo, hi, f):
    llo, lhi = T.lit(T.num(lo)), T.lit(T.num(hi))
    if isinstance(llo, int) and isinstance(lhi, int) and lhi - llo <= 12:
        r = 0
        for j in range(llo, lhi):
            r = T.add(r, f(j))
        return r
    k = T.fresh_int("s")
    body = f(k)
    if T.is_z3(body) and z3.is_app_of(body, z3.Z3_OP_ITE) and T.is_zero(body.arg(2)):
        e = T.pinned(body.arg(0), k)
        if e is not None:
            e = T.lit(e)
            g = T.And(T.cmp("<=", lo, e), T.cmp("<", e, hi), T.subst_true(body.arg(0), k, e))
            return T.ite(g, z3.substitute(body.arg(1), (k, T.to_z3(e))), 0 if z3.is_int(body) else Fraction(0))
    if not T.is_z3(body):
        return T.mul(T.ite(T.cmp("<", lo, hi), T.sub(hi, lo), 0), body)
    return T.mk_sum(lo, hi, k, body)


def strip_wrap(t):
    return t


def max_form(u, t, has):
    """u' = max(u, v): ite(v > u, v, u) and its variants -> (is maximum, v, guard)"""
    if not z3.is_app_of(t, z3.Z3_OP_ITE) or u.kind == "b":
        return None
    c, a, b = t.children()
    here = u.here()
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if neg:
        a, b = b, a
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    kd = c.decl().kind()
    ops = {z3.Z3_OP_LE: "<", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">", z3.Z3_OP_GT: ">"}
    if kd not in ops:
        return None
    op = ops[kd]
    l, r = c.arg(0), c.arg(1)
    if l.eq(here) and not has(r):
        v = r
        op = {"<": ">", ">": "<"}[op]      # now: v op u
    elif r.eq(here) and not has(l):
        v = l
    else:
        return None
    if a.eq(v) and b.eq(here):
        return op == ">", v, None
    if a.eq(here) and b.eq(v):
        return op == "<", v, None
    return None


# ---------------------------------------------------------------- invariants
def invariant_loop(eng, s, st, it, inv):
    seq = eng.to_seq(it)
    if len(seq.levels) != 1 or T.lit(seq.guard(T.fresh_int("g"))) is not True:
        raise Unsupported("invariant of a nested sequence")
    lo, hi = seq.levels[0]
    names = assigned(s.body) + target_names(s.target)
    from pyvc.dsl import NS
    o = eng.args_ns

    def clauses(state, k):
        v = {}
        cur, eng.st = eng.st, state
        for n, x in state.vars.items():
            x = x.val if isinstance(x, Maybe) else x
            if isinstance(x, Arr) or scal(x):
                v[n] = eng.ns_value(x)
        out = inv(o, NS(v), k)
        eng.st = cur
        return out
    # start
    eng.st = st
    for name, f in clauses(st, lo):
        eng.oblige("invariant at the start: " + name, f, "inv")
    k = T.fresh_int("round")
    bufs = forgotten(eng, st)
    for attempt in range(6):
        nob = len(eng.obls)
        h = havoc(eng, st, names, bufs)
        h.path += tuple(T.to_z3(x) for x in (T.cmp("<=", lo, k), T.cmp("<", k, hi)) if T.lit(x) is not True)
        start_heap = dict(h.heap)
        h.facts += tuple(T.to_z3(f) for _, f in clauses(h, k) if T.lit(f) is not True)
        eng.st = h
        eng.loop_depth += 1
        round0, eng.loop_round = eng.loop_round, k
        eng.assign(s.target, seq.elem(k))
        outs = eng.block(s.body, eng.st)
        eng.loop_depth -= 1
        eng.loop_round = round0
        if any(x[0] not in ("next", "cont") for x in outs):
            raise Unsupported("early exit of a loop with invariants")
        changed = {b for _, s1, _ in outs for b in st.heap if s1.heap[b] is not start_heap[b]}
        if changed <= bufs:
            break
        bufs |= changed
        del eng.obls[nob:]
    else:
        raise Unsupported("a loop that keeps changing more")
    for _, s1, _ in outs:
        eng.st = s1
        for name, f in clauses(s1, T.add(k, 1)):
            eng.oblige("invariant kept: " + name, f, "inv")
    end = havoc(eng, st, names, bufs)
    fin = T.zmax(lo, hi) if eng.decide(T.cmp("<=", lo, hi)) is not True else hi
    end.facts += tuple(T.to_z3(f) for _, f in clauses(end, fin) if T.lit(f) is not True)
    eng.st = end
    return [("next", end, None)]


def forgotten(eng, st):
    """arrays of which the contract wants nothing known in the loop but its invariant"""
    return {x.buf.id for x in (st.vars.get(n) for n in eng.forget) if isinstance(x, Arr)}


def havoc(eng, st, names, bufs):
    h = st.copy()
    for n in names:
        v = st.vars.get(n, UNDEF)
        if scal(v):
            h.vars[n] = z3.Const(T.fresh_name("inv_" + n), SORT[kind_of(v)]())
        elif isinstance(v, Opaque):
            pass
        elif v is not UNDEF:
            h.vars[n] = Poison("%s is bound again in a loop" % n)
    for b in bufs:
        B = eng.bufs[b]
        if B.shape:
            d = z3.Function(T.fresh_name("inv_" + B.name), *([z3.IntSort()] * len(B.shape) + [SORT[B.kind]()]))
            h.heap[b] = memo(lambda *i, d=d: d(*[T.to_z3(x) for x in i]))
        else:
            c = z3.Const(T.fresh_name("inv_" + B.name), SORT[B.kind]())
            h.heap[b] = lambda c=c: c
    return h


def state_vars(eng, state):
    from pyvc.dsl import NS
    v = {}
    cur, eng.st = eng.st, state
    for n, x in state.vars.items():
        x = x.val if isinstance(x, Maybe) else x
        if isinstance(x, Arr) or scal(x):
            v[n] = eng.ns_value(x)
    eng.st = cur
    return NS(v)


def clauses_at(eng, inv, state, k):
    v = state_vars(eng, state)
    E = eng.spec_env
    g = E.ghost if E is not None else None
    if E is not None and eng.ghost is not None:
        E.ghost = eng.ghost
    try:
        return inv(eng.args_ns, v, k)
    finally:
        if E is not None:
            E.ghost = g


def fresh_ghost(eng):
    """the ghost state at the head of a loop that changes it"""
    from pyvc.dsl import NS
    E, out = eng.spec_env, {}
    for k, v in eng.ghost.__dict__.items():
        if T.is_z3(v) or scal(v):
            out[k] = z3.Int(T.fresh_name("inv_ghost_" + k)) if T.is_int(v) else z3.Real(T.fresh_name("inv_ghost_" + k))
    for k, v in eng.ghost.__dict__.items():
        if k not in out:
            out[k] = E.arr(T.fresh_name("inv_ghost_" + k), (out["n"],), v.kind)
    return NS(out)


def while_loop(eng, s, st):
    """while with a contract invariant over the number k of completed rounds; the clause named
    `bound` gives what k stays below while the loop goes on (termination); a contract with
    `ends = False` says nothing about termination"""
    inv = eng.invariants.get((eng.frames[-1]["file"], eng.frames[-1].get("func")))
    n = loop_number(eng, s)
    if inv is None or n is None or n >= len(inv) or inv[n] is None or s.orelse:
        return while_unrolled(eng, s, st)
    inv = inv[n]
    split = lambda cl: ([(a, f) for a, f in cl if a != "bound"], [f for a, f in cl if a == "bound"])
    names = assigned(s.body)
    eng.st = st
    for name, f in split(clauses_at(eng, inv, st, 0))[0]:
        eng.oblige("invariant at the start: " + name, f, "inv")
    k = T.fresh_int("round")
    bufs = forgotten(eng, st)
    ghost0, moved, head0 = eng.ghost, False, eng.loop_head
    marks = (len(eng.trace), {c: len(x) for c, x in eng.calls.items()})
    for attempt in range(6):
        nob = len(eng.obls)
        del eng.trace[marks[0]:]
        for c, x in eng.calls.items():
            del x[marks[1].get(c, 0):]
        eng.ghost = fresh_ghost(eng) if moved else ghost0
        ghost1 = eng.ghost
        h = havoc(eng, st, names, bufs)
        h.path += (k >= 0,)
        start_heap = dict(h.heap)
        cl, bound = split(clauses_at(eng, inv, h, k))
        h.facts += tuple(T.to_z3(f) for _, f in cl if T.lit(f) is not True)
        eng.loop_head = state_vars(eng, h)
        eng.st = h
        c = T.lit(eng.truth(eng.ev(s.test)))
        h = eng.st
        stop, go = h.copy(), h.copy()
        if c is not True:
            stop.path += (z3.Not(T.to_z3(c)),)
            go.path += (T.to_z3(c),)
        eng.st = go
        if bound:
            eng.oblige("the loop ends", T.cmp("<", k, bound[0]), "inv")
        elif eng.must_end:
            raise Unsupported("while loop without a bound")
        eng.loop_depth += 1
        eng.inv_depth += 1
        try:
            outs = eng.block(s.body, go)
        finally:
            eng.loop_depth -= 1
            eng.inv_depth -= 1
        changed = set()
        for kind, s1, _ in outs:
            if kind in ("next", "cont"):
                changed |= {b for b in st.heap if s1.heap[b] is not start_heap[b]}
        if changed <= bufs and (moved or eng.ghost is ghost1):
            break
        moved = moved or eng.ghost is not ghost1
        bufs |= changed
        del eng.obls[nob:]
    else:
        raise Unsupported("a loop that keeps changing more")
    eng.loop_head = head0
    res = [("next", stop, None)] if c is not True else []
    nexts = [s1 for kind, s1, v in outs if kind in ("next", "cont")]
    if moved and (len(nexts) > 1 or c is not True or any(x[0] == "break" for x in outs)):
        raise Unsupported("ghost state changed on one of several paths of a loop")
    for kind, s1, v in outs:
        if kind in ("next", "cont"):
            eng.st = s1
            for name, f in split(clauses_at(eng, inv, s1, T.add(k, 1)))[0]:
                eng.oblige("invariant kept: " + name, f, "inv")
        elif kind == "break":
            res.append(("next", s1, None))
        else:
            res.append((kind, s1, v))
    eng.ghost = ghost1
    nx = [x for x in res if x[0] == "next"]
    if len(nx) > 1:
        m, _ = eng.merge_states(len(st.path), len(st.facts), [(x[1], None) for x in nx])
        res = [x for x in res if x[0] != "next"] + [("next", m, None)]
    return res


def while_unrolled(eng, s, st):
    raise Unsupported("while loop")
