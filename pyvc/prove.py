"""Discharging one obligation: hypotheses |- goal.

The goal is skolemised and split; sums are put into normal form; the remaining bound
terms (sums, first/last index, arg-max) become constants with their defining facts,
and terms of the same kind whose bodies are provably equal are identified.  Then z3,
then cvc5.  `proved` means a solver answered unsat for the negation; `refuted` means a
model exists in which nothing was abstracted; everything else is `unknown`."""
import itertools
import os
import re
import shutil
import subprocess
import tempfile
import time

import z3

from pyvc import terms as T
from pyvc.terms import patient

UNINT = ("Lcg", "Sqrt", "RngU", "Inv", "Invertible")
CVC5 = shutil.which("cvc5")


class Result:
    def __init__(self, status, backend="", detail="", model=None):
        self.status, self.backend, self.detail, self.model = status, backend, detail, model


def is_lambda_term(t):
    return z3.is_quantifier(t)


class Prover:
    def __init__(self, deadline=None, z3_ms=6000, use_cvc5=True):
        self.deadline = deadline
        self.z3_ms = z3_ms
        self.use_cvc5 = use_cvc5
        self.norm = T.Normaliser()
        self.stats = {"z3": 0.0, "cvc5": 0.0}
        self.pair_memo = {}
        self.depth = 0
        self.dims = []

    def left(self):
        return 1e9 if self.deadline is None else self.deadline - time.time()

    # ------------------------------------------------------------ entry
    def prove(self, hyps, goal):
        goal = T.lit(goal)
        if goal is True:
            return Result("proved", "simplifier")
        hyps = [T.to_z3(h) for h in hyps if T.lit(h) is not True]
        if any(T.lit(h) is False for h in hyps):
            return Result("proved", "simplifier")
        if goal is False:
            goal = z3.BoolVal(False)
        hyps = self.open_hyps(hyps)
        if self.depth == 0 and self.syntactic(hyps, T.to_z3(goal)):
            return Result("proved", "z3")
        worst = None
        backends = set()
        for hs, g in self.split(hyps, goal, 0):
            if self.left() < 0:
                return Result("unknown", "", "time limit")
            r = self.leaf(hs, g)
            if r.status == "proved":
                backends.add(r.backend)
                continue
            if worst is None or r.status == "refuted":
                worst = r
            if r.status == "refuted":
                break
            if worst.status != "refuted":
                break
        if worst is not None:
            return worst
        backends.discard("simplifier")
        return Result("proved", "+".join(sorted(backends)) or "simplifier")

    def open_hyps(self, hyps):
        out = []
        stack = list(reversed(hyps))
        while stack:
            h = stack.pop()
            if z3.is_and(h):
                stack.extend(reversed(h.children()))
                continue
            neg = z3.is_not(h)
            q = h.arg(0) if neg else h
            if z3.is_quantifier(q) and not q.is_lambda() and (q.is_exists() != neg):
                ks = [z3.Const(T.fresh_name("sk"), q.var_sort(i)) for i in range(q.num_vars())]
                b = z3.substitute_vars(q.body(), *reversed(ks))
                stack.append(z3.Not(b) if neg else b)
                continue
            if neg and z3.is_or(q):
                stack.extend(negate(c) for c in q.children())
                continue
            if neg and z3.is_not(q):
                stack.append(q.arg(0))
                continue
            if z3.is_or(h):
                # what holds under a condition, for all x: for all x, under the condition
                qs = [c for c in h.children() if z3.is_quantifier(c) and not c.is_lambda() and c.is_forall()]
                ands = [c for c in h.children() if z3.is_and(c) and any(z3.is_quantifier(x) for x in c.children())]
                if len(ands) == 1 and not qs:
                    stack.extend(z3.Or(*[x if c.eq(ands[0]) else c for c in h.children()]) for x in reversed(ands[0].children()))
                    continue
                if len(qs) == 1:
                    ks = [z3.Const(T.fresh_name("q"), qs[0].var_sort(i)) for i in range(qs[0].num_vars())]
                    b = z3.substitute_vars(qs[0].body(), *reversed(ks))
                    h = z3.ForAll(ks, z3.Or(*[b if c.eq(qs[0]) else c for c in h.children()]))
            out.append(h)
        return out

    def split(self, hyps, g, d):
        """-> leaves (hyps, goal)"""
        v = T.lit(g)
        if v is True:
            return
        if z3.is_and(g):
            for c in g.children():
                yield from self.split(hyps, c, d)
            return
        if z3.is_quantifier(g) and not g.is_lambda() and g.is_forall():
            ks = [z3.Const(T.fresh_name("k"), g.var_sort(i)) for i in range(g.num_vars())]
            yield from self.split(hyps, z3.substitute_vars(g.body(), *reversed(ks)), d)
            return
        if z3.is_not(g):
            q = g.arg(0)
            if z3.is_not(q):
                yield from self.split(hyps, q.arg(0), d)
                return
            if z3.is_or(q):
                for c in q.children():
                    yield from self.split(hyps, negate(c), d)
                return
            if z3.is_quantifier(q) and q.is_exists():
                ks = [z3.Const(T.fresh_name("k"), q.var_sort(i)) for i in range(q.num_vars())]
                yield from self.split(hyps, negate(z3.substitute_vars(q.body(), *reversed(ks))), d)
                return
        if z3.is_implies(g):
            yield from self.split(hyps + self.open_hyps([g.arg(0)]), g.arg(1), d)
            return
        if z3.is_or(g):
            ch = g.children()
            main = len(ch) - 1
            for i, c in enumerate(ch):
                if z3.is_quantifier(c):
                    main = i
            hs = [negate(c) for i, c in enumerate(ch) if i != main]
            yield from self.split(hyps + self.open_hyps(hs), ch[main], d)
            return
        if z3.is_app_of(g, z3.Z3_OP_ITE):
            c, a, b = g.children()
            yield from self.split(hyps + self.open_hyps([c]), a, d)
            yield from self.split(hyps + self.open_hyps([negate(c)]), b, d)
            return
        if z3.is_eq(g) and z3.is_bool(g.arg(0)) and T.contains_bind(g):
            a, b = g.children()
            yield from self.split(hyps + self.open_hyps([a]), b, d)
            yield from self.split(hyps + self.open_hyps([b]), a, d)
            return
        yield hyps, g

    # ------------------------------------------------------------ one leaf
    def congruent(self, hyps, a, b, d=0):
        """equal because built alike from equal parts"""
        if a.eq(b):
            return True
        if z3.is_app(a) and z3.is_app(b) and a.decl().kind() == z3.Z3_OP_MUL == b.decl().kind():
            xs, ys = T.flat_mul(a), T.flat_mul(b)
            if len(xs) == len(ys):
                ys = list(ys)
                for x in xs:
                    for i, y in enumerate(ys):
                        if x.eq(y):
                            ys.pop(i)
                            break
                    else:
                        for i, y in enumerate(ys):
                            if x.sort().eq(y.sort()) and (self.congruent(hyps, x, y, d + 1) or self.sub(hyps, x == y)):
                                ys.pop(i)
                                break
                        else:
                            return False
                return True
        if d < 3 and z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) and a.num_args() == b.num_args() \
                and a.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS):
            return all(x.eq(y) or self.congruent(hyps, x, y, d + 1) or self.sub(hyps, x == y) for x, y in zip(a.children(), b.children()))
        return False

    def decided(self, hyps, goal, limit=40):
        """the goal with ifs outside binders resolved where the hypotheses decide the condition"""
        if not T.collect(goal, lambda x: z3.is_app_of(x, z3.Z3_OP_ITE)):
            return goal
        s = z3.Solver()
        s.set("timeout", patient(200))
        names = {}

        def blind(t):
            """the term with its sums, firsts, lasts and quantified formulas as opaque values"""
            if not T.contains_bind(t):
                return t
            bs = T.collect(t, lambda x: T.is_bind(x) or z3.is_quantifier(x))
            if any(T.has_free_var(b) for b in bs):
                return None
            return z3.substitute(t, *[(b, z3.Const("opq!%d" % names.setdefault(alpha(b), len(names)), b.sort())) for b in bs])
        for h in hyps:
            if not z3.is_quantifier(h):
                h = blind(h)
                if h is not None:
                    s.add(h)
            elif not T.contains_bind(h):
                s.add(h)
        memo, count = {}, [0]

        def dec(c):
            if count[0] > limit or T.has_free_var(c):
                return None
            c = blind(c)
            if c is None:
                return None
            count[0] += 1
            s.push()
            s.add(z3.Not(c))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return True
            s.push()
            s.add(c)
            r = s.check()
            s.pop()
            return False if r == z3.unsat else None

        def rec(t):
            if t.get_id() in memo:
                return memo[t.get_id()][1]
            r = t
            if T.is_bind(t) or z3.is_quantifier(t) or not z3.is_app(t) or not t.num_args():
                pass
            elif z3.is_app_of(t, z3.Z3_OP_ITE):
                d = dec(t.arg(0))
                if d is True:
                    r = rec(t.arg(1))
                elif d is False:
                    r = rec(t.arg(2))
                else:
                    a, b = rec(t.arg(1)), rec(t.arg(2))
                    r = t if a.eq(t.arg(1)) and b.eq(t.arg(2)) else z3.If(t.arg(0), a, b)
            else:
                ch = [rec(c) for c in t.children()]
                if not all(x.eq(y) for x, y in zip(ch, t.children())):
                    r = T.rebuild(t, ch)
            memo[t.get_id()] = (t, r)
            return r
        goal = rec(goal)
        # conditions inside sums that do not depend on the summand
        found = {}
        for b in T.collect(goal, T.is_bind):
            for x in T.collect_all(b, lambda x: z3.is_app_of(x, z3.Z3_OP_ITE)):
                if x.arg(0).get_id() not in found and not T.has_free_var(x.arg(0)) and len(found) < 12:
                    found[x.arg(0).get_id()] = (x.arg(0), dec(x.arg(0)))
        pairs = [(c, z3.BoolVal(d)) for c, d in found.values() if d is not None]
        return folded(z3.substitute(goal, *pairs)) if pairs else goal

    def places(self, hyps, goal):
        """first and last places where a condition holds that only one known place meets"""
        for rounds in range(4):
            todo = []
            for t in T.collect_all(goal, lambda x: z3.is_app(x) and x.num_args() == 3 and x.decl().name() in ("First", "Last")):
                if not T.has_free_var(t) and not T.collect(t.arg(2), T.is_bind):
                    todo.append(t)
            pairs = []
            for t in todo:
                lo, hi, q, body = T.open_sum(t)
                if T.contains_bind(lo) or T.contains_bind(hi):
                    continue
                for a in self.meeting(body, q):
                    if self.sub(hyps, z3.And(lo <= a, a < hi, z3.substitute(body, (q, a)))) \
                            and self.sub(hyps + [lo <= q, q < hi, body], q == a):
                        pairs.append((t, a))
                        break
            if not pairs:
                return goal
            goal = z3.substitute(goal, *pairs)
        return goal

    def matched(self, hyps, goal):
        """instances of what is known for all x of a sum, at the sums of the goal"""
        sums = [x for x in T.collect(goal, T.is_sum) if not T.has_free_var(x)]
        out = []
        for h in hyps:
            if not sums or not (z3.is_quantifier(h) and h.is_forall() and has_bind(h)):
                continue
            n = h.num_vars()
            for p in T.collect(h.body(), T.is_sum):
                for x in sums[:6]:
                    sub = {}
                    if match(p, x, 0, sub) and len(sub) == n:
                        out.append(z3.substitute_vars(h.body(), *[sub[i] for i in range(n)]))
        return out

    def exchanged(self, hyps, goal):
        """sum = x, from a hypothesis about a sum over the same range with equal terms"""
        if not (z3.is_eq(goal) and T.is_sum(goal.arg(0))) or T.has_free_var(goal):
            return False
        lo, hi, q, body = T.open_sum(goal.arg(0))
        mine = [c for c in T.collect_all(goal, lambda x: z3.is_const(x) and z3.is_int(x)) if c.decl().name().startswith("k!")]
        for h in hyps:
            if not (z3.is_quantifier(h) and h.is_forall() and has_bind(h)) or h.num_vars() > len(mine):
                continue
            for cs in itertools.permutations(mine, h.num_vars()):
                b = z3.substitute_vars(h.body(), *reversed(cs))
                guard = []
                while True:
                    if z3.is_implies(b):
                        guard.append(b.arg(0))
                        b = b.arg(1)
                    elif z3.is_or(b) and any(z3.is_eq(c) for c in b.children()[-1:]):
                        guard += [negate(c) for c in b.children()[:-1]]
                        b = b.children()[-1]
                    elif z3.is_or(b) and z3.is_or(b.children()[-1]):
                        guard += [negate(c) for c in b.children()[:-1]]
                        b = b.children()[-1]
                    else:
                        break
                if not (z3.is_eq(b) and T.is_sum(b.arg(0)) and b.arg(1).sort().eq(goal.arg(1).sort())):
                    continue
                lo2, hi2, _, other = T.open_sum(b.arg(0), q)
                if lo2.eq(lo) and hi2.eq(hi) and self.sub([x for x in hyps if not has_bind(x)], z3.And(*guard, b.arg(1) == goal.arg(1))) \
                        and self.pointwise(hyps + [lo <= q, q < hi], other == body, mine + [q]):
                    return True
        return False

    def instanced(self, hyps, goal):
        """follows from the hypotheses at the places the goal is about, with sums as opaque values"""
        at = [c for c in T.collect_all(goal, lambda x: z3.is_const(x) and z3.is_int(x)) if c.decl().name().startswith("k!")]
        if not 1 <= len(at) <= 2 or not any(has_bind(h) for h in hyps):
            return False
        return self.pointwise(hyps, goal, at)

    def pointwise(self, hyps, goal, at):
        """with instances of the quantified hypotheses at the given places and sums as opaque values"""
        known = [h for h in hyps if not z3.is_quantifier(h)]
        for h in hyps:
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() <= 2:
                known += [z3.substitute_vars(h.body(), *reversed(cs)) for cs in itertools.product(at, repeat=h.num_vars())]
        return self.opaque_solve([goal] + known, True)

    @staticmethod
    def meeting(body, q):
        """places x with f(q) == f(x) in the condition"""
        out = []
        for e in T.collect_all(body, z3.is_eq):
            for a, b in (e.children(), e.children()[::-1]):
                if z3.is_app(a) and z3.is_app(b) and a.num_args() == 1 and a.decl().eq(b.decl()) and a.arg(0).eq(q) and not T.contains(b, q):
                    out.append(b.arg(0))
        return out

    def matrices(self, hyps, goal):
        """matrices under an inverse become constants, one for all with the same n x n block"""
        isinv = lambda x: z3.is_app(x) and x.decl().name() in ("Inv", "Invertible") and not z3.is_const(x.arg(1))
        apps = [x for t in [goal] + hyps for x in T.collect(t, isinv) if not T.has_free_var(x.arg(1)) and not T.has_free_var(x.arg(0))]
        if not apps:
            return hyps, goal
        clean = [h for h in hyps if not T.collect(h, isinv)]
        reps, table = [], {}
        for x in apps:
            n, m = x.arg(0), x.arg(1)
            key = (n.get_id(), m.get_id())
            if key in table:
                continue
            for n2, m2, c in reps:
                i, j = T.fresh_int("k"), T.fresh_int("k")
                rng = [0 <= i, i < n2, 0 <= j, j < n2]
                at = lambda mm: z3.substitute_vars(mm.body(), j, i) if z3.is_quantifier(mm) else mm[i, j]
                if (n.eq(n2) or self.sub(clean, n == n2)) and (m.eq(m2) or self.sub(clean + rng, at(m) == at(m2))):
                    table[key] = c
                    break
            else:
                c = z3.Const("matrix!%d" % len(reps), m.sort())
                reps.append((n, m, c))
                table[key] = c
        reps_n = {c.get_id(): n for n, m, c in reps}
        pairs = []
        for x in apps:
            c = table[(x.arg(0).get_id(), x.arg(1).get_id())]
            pairs.append((x, x.decl()(reps_n[c.get_id()], c, *x.children()[2:])))
        return [z3.substitute(h, *pairs) for h in hyps], z3.substitute(goal, *pairs)

    def syntactic(self, hyps, goal):
        """follows from the hypotheses with every sum, first, last and quantified formula an opaque value"""
        if not T.contains_bind(goal) and not has_quant_out(goal):
            return False
        if self.opaque_solve([goal] + [h for h in hyps if not has_quant_out(h)], False):
            return True
        return self.opaque_solve([T.to_z3(self.clean(x)) for x in [goal] + hyps], True)

    def opaque_solve(self, terms, deep):
        atoms, names = {}, {}
        for t in terms:
            for a in T.collect(t, lambda x: T.is_bind(x) or z3.is_quantifier(x)):
                if z3.is_quantifier(a) and (not deep or a.is_lambda()):
                    return False
                if a.get_id() not in atoms:
                    n = names.setdefault(alpha(a) if deep else a.get_id(), len(names))
                    atoms[a.get_id()] = (a, z3.Const("opq!%d" % n, a.sort()))
        pairs = list(atoms.values())
        s = z3.Solver()
        s.set("timeout", patient(300))
        for h in terms[1:]:
            s.add(z3.substitute(h, *pairs))
        s.add(z3.Not(z3.substitute(terms[0], *pairs)))
        t0 = time.time()
        r = s.check()
        self.stats["z3"] += time.time() - t0
        return r == z3.unsat

    def leaf(self, hyps, goal, cases=4):
        if self.depth == 0 and self.syntactic(hyps, goal):
            return Result("proved", "z3")
        if self.depth == 0:
            more = self.matched(hyps, goal)
            if more:
                hyps = hyps + self.open_hyps(more)
                if self.syntactic(hyps, goal):
                    return Result("proved", "z3")
        if self.depth == 0 and self.instanced(hyps, goal):
            return Result("proved", "z3")
        if self.depth == 0:
            hyps, goal = self.matrices(hyps, goal)
        if self.depth == 0:
            told = self.decided(hyps, self.places(hyps, goal))
            if not told.eq(goal):
                goal = told
                if self.syntactic(hyps, goal):
                    return Result("proved", "z3")
                more = self.matched(hyps, goal)
                if more:
                    hyps = hyps + self.open_hyps(more)
                    if self.syntactic(hyps, goal):
                        return Result("proved", "z3")
                if self.instanced(hyps, goal):
                    return Result("proved", "z3")
        if self.depth == 0 and cases > 0:
            for b in T.collect(goal, T.is_bind):
                for x in T.collect_all(b, lambda x: z3.is_app_of(x, z3.Z3_OP_ITE)):
                    c = x.arg(0)
                    if has_quant(c) and not T.has_free_var(c) and not T.has_free_var(b):
                        for extra in (c, negate(c)):
                            r = self.leaf(hyps + self.open_hyps([extra]), goal, cases - 1)
                            if r.status != "proved":
                                return r
                        return Result("proved", "z3")
        if self.depth == 0 and z3.is_eq(goal) and z3.is_real(goal.arg(0)):
            a, b = goal.children()
            if any(z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) for x in (a, b)) and self.congruent(hyps, a, b):
                return Result("proved", "z3")
            if self.exchanged(hyps, goal):
                return Result("proved", "z3")
        if self.depth == 0 and self.lean(hyps, goal):
            return Result("proved", "z3")
        # hypotheses decided by arithmetic alone first
        r = self.attempt(hyps, goal, simple=True)
        if r.status == "proved" or r.status == "refuted":
            return r
        if self.depth == 0:
            near = near_hyps(hyps, goal)
            if near is not None:
                r2 = self.attempt(near, goal, simple=False)
                if r2.status == "proved":
                    return r2
        r2 = self.attempt(hyps, goal, simple=False)
        if r2.status == "proved":
            return r2
        # case split on the conditions of ifs outside binders
        if self.depth == 0 and cases > 0 and self.left() > 0:
            c, goal = self.split_on(hyps, goal)
            if c is not None:
                for extra in (c, negate(c)):
                    r = self.leaf(hyps + self.open_hyps([extra]), goal, cases - 1)
                    if r.status != "proved":
                        return r
                return Result("proved", "z3")
        return r2

    def lean(self, hyps, goal):
        """with wide quantifiers about, which drown the narrow ones: the cases of the writes in the
        goal one by one, from fewer hypotheses"""
        wide = lambda h: z3.is_quantifier(h) and h.num_vars() > 2
        if not any(wide(h) for h in hyps) or T.contains_bind(goal):
            return False
        cs = []
        for x in T.collect(goal, lambda x: z3.is_app_of(x, z3.Z3_OP_ITE)):
            c = x.arg(0)
            if z3.is_eq(c) and not T.has_free_var(c) and not any(c.eq(d) for d in cs):
                cs.append(c)
        cs = cs[:3]
        hyps = [h for h in hyps if z3.is_quantifier(h) and not T.contains_bind(h.body()) or not T.contains_bind(h)]
        for h in [h for h in hyps if wide(h)]:
            at = self.skolems(hyps, goal)[-h.num_vars():]
            if len(at) == h.num_vars():
                hyps = hyps + [z3.substitute_vars(h.body(), *reversed(at))]
        for signs in itertools.product((True, False), repeat=len(cs)):
            sub = [(c, z3.BoolVal(b)) for c, b in zip(cs, signs)]
            extra = [c if b else negate(c) for c, b in zip(cs, signs)]
            hs = [z3.simplify(z3.substitute(h, *sub)) if sub and not z3.is_quantifier(h) else h for h in hyps]
            hs += extra
            g = z3.simplify(z3.substitute(goal, *sub)) if sub else goal
            narrow = [h for h in hs if not wide(h)]
            whole = [h for h in narrow if not has_to_int(h)]
            flat = [h for h in whole if not z3.is_quantifier(h) or h.num_vars() == 1]
            for fs in (flat, whole, narrow, [h for h in hs if not has_to_int(h)], hs):
                if self.left() <= 0:
                    return False
                s = z3.Solver()
                s.set("timeout", patient(3000))
                fs = fs + [z3.Not(g)]
                s.add(*(map(products, fs) if z3.is_eq(g) else fs))
                if s.check() == z3.unsat:
                    break
            else:
                return False
        return True

    def skolems(self, hyps, goal):
        """the constants that stand for the quantified variables of the goal, in order"""
        out = {}
        for t in [goal] + [h for h in hyps if not z3.is_quantifier(h)]:
            for x in T.collect_all(t, lambda x: z3.is_const(x) and z3.is_int(x) and x.decl().name().startswith("k!")):
                out[int(x.decl().name()[2:])] = x
        return [out[k] for k in sorted(out)]

    def split_on(self, hyps, goal):
        """an undecided condition of an if outside binders, and the goal in normal form"""
        if not T.contains_bind(goal):
            return None, goal
        if z3.is_eq(goal):
            a, b = goal.children()
            a, b = T.to_z3(self.clean(a)), T.to_z3(self.clean(b))
            g = T.to_z3(T.cmp("==", a, b))
        else:
            g = T.to_z3(self.clean(goal))
        g = self.decided(hyps, g)
        for x in T.collect(g, lambda x: z3.is_app_of(x, z3.Z3_OP_ITE) or T.is_bind(x) or z3.is_quantifier(x)):
            if z3.is_app_of(x, z3.Z3_OP_ITE) and not T.contains_bind(x.arg(0)):
                return x.arg(0), g
        return None, g

    def clean(self, t):
        return self.norm.term(t)

    def attempt(self, hyps, goal, simple):
        g = goal
        qf = [h for h in hyps if not has_quant(h)]
        qn = [h for h in hyps if has_quant(h)]
        if simple and T.contains_bind(g):
            # equal up to the normal form?
            if z3.is_eq(g) and not z3.is_bool(g.arg(0)):
                if g.arg(0).eq(g.arg(1)):
                    return Result("proved", "simplifier")
            return Result("unknown")
        if simple:
            qf2 = [h for h in qf if not T.contains_bind(h)]
            qn2 = [h for h in qn if not has_bind(h)]
            if len(qn2) < len(qn) and self.cheap(qf2, g, qn2):
                return Result("proved", "z3")
            r = self.solve(qf2, qn if True else [], g, self.z3_ms, exact=len(qf2) == len(qf) and not any(
                has_bind(h) for h in qn))
            return r
        # --- sums
        if z3.is_eq(g) and not z3.is_bool(g.arg(0)):
            a, b = g.children()
            na, nb = T.to_z3(self.clean(a)), T.to_z3(self.clean(b))
            if na.eq(nb):
                return Result("proved", "normaliser")
            g = na == T.fix_sort(nb, na) if z3.is_real(na) else (T.fix_sort(na, nb) == nb)
        else:
            g = T.to_z3(self.clean(g))
        if T.lit(g) is True:
            return Result("proved", "normaliser")
        qf = [T.to_z3(self.clean(h)) for h in qf]
        # instances of quantified hypotheses that talk about sums
        inst = []
        for h in qn:
            if has_bind(h):
                inst += self.instances(h, g, qf)
        qn0 = qn
        qn = [h for h in qn if not has_bind(h)]
        qf += [T.to_z3(self.clean(h)) for h in inst]
        terms = [g] + qf
        atoms = {}
        for t in terms:
            for a in ground_binds(t):
                atoms.setdefault(a.get_id(), a)
        extra = []
        consts = {}

        def const(a):
            if a.get_id() not in consts:
                consts[a.get_id()] = (a, z3.Const("atom!%d" % len(consts), a.sort()))
            return consts[a.get_id()][1]
        # defining facts (first, last, arg-max)
        seen = set()
        queue = list(atoms.values())
        while queue and len(seen) < 40:
            a = queue.pop()
            if a.get_id() in seen:
                continue
            seen.add(a.get_id())
            for n in inner_binds(a):
                queue.append(n)
            if not T.is_sum(a):
                for ax in T.bind_axioms(a):
                    extra.append(ax)
        more = []
        for ax in extra:
            ax = T.to_z3(self.clean(ax)) if not has_quant(ax) else ax
            more.append(ax)
            for a in ground_binds(ax):
                atoms.setdefault(a.get_id(), a)
        for a in queue:
            atoms.setdefault(a.get_id(), a)
        if self.depth == 0:
            # the normal forms alone may do
            cheap = {}
            for a in atoms.values():
                cheap[a.get_id()] = (a, z3.Const("atom!%d" % len(cheap), a.sort()))
            order = sorted(cheap.values(), key=lambda p: -size(p[0]))
            hide = (lambda t: z3.substitute(t, *order)) if cheap else (lambda t: t)
            c2 = hide(g)
            if not has_bind(c2) and self.cheap([h for h in map(hide, qf) if not has_bind(h)], c2, qn):
                return Result("proved", "z3")
            for a in list(atoms.values()):
                e = self.permuted(a, qf, qn0)
                if e is not None:
                    more.append(e)
                    for x in ground_binds(e):
                        atoms.setdefault(x.get_id(), x)
        alist = list(atoms.values())
        for a in alist:
            const(a)
        # nested first: replace outermost occurrences only
        def abstract(t):
            return z3.substitute(t, *[(a, c) for a, c in sorted(consts.values(), key=lambda p: -size(p[0]))]) if consts else t
        ga = {x.get_id() for x in ground_binds(g)}
        if self.depth == 0:
            hs = [h for h in map(abstract, qf + more) if not has_bind(h)] + witnesses(alist, consts)
            if not has_bind(abstract(g)) and self.cheap(hs, abstract(g), [h for h in map(abstract, qn) if not has_bind(h)]):
                return Result("proved", "z3")
        eqs = self.pairs(alist, qf, qn0, consts, None if self.depth == 0 else ga) if self.depth < 3 and (ga or self.depth == 0) else []
        eqs += partitions(alist, consts)
        eqs += witnesses(alist, consts) if self.depth == 0 else []
        eqs += self.signs(alist, qf, qn0, consts, g) if self.depth < 1 else []
        hs = [abstract(h) for h in qf] + [abstract(m) for m in more if not has_bind_open(abstract(m))] + eqs
        qh = [abstract(h) for h in qn]
        g2 = abstract(g)
        if has_bind(g2):
            return Result("unknown", "", "bound terms inside a quantifier")
        hs = [h for h in hs if not has_bind(h)]
        qh = [h for h in qh if not has_bind(h)]
        r = self.solve(hs, qh, g2, self.z3_ms, exact=not consts)
        return r

    def permuted(self, a, qf, qn):
        """sum of f(p(k)) over 0 <= k < n with p a permutation of 0..n-1 is the sum of f(k)"""
        if not T.is_sum(a):
            return None
        lo, hi, k, body = T.open_sum(a)
        lo = T.lit(lo)
        if T.is_z3(lo) or lo != 0:
            return None
        apps = T.collect(body, lambda x: z3.is_app(x) and any(c.eq(k) for c in x.children()))
        if not apps or any(not x.eq(apps[0]) for x in apps) or not z3.is_int(apps[0]) \
                or apps[0].decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return None
        p = apps[0]
        if sum(c.eq(k) for c in p.children()) != 1 or any(T.contains(c, k) and not c.eq(k) for c in p.children()):
            return None
        body2 = z3.substitute(body, (p, k))
        j = T.fresh_int("p")
        hs = qf + qn
        at = lambda x: z3.substitute(p, (k, x))
        if not self.sub(hs + [0 <= k, k < hi], z3.And(0 <= p, p < hi)):
            return None
        if not self.sub(hs + [0 <= k, k < hi, 0 <= j, j < hi, k != j], p != at(j)):
            return None
        new = T.to_z3(self.clean(T.to_z3(T.mk_sum(lo, hi, k, body2))))
        return a == T.fix_sort(new, a)

    def signs(self, alist, qf, qn, consts, g):
        """sums of non-negative terms are non-negative (useful for inequalities and ifs)"""
        if z3.is_eq(g) and not any(T.contains_bind(x.arg(0)) for x in T.collect_all(g, lambda x: z3.is_app_of(x, z3.Z3_OP_ITE))):
            return []
        out = []
        for a in alist[:10]:
            if not T.is_sum(a):
                continue
            lo, hi, k, body = T.open_sum(a)
            r = self.sub(qf + qn + [lo <= k, k < hi], body >= 0)
            if r:
                out.append(consts[a.get_id()][1] >= 0)
            else:
                r = self.sub(qf + qn + [lo <= k, k < hi], body <= 0)
                if r:
                    out.append(consts[a.get_id()][1] <= 0)
        # pointwise comparison
        for a, b in itertools.islice(itertools.permutations([x for x in alist if T.is_sum(x)], 2), 20):
            lo, hi, k, body = T.open_sum(a)
            lo2, hi2, k2, body2 = T.open_sum(b, k)
            if not (T.known_le(lo, lo2) and T.known_le(lo2, lo) and T.known_le(hi, hi2) and T.known_le(hi2, hi)):
                continue
            if self.sub(qf + qn + [lo <= k, k < hi], T.to_z3(T.cmp("<=", body, body2))):
                out.append(T.to_z3(T.cmp("<=", consts[a.get_id()][1], consts[b.get_id()][1])))
        return out

    def pairs(self, alist, qf, qn, consts, mine=None):
        """identifies bound terms whose bodies are equal in range"""
        out = []
        zero = set()
        for a in alist[:24]:
            if mine is not None and a.get_id() not in mine:
                continue
            if not T.is_sum(a) or self.left() < 1:
                continue
            lo, hi, k, body = T.open_sum(a)
            if not z3.is_app_of(body, z3.Z3_OP_ITE):
                continue
            key = ("zero", a.get_id(), tuple(sorted(h.get_id() for h in qf + qn)))
            if key not in self.pair_memo:
                self.pair_memo[key] = (a, a, qf, qn, self.sub(qf + qn + [lo <= k, k < hi], T.to_z3(T.Not(body.arg(0)))
                                                            if T.is_zero(body.arg(2)) else body == T.fix_sort(0, body)))
            if self.pair_memo[key][4]:
                zero.add(a.get_id())
                c = consts[a.get_id()][1]
                out.append(c == T.fix_sort(0, c))
        n = 0
        for a, b in itertools.combinations([x for x in alist if x.get_id() not in zero], 2):
            if not same_op(a, b) or mine is not None and not (a.get_id() in mine or b.get_id() in mine):
                continue
            n += 1
            if n > 80 or self.left() < 1:
                break
            key = (a.get_id(), b.get_id(), tuple(sorted(h.get_id() for h in qf + qn)))
            if key not in self.pair_memo:
                self.pair_memo[key] = (a, b, qf, qn, self.equal_binds(a, b, qf + qn))
            if self.pair_memo[key][4]:
                ca, cb = consts[a.get_id()][1], consts[b.get_id()][1]
                out.append(T.to_z3(T.cmp("==", ca, cb)))
        return out

    def equal_binds(self, a, b, hyps):
        for i in (0, 1):
            if not a.arg(i).eq(b.arg(i)):
                if not self.sub(hyps, a.arg(i) == b.arg(i)):
                    # both empty ranges
                    return False
        k = T.fresh_int("p")
        lo, hi, k, x = T.open_sum(a, k)
        _, _, _, y = T.open_sum(b, k)
        goal = T.to_z3(T.cmp("==", x, y))
        return self.sub(hyps + [lo <= k, k < hi], goal)

    def sub(self, hyps, goal):
        p = Prover(None if self.deadline is None else self.deadline, min(1500, self.z3_ms), False)
        p.depth = self.depth + 1
        p.norm = self.norm
        p.pair_memo = self.pair_memo
        r = p.prove(hyps, goal)
        self.stats["z3"] += p.stats["z3"]
        return r.status == "proved"

    def instances(self, h, g, qf):
        """ground instances of a quantified hypothesis at index terms of the goal"""
        n = h.num_vars() if z3.is_quantifier(h) else 0
        if n == 0 or n > 2 or not h.is_forall():
            return []
        cands = {}
        for t in [g] + qf:
            for c in T.collect_all(t, lambda x: z3.is_const(x) and z3.is_int(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                if any(c.decl().name().startswith(p) for p in ("k!", "p!", "sk!", "ax!", "it!", "round!")):
                    cands[c.get_id()] = c
        cs = list(cands.values())[:6]
        out = []
        for combo in itertools.islice(itertools.product(cs, repeat=n), 36):
            out.append(z3.substitute_vars(h.body(), *reversed(combo)))
        return out

    # ------------------------------------------------------------ solvers
    def axioms(self, ts):
        out = []
        seen = set()
        for t in ts:
            for a in T.collect_all(t, lambda x: z3.is_app(x) and x.num_args() > 0 and x.decl().name() in ("Lcg", "Sqrt", "RngU")):
                if a.get_id() in seen or T.has_free_var(a):
                    continue
                seen.add(a.get_id())
                nm = a.decl().name()
                if nm == "RngU":
                    out += [a >= 0, a < 1]
                elif nm == "Sqrt":
                    x = a.arg(0)
                    out.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
                elif nm == "Lcg":
                    s, m, M, k = a.children()
                    out.append(z3.Implies(M > 0, z3.And(a >= 0, a < M)))
                    out.append(z3.Implies(z3.And(k == 0, M > 0), a == s % M))
                    pred = a.decl()(s, m, M, z3.simplify(k - 1))
                    out.append(z3.Implies(z3.And(k >= 1, M > 0), a == (pred * m) % M))
        return out + whole_axioms(ts)

    def solve(self, qf, qn, goal, ms, exact):
        qf, goal = [tidy(h) for h in qf], tidy(goal)
        v = T.lit(z3.simplify(goal))
        if v is True:
            return Result("proved", "simplifier")
        qn_all, qn = qn, relevant(qn, [goal], qf)
        if T.collect_all(goal, lambda x: z3.is_app_of(x, z3.Z3_OP_TO_INT)):
            qf = qf + [z3.simplify(z3.substitute_vars(h.body(), z3.IntVal(0))) for h in qn
                       if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == z3.IntSort()][:12]
        ax = self.axioms([goal] + qf)
        fs = qf + ax
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(max(200, min(patient(ms), self.left() * 1000))))
        for f in fs:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            self.stats["z3"] += time.time() - t0
            return Result("proved", "z3")
        if qn:
            s = z3.Solver()
            s.set("timeout", int(max(200, min(patient(ms), self.left() * 1000))))
            for f in fs + qn:
                s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                self.stats["z3"] += time.time() - t0
                return Result("proved", "z3")
        self.stats["z3"] += time.time() - t0
        if r == z3.sat and exact and not any(has_unint(f) for f in fs + qn + [goal]):
            m, det = None, ""
            try:
                if len(qn_all) > len(qn):
                    s.add(*[h for h in qn_all])
                    s.set("timeout", 3000)
                    if s.check() != z3.sat:
                        return Result("unknown", "", "z3: no model of all hypotheses")
                m = s.model()
                s.set("timeout", 2000)
                for k in (3, 6, 16) if self.dims else ():
                    s.push()
                    s.add(*[d <= k for d in self.dims])
                    if s.check() == z3.sat:
                        m = s.model()
                        break
                    s.pop()
                det = model_text(m)
            except z3.Z3Exception:
                m, det = None, ""
            return Result("refuted", "z3", det, m)
        if r == z3.unknown and self.use_cvc5 and CVC5 and self.left() > 2:
            t0 = time.time()
            ok = self.cvc5(s, min(patient(ms), self.left() * 1000))
            self.stats["cvc5"] += time.time() - t0
            if ok:
                return Result("proved", "cvc5")
        return Result("unknown", "", "z3: %s%s" % (r, "" if exact else " (bound terms abstracted)"))

    def cheap(self, qf, goal, qn=()):
        if qn:
            qn = relevant(list(qn), [goal], qf)
            if self.cheap(qf, goal):
                return True
        s = z3.Solver()
        for f in qn:
            s.add(f)
        s.set("timeout", patient(700))
        for f in qf:
            s.add(tidy(f))
        s.add(z3.Not(tidy(goal)))
        t0 = time.time()
        r = s.check()
        self.stats["z3"] += time.time() - t0
        return r == z3.unsat

    def cvc5(self, solver, ms):
        txt = solver.to_smt2()
        if "lambda" in txt:
            return False
        txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info"))
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run([CVC5, "--tlimit=%d" % int(ms), "--nl-ext-tplanes", f.name], capture_output=True, text=True,
                               timeout=ms / 1000 + 5)
            return p.stdout.strip().startswith("unsat")
        except subprocess.TimeoutExpired:
            return False
        finally:
            os.unlink(f.name)


def folded(t):
    """ifs with a literal condition resolved, inside sums too"""
    if z3.is_quantifier(t):
        ks = [z3.Const(t.var_name(i), t.var_sort(i)) for i in range(t.num_vars())]
        out = [z3.Const(T.fresh_name("f"), k.sort()) for k in ks]
        b = folded(z3.substitute_vars(t.body(), *reversed(out)))
        b = z3.substitute(b, *zip(out, ks))
        return z3.Lambda(ks, b) if t.is_lambda() else z3.ForAll(ks, b) if t.is_forall() else z3.Exists(ks, b)
    if not z3.is_app(t) or not t.num_args():
        return t
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        v = T.lit(t.arg(0))
        if isinstance(v, bool):
            return folded(t.arg(1) if v else t.arg(2))
    ch = [folded(c) for c in t.children()]
    return t if all(a.eq(b) for a, b in zip(ch, t.children())) else T.rebuild(t, ch)


def match(p, t, d, sub):
    """does the pattern (its free variables numbered from d) become the term; which values do they take"""
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i < d:
            return z3.is_var(t) and z3.get_var_index(t) == i
        if T.has_free_var(t):
            return False
        if i - d in sub:
            return sub[i - d].eq(t)
        sub[i - d] = t
        return True
    if p.eq(t):
        return True
    if z3.is_quantifier(p):
        return z3.is_quantifier(t) and p.is_lambda() and t.is_lambda() and p.num_vars() == t.num_vars() == 1 and match(p.body(), t.body(), d + 1, sub)
    if not (z3.is_app(p) and z3.is_app(t) and p.num_args() == t.num_args() and p.decl().eq(t.decl())):
        return False
    return all(match(a, b, d, sub) for a, b in zip(p.children(), t.children()))


HEADS = {"SumI", "SumR", "ArgMaxI", "ArgMaxR", "First", "Last"}


def near_hyps(hyps, goal):
    """hypotheses without those about bound terms over arrays the goal does not mention; None when that drops few"""
    mine = {n for n in symbols(goal) if n not in HEADS}
    keep = [h for h in hyps if not T.contains_bind(h) or has_quant(h) and not has_bind(h) or symbols(h) & mine]
    return keep if len(hyps) - len(keep) >= 6 else None


_TIDY = {}


def tidy(t):
    """products with an if between numbers become ifs between multiples (linear for the solver); literal tests are folded"""
    k = t.get_id()
    if k in _TIDY:
        return _TIDY[k][1]
    r = t
    if z3.is_app(t) and t.num_args() and not is_lambda_term(t):
        ch = [tidy(c) for c in t.children()]
        kind = t.decl().kind()
        if kind == z3.Z3_OP_ITE:
            v = T.lit(z3.simplify(ch[0]))
            r = ch[1] if v is True else ch[2] if v is False else z3.If(*ch)
        elif kind == z3.Z3_OP_MUL and any(differences(c) for c in ch):
            r, xs = None, []
            for c in ch:
                xs.append(tree_of(c))
            trees, plain = [c for c in xs if number_tree(c)], [c for c in xs if not number_tree(c)]
            r = plain[0] if plain else trees.pop()
            for c in plain[1:]:
                r = r * c
            for c in trees:
                r = spread(c, r)
        elif kind == z3.Z3_OP_MUL and len(ch) == 2 and number_tree(ch[1]) and not number_tree(ch[0]):
            r = spread(ch[1], ch[0])
        elif kind == z3.Z3_OP_MUL and len(ch) == 2 and number_tree(ch[0]) and z3.is_app_of(ch[0], z3.Z3_OP_ITE):
            r = spread(ch[0], ch[1])
        elif any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = T.rebuild(t, ch)
    _TIDY[k] = (t, r)
    return r


def number_tree(t, fuel=12):
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return True
    return fuel > 0 and z3.is_app_of(t, z3.Z3_OP_ITE) and number_tree(t.arg(1), fuel - 1) and number_tree(t.arg(2), fuel - 1)


def spread(tree, x):
    if z3.is_app_of(tree, z3.Z3_OP_ITE):
        return z3.If(tree.arg(0), spread(tree.arg(1), x), spread(tree.arg(2), x))
    if T.lit(tree) == 0:
        return tree
    return tree * x


def differences(t):
    """a difference (or sum) of ifs between numbers, perhaps made real"""
    while z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        t = t.arg(0)
    return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and t.num_args() == 2 \
        and all(number_tree(c) for c in t.children()) and leaves(t.arg(0)) * leaves(t.arg(1)) <= 9


def leaves(t):
    return leaves(t.arg(1)) + leaves(t.arg(2)) if z3.is_app_of(t, z3.Z3_OP_ITE) else 1


def tree_of(t):
    """such a difference as one tree of ifs"""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL) and (differences(t) or number_tree(t.arg(0))):
        return mapped(tree_of(t.arg(0)), lambda x: z3.RealVal(T.lit(x)))
    if not differences(t):
        return t
    minus = t.decl().kind() == z3.Z3_OP_SUB
    return mapped(t.arg(0), lambda a: mapped(t.arg(1), lambda b: z3.simplify(a - b if minus else a + b)))


def mapped(tree, f):
    if z3.is_app_of(tree, z3.Z3_OP_ITE):
        return z3.If(tree.arg(0), mapped(tree.arg(1), f), mapped(tree.arg(2), f))
    return f(tree)


def partitions(alist, consts):
    """sum of x = sum of x where c + sum of x where not c"""
    by = {}
    whole = []
    for a in alist:
        if not T.is_sum(a):
            continue
        k = z3.Int("part#")
        lo, hi, _, body = T.open_sum(a, k)
        if z3.is_app_of(body, z3.Z3_OP_ITE) and T.is_zero(body.arg(2)):
            c, x = body.arg(0), body.arg(1)
            by.setdefault((lo.get_id(), hi.get_id(), x.get_id()), []).append((c, T.canon(z3.Not(c)), a, x))
        else:
            whole.append((lo, hi, body, a))
    out = []
    for lo, hi, body, t in whole:
        for i, (c, nc, a, x) in enumerate(by.get((lo.get_id(), hi.get_id(), body.get_id()), [])):
            for c2, nc2, b, _ in by[(lo.get_id(), hi.get_id(), body.get_id())][i + 1:]:
                if nc.eq(T.canon(c2)) or nc2.eq(T.canon(c)):
                    out.append(consts[t.get_id()][1] == consts[a.get_id()][1] + consts[b.get_id()][1])
    return out


_A = {}


def alpha(a):
    """a key shared by bound terms and quantified formulas that differ in names and the order of operands only"""
    if a.get_id() in _A:
        return _A[a.get_id()][1]

    def fix(t, d):
        """the term with its bound variables named by depth and its operands ordered"""
        pairs = []
        for x in T.collect(t, z3.is_quantifier):
            ks = [z3.Const("al!%d!%d" % (d, i), x.var_sort(i)) for i in range(x.num_vars())]
            b = fix(z3.substitute_vars(x.body(), *reversed(ks)), d + 1)
            r = z3.Lambda(ks, b) if x.is_lambda() else (z3.ForAll if x.is_forall() else z3.Exists)(ks, b)
            pairs.append((x, r))
        return T.canon(z3.substitute(t, *pairs) if pairs else t)
    r = fix(a, 0)
    _A[a.get_id()] = (a, r.get_id(), r)
    return r.get_id()


def witnesses(alist, consts):
    """a count that is not zero counts something"""
    out = []
    for a in alist:
        if not T.is_sum(a):
            continue
        k = T.fresh_int("w")
        lo, hi, _, body = T.open_sum(a, k)
        if z3.is_app_of(body, z3.Z3_OP_ITE) and T.is_zero(body.arg(2)) and (z3.is_int_value(body.arg(1)) or z3.is_rational_value(body.arg(1))):
            c = consts[a.get_id()][1]
            out.append(z3.Or(c == T.fix_sort(0, c), z3.And(lo <= k, k < hi, body.arg(0))))
    return out


def whole_axioms(ts):
    """the whole part of a quantity that is a whole number is that number (z3 does not see it through an if-then-else)"""
    ground = lambda t, k: [a for a in T.collect_all(t, lambda x: z3.is_app_of(x, k)) if not T.has_free_var(a)]
    ints = {a.get_id(): a for t in ts[:1] for a in ground(t, z3.Z3_OP_TO_INT)}
    if not ints or len(ints) > 3:
        return []
    reals = {a.get_id(): a for t in ts for a in ground(t, z3.Z3_OP_TO_REAL)}
    cand = [a.arg(0) for a in reals.values() if not z3.is_app_of(a.arg(0), z3.Z3_OP_TO_INT)][:24] + [z3.IntVal(-1), z3.IntVal(0)]
    return [z3.Implies(a.arg(0) == z3.ToReal(k), a == k) for a in ints.values() for k in cand]


def negate(c):
    return c.arg(0) if z3.is_not(c) else z3.Not(c)


_Z = {}


def size(t):
    k = t.get_id()
    if k not in _Z:
        _Z[k] = (t, len(T.collect_all(t, lambda x: True)))
    return _Z[k][1]


_Q = {}


def has_quant(t):
    k = t.get_id()
    if k not in _Q:
        _Q[k] = (t, bool(T.collect(t, lambda x: z3.is_quantifier(x) and not x.is_lambda())))
    return _Q[k][1]


_S = {}


def numeral(x):
    return z3.is_int_value(x) or z3.is_rational_value(x)


_PRODUCTS = {}


def products(t):
    """t with its products of unknowns as a function of which only congruence is known"""
    k = t.get_id()
    if k in _PRODUCTS:
        return _PRODUCTS[k][1]
    out = t
    if z3.is_quantifier(t):
        vs = [z3.Const(T.fresh_name("v"), t.var_sort(i)) for i in range(t.num_vars())]
        b = products(z3.substitute_vars(t.body(), *reversed(vs)))
        out = z3.ForAll(vs, b) if t.is_forall() else z3.Exists(vs, b) if not t.is_lambda() else t
    elif z3.is_app(t) and t.num_args():
        ch = [products(x) for x in t.children()]
        if t.decl().kind() == z3.Z3_OP_MUL and sum(not numeral(x) for x in ch) > 1:
            nums = [x for x in ch if numeral(x)]
            rest = sorted((x for x in ch if not numeral(x)), key=lambda x: (x.num_args(), x.decl().name(), x.get_id()))
            f = z3.Function("product%d" % len(rest), *([t.sort()] * (len(rest) + 1)))
            out = f(*rest)
            for x in nums:
                out = x * out
        else:
            out = t.decl()(*ch)
    _PRODUCTS[k] = (t, out)
    return out


def has_to_int(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_TO_INT:
                return True
            stack += x.children()
    return False


def symbols(t):
    """uninterpreted functions and constants in t"""
    k = t.get_id()
    if k not in _S:
        out, seen, stack = set(), set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.num_args() or z3.is_array(x)):
                    out.add(x.decl().name())
                stack.extend(x.children())
        _S[k] = (t, out)
    return _S[k][1]


def relevant(qn, goals, qf):
    """quantified hypotheses about functions of the goal (three steps)"""
    if not qn:
        return qn
    syms = set()
    for g in goals:
        syms |= symbols(g)
    for h in qf:
        syms |= symbols(h)
    keep = []
    rest = list(qn)
    for _ in range(3):
        new = [h for h in rest if not symbols(h) or symbols(h) & syms]
        if not new:
            break
        rest = [h for h in rest if not any(h is x for x in new)]
        keep += new
        for h in new:
            syms |= symbols(h)
    return keep


_B = {}


def has_bind(t):
    k = t.get_id()
    if k not in _B:
        _B[k] = (t, bool(T.collect(t, T.is_bind)))
    return _B[k][1]


def has_bind_open(t):
    return has_bind(t)


def has_unint(t):
    return bool(T.collect(t, lambda x: z3.is_app(x) and x.num_args() > 0 and x.decl().name() in UNINT))


def has_quant_out(t):
    """a quantifier outside sums"""
    return any(z3.is_quantifier(x) for x in T.collect(t, lambda x: T.is_bind(x) or z3.is_quantifier(x)))


def ground_binds(t):
    return [x for x in T.collect(t, T.is_bind) if not T.has_free_var(x)]


def inner_binds(a):
    out = []
    for c in a.children():
        out += [x for x in T.collect_all(c, T.is_bind) if not T.has_free_var(x)]
    return out


def same_op(a, b):
    if a.decl().eq(b.decl()):
        return True
    return T.is_sum(a) and T.is_sum(b)


def model_text(m, lim=1200):
    out = []
    for d in m.decls():
        n = d.name()
        if n.startswith(("k!", "sk!")) or "!" not in n:
            out.append("%s = %s" % (n, re.sub(r"\s+", " ", str(m[d]))))
    return "; ".join(out)[:lim]
