"""Symbolic interpreter for the Python of /repo (the AST is read on every run).

Calls of functions under contract use the contract, others are inlined; loops with a
symbolic number of rounds are summarised exactly (loops.py) or carried by the
contract's invariants.  What is outside the fragment raises Unsupported."""
import ast
import os
from fractions import Fraction

import z3

from pyvc import terms as T
from pyvc.dsl import ANY, NS
from pyvc.sym import SymArr, SymE, Sqrt, RngU, InvF, Partial, matrix
from pyvc.terms import Unsupported
from pyvc.vals import (UNDEF, Arr, Buf, FuncRef, Masked, Maybe, Method, NpRef, Opaque, Poison, Range, Ranks, Seq, State,
                       fold, memo, template)


class Obl:
    def __init__(self, name, kind, hyps, goal, line=None):
        self.name, self.kind, self.hyps, self.goal, self.line = name, kind, list(hyps), goal, line


class AnyFn:
    n = 0


SCALARS = (int, bool, Fraction, z3.ExprRef)


def is_scalar(x):
    return isinstance(x, (int, bool, Fraction, float)) or T.is_z3(x)


def kind_of(x):
    if T.is_bool(x):
        return "b"
    if T.is_int(x):
        return "i"
    return "r"


PKG = "reliabilityassessment"


class Engine:
    def __init__(self, repo, registry, exclude=()):
        self.repo = repo
        self.registry = registry
        self.ghost = self.ghost_fn = None
        self.opaque_of, self.calls = {}, {}
        self.given = {}      # dictionaries of the caller, which stay as they are
        self.callees, self.inv_depth, self.loop_head, self.spec_env, self.loop_round = {}, 0, None, None, None
        self.exclude = set(exclude)     # contracts not used modularly (the one being proved)
        self.obls = []
        self.bufs = {}
        self.nbuf = 0
        self.st = State()
        self.modules = {}
        self.callstack = []
        self.loop_depth = 0
        self.inlined, self.modular = [], []
        self.nan_ok = False
        self.trace, self.trace_of, self.fs, self.base_path = [], (), {}, 0
        self.invariants, self.forget = {}, ()
        self.line = None
        self.deadline = None
        self.frames = []

    # ------------------------------------------------------------ modules
    def module(self, file):
        if file not in self.modules:
            src = open(os.path.join(self.repo, PKG, file), newline=None).read()
            tree = ast.parse(src)
            env = {}
            for s in tree.body:
                if isinstance(s, ast.FunctionDef):
                    env[s.name] = ("def", s)
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        nm = a.asname or a.name
                        if s.module and s.module.startswith(PKG + "."):
                            env[nm] = ("val", FuncRef(s.module[len(PKG) + 1:].replace(".", "/") + ".py", a.name))
                        else:
                            env[nm] = ("val", NpRef((s.module or "") + "." + a.name))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        env[(a.asname or a.name).split(".")[0]] = ("val", NpRef("np" if a.name == "numpy" else a.name))
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    env[s.targets[0].id] = ("expr", s.value)
            self.modules[file] = env
        return self.modules[file]

    def funcdef(self, file, func):
        e = self.module(file).get(func)
        if e is None:
            raise Unsupported(f"{file} has no {func}")
        if e[0] == "val" and isinstance(e[1], FuncRef):
            return self.funcdef(e[1].file, e[1].func)
        if e[0] != "def":
            raise Unsupported(f"{func} is not a function")
        return e[1]

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, kind="safety"):
        goal = T.lit(goal)
        if goal is True and kind in ("safety", "req"):
            return
        self.obls.append(Obl(name, kind, self.st.hyps(), goal, self.line))

    def assume(self, fact):
        fact = T.lit(fact)
        if fact is not True:
            self.st.facts += (T.to_z3(fact),)

    def decide(self, c, extra=()):
        """True/False when the quantifier-free path decides c at once, else None"""
        c = T.lit(c)
        if isinstance(c, bool):
            return c
        if not T.contains_bind(c):
            cs = T.lit(z3.simplify(c))
            if isinstance(cs, bool):
                return cs
        hyps = [h for h in self.st.hyps() + list(extra) if not T.contains_bind(h)]
        if T.contains_bind(c):
            return None
        s = z3.Solver()
        s.set("timeout", T.patient(150))
        for h in hyps:
            s.add(h)
        s.push()
        s.add(z3.Not(c))
        if s.check() == z3.unsat:
            return True
        s.pop()
        s.add(c)
        if s.check() == z3.unsat:
            return False
        return None

    def same(self, a, b):
        """are two integers certainly equal"""
        r = T.eqi(a, b)
        if isinstance(r, bool):
            return r
        return self.decide(r) is True

    # ------------------------------------------------------------ arrays
    def alloc(self, shape, kind, content, name="tmp", frozen=False):
        self.nbuf += 1
        b = Buf(self.nbuf, [T.lit(T.num(s)) for s in shape], kind, name, frozen=frozen)
        self.bufs[b.id] = b
        self.st.heap[b.id] = content
        return self.whole(b)

    def whole(self, b):
        return Arr(b, [("v", i, 0, 1) for i in range(len(b.shape))], b.shape)

    def reader(self, a):
        """content function of the view, frozen now"""
        if isinstance(a, SymArr):
            return a.content
        c = self.st.heap[a.buf.id]
        if a.is_full():
            return c
        return lambda *idx: c(*a.bidx(idx))

    def read(self, a, idx):
        return T.lit(self.st.heap[a.buf.id](*a.bidx(idx)))

    def conv(self, kind, v):
        if kind == "r":
            return T.real(v)
        if kind == "b":
            return T.boolish(v)
        v = T.arith(v)
        if T.is_real(v):
            v = T.trunc(v)
        return T.wrap32(v) if kind == "i32" else v

    def check_bounds(self, i, n, what="index within bounds"):
        i, n = T.lit(T.num(i)), T.lit(n)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int) and i < 0:
            i = T.add(n, i)
        self.oblige(what, T.And(T.cmp("<=", 0, i), T.cmp("<", i, n)))
        return T.lit(i)

    def slice(self, s, n):
        """-> (lo, length, step)"""
        step = 1 if s.step is None else self.scalar(self.ev(s.step))
        step = T.lit(step)
        if not isinstance(step, int) or step == 0:
            raise Unsupported("slice step")
        lo = None if s.lower is None else T.lit(self.scalar(self.ev(s.lower)))
        hi = None if s.upper is None else T.lit(self.scalar(self.ev(s.upper)))
        return self.slice_vals(lo, hi, step, n)

    def slice_vals(self, lo, hi, step, n):
        n = T.lit(n)
        if step < 0:
            if lo is None and hi is None and step == -1:
                return T.sub(n, 1), n, -1
            raise Unsupported("negative slice step")

        def clip(x, dflt):
            if x is None:
                return dflt
            if T.is_real(x):
                raise Unsupported("real slice bound")
            if isinstance(x, int) and x < 0:
                x = T.add(n, x)
                return x if self.decide(T.cmp(">=", x, 0)) else T.zmax(x, 0)
            if self.decide(T.cmp(">=", x, 0)) is not True:
                x = T.ite(T.cmp("<", x, 0), T.zmax(T.add(x, n), 0), x)
            if self.decide(T.cmp("<=", x, n)) is not True:
                x = T.zmin(x, n)
            return x
        lo, hi = clip(lo, 0), clip(hi, n)
        ln = T.sub(hi, lo)
        ln = T.lit(z3.simplify(ln)) if T.is_z3(ln) and not T.has_app(ln) else ln
        if self.decide(T.cmp(">=", ln, 0)) is not True:
            ln = T.zmax(ln, 0)
        if step != 1:
            ln = T.floordiv(T.add(ln, step - 1), step)
        return T.lit(lo), T.lit(ln), step

    def index_items(self, node):
        if isinstance(node, ast.Tuple):
            items = node.elts
        else:
            items = [node]
        out = []
        for it in items:
            if isinstance(it, ast.Slice):
                out.append(it)
            elif isinstance(it, ast.Constant) and it.value is None:
                out.append(None)
            elif isinstance(it, ast.Constant) and it.value is Ellipsis:
                raise Unsupported("ellipsis")
            elif isinstance(it, ast.Starred):
                raise Unsupported("starred index")
            else:
                v = self.ev(it)
                if isinstance(v, tuple) and len(items) == 1:
                    out += [self.np_index(x) for x in v]
                elif v is None:
                    out.append(None)
                else:
                    out.append(self.np_index(v))
        return out

    def np_index(self, v):
        if isinstance(v, (list, tuple)):
            return self.arr_of_list(list(v))
        if isinstance(v, Range):
            return self.seq_arr(self.to_seq(v))
        if isinstance(v, Arr) and v.ndim == 0:
            return self.read(v, ())
        if isinstance(v, float):
            raise Unsupported("real index")
        if is_scalar(v):
            if T.is_real(v) :
                raise Unsupported("real index")
            if T.is_bool(v):
                return T.arith(v)
            return v
        if isinstance(v, (Arr, Masked)):
            return v
        if isinstance(v, SymArr):
            raise Unsupported("symarr index")
        raise Unsupported("index of kind %s" % type(v).__name__)

    def split_index(self, a, items):
        """-> (list of per-axis entries, newaxis positions)  entries: ('i', e) ('s', lo, len, step) ('a', Arr) ('m', Masked)"""
        ent = []
        ax = 0
        for it in items:
            if it is None:
                ent.append(("n",))
                continue
            if isinstance(it, Arr) and it.kind == "b":
                for d in range(it.ndim):
                    if not self.same(it.shape[d], a.shape[ax + d]):
                        self.oblige("mask has the shape of the array", T.cmp("==", it.shape[d], a.shape[ax + d]))
                ent.append(("b", it))
                ax += it.ndim
                continue
            if ax >= a.ndim:
                raise Unsupported("too many indices")
            n = a.shape[ax]
            if isinstance(it, ast.Slice):
                ent.append(("s",) + self.slice(it, n))
            elif isinstance(it, Arr):
                ks = [T.fresh_int("ix") for _ in it.shape]
                v = self.read(it, ks)
                if T.is_real(v):
                    raise Unsupported("real index array")
                lits = self.literal_array(it)
                if lits is not None:
                    it2 = [T.add(n, x) if isinstance(x, int) and x < 0 else x for x in lits]
                    for x in it2:
                        self.oblige("index within bounds", T.And(T.cmp("<=", 0, x), T.cmp("<", x, n)))
                    it = self.alloc((len(it2),), "i", self.list_content(it2))
                else:
                    rng = [T.And(T.cmp("<=", 0, k), T.cmp("<", k, d)) for k, d in zip(ks, it.shape)]
                    g = T.Implies(T.And(*rng), T.And(T.cmp("<=", 0, v), T.cmp("<", v, n)))
                    self.oblige("index within bounds", z3.ForAll(ks, T.to_z3(g)) if not isinstance(T.lit(g), bool) else g)
                ent.append(("a", it))
            elif isinstance(it, Masked):
                ks = [T.fresh_int("ix") for _ in it.shape]
                if not it.pin or len(it.shape) != 1 or not self.same(it.shape[0], n):
                    rng = [T.And(T.cmp("<=", 0, k), T.cmp("<", k, d)) for k, d in zip(ks, it.shape)]
                    v = it.val(*ks)
                    g = T.Implies(T.And(*rng, it.mask(*ks)), T.And(T.cmp("<=", 0, v), T.cmp("<", v, n)))
                    self.oblige("index within bounds", z3.ForAll(ks, T.to_z3(g)) if not isinstance(T.lit(g), bool) else g)
                ent.append(("m", it))
            else:
                ent.append(("i", self.check_bounds(it, n)))
            ax += 1
        while ax < a.ndim:
            ent.append(("s", 0, a.shape[ax], 1))
            ax += 1
        return ent

    def literal_array(self, a):
        if a.ndim != 1 or not isinstance(a.shape[0], int) or a.shape[0] > 40:
            return None
        vals = [self.read(a, (j,)) for j in range(a.shape[0])]
        return vals

    def list_content(self, vals):
        def f(k):
            k = T.lit(k)
            if isinstance(k, int):
                return vals[k] if 0 <= k < len(vals) else vals[-1]
            r = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                r = T.ite(k == j, vals[j], r)
            return r
        return memo(f)

    def getitem(self, a, items):
        ent = self.split_index(a, items)
        tags = [e[0] for e in ent]
        if "b" in tags:
            return self.get_mask(a, ent)
        if "m" in tags:
            return self.get_masked_index(a, ent)
        if "a" in tags:
            return self.gather(a, ent)
        return self.view(a, ent)

    def view(self, a, ent):
        axmap = []       # per old view axis: ('f', e) | ('s', newaxis, lo, step)
        shape = []
        for e in ent:
            if e[0] == "n":
                shape.append(1)
            elif e[0] == "i":
                axmap.append(("f", e[1]))
            else:
                axmap.append(("s", len(shape), e[1], e[3]))
                shape.append(e[2])
        if not shape:
            return self.read(a, [m[1] for m in axmap])
        axes = []
        for x in a.axes:
            if x[0] == "f":
                axes.append(x)
                continue
            _, v, lo, step = x
            m = axmap[v]
            if m[0] == "f":
                axes.append(("f", T.add(lo, T.mul(step, m[1]))))
            else:
                axes.append(("v", m[1], T.add(lo, T.mul(step, m[2])), step * m[3]))
        return Arr(a.buf, axes, shape)

    def get_mask(self, a, ent):
        if len(ent) == 1:
            m = ent[0][1]
            return Masked(a.shape, self.reader(m), self.reader(a), a.kind)
        raise Unsupported("mask with other indices")

    def get_masked_index(self, a, ent):
        """A[I] with I a masked selection of positions: the values at these positions"""
        ms = [e[1] for e in ent if e[0] == "m"]
        if any(e[0] not in ("m", "i") for e in ent):
            raise Unsupported("masked index with slices")
        m0 = ms[0]
        for m in ms[1:]:
            if not self.same_mask(m, m0):
                raise Unsupported("index arrays with different selections")
        rd = self.reader(a)
        return Masked(m0.shape, m0.mask, memo(lambda *ks: rd(*[e[1].val(*ks) if e[0] == "m" else e[1] for e in ent])), a.kind)

    def same_mask(self, m, n):
        if m.mask is n.mask:
            return True
        if len(m.shape) != len(n.shape) or not all(self.same(x, y) for x, y in zip(m.shape, n.shape)):
            return False
        ks = [z3.Int("mk#%d" % i) for i in range(len(m.shape))]
        x, y = T.to_z3(m.mask(*ks)), T.to_z3(n.mask(*ks))
        if x.eq(y):
            return True
        if self.decide(x == y) is True:
            return True
        ks = [T.fresh_int("k") for _ in m.shape]
        rng = T.And(*[T.And(T.cmp("<=", 0, k), T.cmp("<", k, s)) for k, s in zip(ks, m.shape)])
        self.oblige("the selections are the same", T.Implies(rng, T.cmp("==", T.boolish(m.mask(*ks)), T.boolish(n.mask(*ks)))), "model")
        return True

    def gather(self, a, ent):
        adv = [n for n, e in enumerate(ent) if e[0] in ("a", "i")]
        arrs = [e[1] for e in ent if e[0] == "a"]
        bshape = self.bshape([x.shape for x in arrs])
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
        first = adv[0] if contiguous else 0
        rds = {n: self.bread(ent[n][1], bshape) for n in adv if ent[n][0] == "a"}
        shape, pos, slot = [], 0, {}
        placed = False
        order = []
        for n, e in enumerate(ent):
            if (contiguous and n == first or not contiguous and n == 0) and not placed:
                base = len(shape)
                shape += list(bshape)
                placed = True
            if e[0] == "s":
                slot[n] = len(shape)
                shape.append(e[2])
            elif e[0] == "n":
                shape.append(1)
        nb = len(bshape)
        rd = self.reader(a)

        def f(*idx):
            bi = idx[base:base + nb]
            out = []
            for n, e in enumerate(ent):
                if e[0] == "s":
                    out.append(T.add(e[1], T.mul(e[3], idx[slot[n]])))
                elif e[0] == "i":
                    out.append(e[1])
                elif e[0] == "a":
                    out.append(rds[n](*bi))
            return rd(*out)
        return self.alloc(shape, a.kind, memo(f), "gather")

    def bshape(self, shapes):
        """broadcast shape"""
        n = max(len(s) for s in shapes)
        out = []
        for d in range(n):
            dims = [s[len(s) - n + d] for s in shapes if len(s) - n + d >= 0]
            best = 1
            for x in dims:
                x = T.lit(x)
                if isinstance(x, int) and x == 1:
                    continue
                if isinstance(best, int) and best == 1:
                    best = x
                elif not self.same(best, x):
                    self.oblige("shapes agree", T.cmp("==", best, x))
                    if isinstance(x, int):
                        best = x
            out.append(best)
        return tuple(out)

    def bread(self, x, shape):
        """reader of x broadcast to shape"""
        if is_scalar(x):
            return lambda *idx: x
        rd = self.reader(x)
        n = len(x.shape)
        ones = [isinstance(T.lit(s), int) and T.lit(s) == 1 for s in x.shape]
        off = len(shape) - n
        if off == 0 and not any(ones):
            return rd

        def f(*idx):
            return rd(*[0 if ones[d] else idx[off + d] for d in range(n)])
        return f

    def setitem(self, a, items, val):
        if isinstance(a, SymArr) or a.buf.frozen:
            raise Unsupported("write to a merged or copied array")
        ent = self.split_index(a, items)
        tags = [e[0] for e in ent]
        if "n" in tags:
            raise Unsupported("newaxis in a target")
        if "b" in tags:
            return self.set_mask(a, ent, val)
        if "a" in tags or "m" in tags:
            return self.scatter(a, ent, val)
        tgt = self.view_arr(a, ent)
        self.store(tgt, val)

    def view_arr(self, a, ent):
        axmap, shape = [], []
        for e in ent:
            if e[0] == "i":
                axmap.append(("f", e[1]))
            else:
                axmap.append(("s", len(shape), e[1], e[3]))
                shape.append(e[2])
        axes = []
        for x in a.axes:
            if x[0] == "f":
                axes.append(x)
                continue
            _, v, lo, step = x
            m = axmap[v]
            if m[0] == "f":
                axes.append(("f", T.add(lo, T.mul(step, m[1]))))
            else:
                axes.append(("v", m[1], T.add(lo, T.mul(step, m[2])), step * m[3]))
        return Arr(a.buf, axes, shape)

    def as_arr(self, val):
        if isinstance(val, (list, tuple)):
            return self.arr_of_list(list(val))
        if isinstance(val, Range):
            return self.seq_arr(self.to_seq(val))
        if isinstance(val, Seq):
            return self.seq_arr(val)
        return val

    def inverse_idx(self, view, b):
        """buffer index -> (condition, view index)"""
        conds, vi = [], [None] * len(view.shape)
        for n, x in enumerate(view.axes):
            if x[0] == "f":
                conds.append(T.eqi(b[n], x[1]))
                continue
            _, v, lo, step = x
            ln = view.shape[v]
            full = T.lit(T.num(lo)) == 0 if not T.is_z3(T.lit(T.num(lo))) else False
            if full and step == 1 and self.same_dim(ln, view.buf.shape[n]):
                vi[v] = b[n]
                continue
            d = T.sub(b[n], lo)
            if step == 1:
                vi[v] = d
                conds += [T.cmp("<=", lo, b[n]), T.cmp("<", b[n], T.add(lo, ln))]
            elif step == -1:
                vi[v] = T.sub(lo, b[n])
                conds += [T.cmp("<=", b[n], lo), T.cmp("<", T.sub(lo, b[n]), ln)]
            else:
                vi[v] = T.floordiv(d, step)
                conds += [T.cmp("<=", lo, b[n]), T.cmp("<", T.floordiv(d, step), ln), T.cmp("==", T.mod(d, step), 0)]
        for v in range(len(vi)):
            if vi[v] is None:
                vi[v] = 0
        return T.And(*conds), tuple(vi)

    def same_dim(self, a, b):
        return self.same(a, b)

    def store(self, view, val):
        val = self.as_arr(val)
        if isinstance(val, (Opaque, Poison)):
            raise Unsupported("opaque value stored in an array")
        if isinstance(val, Masked):
            raise Unsupported("selection stored in a slice")
        if view.buf.frozen:
            raise Unsupported("write to a merged array")
        old = self.st.heap[view.buf.id]
        kind = view.buf.kind
        if is_scalar(val):
            rd = lambda *idx: val
        else:
            shp = self.bshape([view.shape, val.shape])
            if len(shp) != len(view.shape):
                raise Unsupported("shape of the stored value")
            for x, y in zip(shp, view.shape):
                if not self.same(x, y):
                    self.oblige("shapes agree", T.cmp("==", x, y))
            rd = self.bread(val, view.shape)
        conv = self.conv
        eng = self

        def f(*b):
            c, vi = eng.inverse_idx(view, b)
            c = T.lit(c)
            if c is False:
                return old(*b)
            new = conv(kind, rd(*vi))
            if c is True:
                return new
            return T.ite(c, new, old(*b))
        self.st.heap[view.buf.id] = memo(f)

    def set_mask(self, a, ent, val):
        if len(ent) != 1:
            raise Unsupported("mask with other indices")
        m = Masked(a.shape, self.reader(ent[0][1]), self.reader(a), a.kind)
        self.store_masked(a, m, val)

    def store_masked(self, a, m, val):
        """a[m] = val; m selects over the shape of a"""
        old = self.st.heap[a.buf.id]
        kind = a.buf.kind
        if a.buf.frozen:
            raise Unsupported("write to a merged array")
        if isinstance(val, Masked):
            if not self.same_mask(val, m):
                raise Unsupported("values selected by another mask")
            rd = val.val
        elif is_scalar(val):
            rd = lambda *idx: val
        else:
            raise Unsupported("array stored through a mask")

        def f(*b):
            c, vi = self.inverse_idx(a, b)
            c = T.And(c, m.mask(*vi))
            if T.lit(c) is False:
                return old(*b)
            return T.ite(c, self.conv(kind, rd(*vi)), old(*b))
        self.st.heap[a.buf.id] = memo(f)

    def scatter(self, a, ent, val, combine=None):
        """a[I, ...] = val (last writer wins) or, with combine, np.add.at"""
        old = self.st.heap[a.buf.id]
        kind = a.buf.kind
        if a.buf.frozen:
            raise Unsupported("write to a merged array")
        ms = [e[1] for e in ent if e[0] == "m"]
        if ms:
            m0 = ms[0]
            if len(m0.shape) != 1 or any(not self.same_mask(m, m0) for m in ms[1:]) or any(e[0] == "a" for e in ent):
                raise Unsupported("scatter through several selections")
            K, mask = m0.shape, m0.mask
        else:
            K = self.bshape([e[1].shape for e in ent if e[0] == "a"])
            mask = lambda *k: True
        if len(K) != 1:
            raise Unsupported("scatter through a matrix of positions")
        n = K[0]
        rds = []
        nsl = 0
        advpos = [i for i, e in enumerate(ent) if e[0] in ("a", "i", "m")]
        contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        first = advpos[0] if contiguous else 0
        slices_before = sum(1 for e in ent[:first] if e[0] == "s")
        for e in ent:
            rds.append(self.bread(e[1], K) if e[0] == "a" else e[1].val if e[0] == "m" else None)
        sl = [(i, e) for i, e in enumerate(ent) if e[0] == "s"]
        val = self.as_arr(val)
        if isinstance(val, Masked):
            if not ms or not self.same_mask(val, ms[0]) or sl:
                raise Unsupported("values selected by another mask")
            vrd = lambda k, s: val.val(k)
        elif is_scalar(val):
            vrd = lambda k, s: val
        else:
            if ms:
                raise Unsupported("array scattered through a selection")
            tshape = [e[2] for _, e in sl]
            tshape[slices_before:slices_before] = [n]
            shp = self.bshape([tuple(tshape), val.shape])
            for x, y in zip(shp, tshape):
                if not self.same(x, y):
                    self.oblige("shapes agree", T.cmp("==", x, y))
            brd = self.bread(val, tuple(tshape))

            def vrd(k, s):
                s = list(s)
                s[slices_before:slices_before] = [k]
                return brd(*s)
        nview = len(ent)

        def f(*b):
            # view index of the buffer cell
            c0, vi = self.inverse_idx(a, b)
            if T.lit(c0) is False:
                return old(*b)
            sc, sv = [], []
            for i, e in sl:
                lo, ln, step = e[1], e[2], e[3]
                if T.lit(T.num(lo)) == 0 if not T.is_z3(lo) else False:
                    if step == 1 and self.same(ln, a.shape[i]):
                        sv.append(vi[i])
                        continue
                if step != 1:
                    d = T.sub(vi[i], lo)
                    sv.append(T.floordiv(d, step))
                    sc += [T.cmp("<=", lo, vi[i]), T.cmp("==", T.mod(d, step), 0), T.cmp("<", T.floordiv(d, step), ln)]
                else:
                    sv.append(T.sub(vi[i], lo))
                    sc += [T.cmp("<=", lo, vi[i]), T.cmp("<", vi[i], T.add(lo, ln))]
            hit = lambda k: T.And(mask(k), *[T.eqi(rds[i](k), vi[i]) if ent[i][0] != "i" else T.eqi(ent[i][1], vi[i])
                                            for i in advpos])
            c1 = T.And(c0, *sc)
            if combine is not None:
                add = T.Sum(0, n, lambda k: T.ite(hit(k), vrd(k, sv), 0 if kind != "r" else Fraction(0)))
                new = self.conv(kind, combine(old(*b), add))
                return T.ite(c1, new, old(*b))
            j = T.Last(0, n, hit)
            jl = T.lit(j)
            if isinstance(jl, int):
                if jl < 0:
                    return old(*b)
                return T.ite(c1, self.conv(kind, vrd(jl, sv)), old(*b))
            # Last over a pinned index comes back as ite(c, e, -1)
            if z3.is_app_of(j, z3.Z3_OP_ITE) and T.lit(j.arg(2)) == -1:
                return T.ite(T.And(c1, j.arg(0)), self.conv(kind, vrd(T.lit(j.arg(1)), sv)), old(*b))
            return T.ite(T.And(c1, T.cmp(">=", j, 0)), self.conv(kind, vrd(j, sv)), old(*b))
        self.st.heap[a.buf.id] = memo(f)

    # ------------------------------------------------------------ elementwise
    def elem(self, fn, *xs, kind=None, name="elem"):
        """apply a scalar function elementwise; fn may use self.ob_elem for definedness"""
        xs = [self.as_arr(x) for x in xs]
        ms = [x for x in xs if isinstance(x, Masked)]
        if ms:
            m0 = ms[0]
            for m in ms[1:]:
                if not self.same_mask(m, m0):
                    raise Unsupported("selections by different masks")
            if any(isinstance(x, Arr) and x.ndim for x in xs):
                raise Unsupported("selection with an array")
            val = memo(lambda *ks: fn(*[x.val(*ks) if isinstance(x, Masked) else x for x in xs]))
            ks = [T.fresh_int("e") for _ in m0.shape]
            k = kind or kind_of(val(*ks))
            return Masked(m0.shape, m0.mask, val, k)
        arrs = [x for x in xs if not is_scalar(x)]
        for x in arrs:
            if not isinstance(x, (Arr, SymArr)):
                raise Unsupported("elementwise on %s" % type(x).__name__)
        shape = self.bshape([x.shape for x in arrs])
        rds = [self.bread(x, shape) for x in xs]
        content = memo(lambda *idx: fn(*[r(*idx) for r in rds]))
        if kind is None:
            ks = [T.fresh_int("e") for _ in shape]
            kind = kind_of(content(*ks))
        return self.alloc(shape, kind, content, name)

    def elem_oblige(self, name, shape_src, cond, *xs):
        """cond at every element"""
        xs = [self.as_arr(x) for x in xs]
        ms = [x for x in xs if isinstance(x, Masked)]
        if all(is_scalar(x) for x in xs):
            return self.oblige(name, cond(*xs))
        if ms:
            shape = ms[0].shape
            ks = [T.fresh_int("e") for _ in shape]
            vals = [x.val(*ks) if isinstance(x, Masked) else x for x in xs]
            g = T.And(*[T.And(T.cmp("<=", 0, k), T.cmp("<", k, n)) for k, n in zip(ks, shape)], ms[0].mask(*ks))
        else:
            shape = self.bshape([x.shape for x in xs if not is_scalar(x)])
            ks = [T.fresh_int("e") for _ in shape]
            vals = [self.bread(x, shape)(*ks) for x in xs]
            g = T.And(*[T.And(T.cmp("<=", 0, k), T.cmp("<", k, n)) for k, n in zip(ks, shape)])
        c = T.lit(T.Implies(g, cond(*vals)))
        if isinstance(c, bool):
            return self.oblige(name, c)
        # a condition without the indices needs no quantifier
        self.oblige(name, z3.ForAll(ks, c) if any(T.contains(c, k) for k in ks) else c)

    # ------------------------------------------------------------ scalars
    def scalar(self, v):
        if isinstance(v, Maybe):
            self.oblige("variable is defined", v.cond)
            return self.scalar(v.val)
        if isinstance(v, float):
            return T.num(v)
        if is_scalar(v):
            return v
        if isinstance(v, Arr) and v.ndim == 0:
            return self.read(v, ())
        if isinstance(v, Arr) and all(isinstance(s, int) and s == 1 for s in v.shape):
            return self.read(v, (0,) * v.ndim)
        raise Unsupported("number expected, got %s" % type(v).__name__)

    def truth(self, v):
        if isinstance(v, Maybe):
            self.oblige("variable is defined", v.cond)
            v = v.val
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (list, tuple, dict, set)):
            return bool(v)
        if isinstance(v, (Opaque, Poison)):
            raise Unsupported("truth of an opaque value")
        if isinstance(v, Masked):
            raise Unsupported("truth of a selection")
        if isinstance(v, Arr) and v.ndim and not all(isinstance(s, int) and s == 1 for s in v.shape):
            raise Unsupported("truth of an array")
        return T.boolish(self.scalar(v))

    OPS = {ast.Add: T.add, ast.Sub: T.sub, ast.Mult: T.mul}

    def binop(self, op, a, b):
        if isinstance(a, Maybe):
            a = self.force(a)
        if isinstance(b, Maybe):
            b = self.force(b)
        if isinstance(a, (Opaque, str)) or isinstance(b, (Opaque, str)):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            return Opaque("string")
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("untracked value used")
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if isinstance(op, ast.Add) and type(a) is type(b):
                return a + b
            if isinstance(op, ast.Mult):
                l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
                if isinstance(n, int):
                    return l * n
                if len(l) == 1 and is_scalar(n):
                    return self.alloc((n,), kind_of(l[0]), lambda *k: l[0], "list")
            if not isinstance(a, Arr) and not isinstance(b, Arr):
                raise Unsupported("list arithmetic")
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b)
        sc = is_scalar(a) and is_scalar(b)
        if isinstance(op, ast.Div):
            self.elem_oblige("divisor is not zero", None, lambda y: T.cmp("!=", y, 0), b)
            f = lambda x, y: T.div(x, y)
        elif isinstance(op, ast.FloorDiv) or isinstance(op, ast.Mod):
            g = T.floordiv if isinstance(op, ast.FloorDiv) else T.mod
            self.elem_oblige("divisor is positive", None, lambda y: T.cmp(">", y, 0), b)
            f = lambda x, y: g(x, y)
        elif isinstance(op, ast.Pow):
            return self.power(a, b)
        elif isinstance(op, (ast.BitAnd, ast.BitOr)):
            g = T.And if isinstance(op, ast.BitAnd) else T.Or

            def f(x, y):
                if not (T.is_bool(x) and T.is_bool(y)):
                    raise Unsupported("bit operations on numbers")
                return g(x, y)
        elif type(op) in self.OPS:
            g = self.OPS[type(op)]

            def f(x, y):
                return g(x, y)
        else:
            raise Unsupported("operator %s" % type(op).__name__)
        if sc:
            return T.lit(f(a, b))
        if not isinstance(op, (ast.Div, ast.BitAnd, ast.BitOr)) and self.wraps(a, b):
            return self.elem(lambda x, y: T.wrap32(f(x, y)), a, b, kind="i32")
        return self.elem(f, a, b)

    @staticmethod
    def wraps(a, b):
        """numpy keeps int32 for int32 array (op) int32 array or small number"""
        if not any(isinstance(x, (Arr, Masked)) and x.kind == "i32" for x in (a, b)):
            return False
        for x in (a, b):
            if isinstance(x, (Arr, Masked)):
                if x.kind not in ("i32", "b"):
                    return False
            elif T.is_real(x):
                return False
            elif isinstance(x, int) and not isinstance(x, bool):
                if not -2**31 <= x < 2**31:
                    return False
            elif T.is_z3(x) and z3.is_int(x):
                raise Unsupported("int32 array with a number of unknown size")
        return True

    def sqrt(self, x):
        x = T.real(x)
        if not self.nan_ok:     # otherwise: some unspecified value, as numpy's nan
            self.oblige("square root of a non-negative number", T.cmp(">=", x, 0))
        return Sqrt(T.to_z3(x))

    def power(self, a, b):
        b = T.lit(b)
        if isinstance(b, Fraction) and b == Fraction(1, 2):
            if is_scalar(a):
                return self.sqrt(a)
            raise Unsupported("root of an array")
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int) and 0 <= b <= 4:
            def f(x):
                r = 1
                for _ in range(b):
                    r = T.mul(r, x)
                return r
            return f(a) if is_scalar(a) else self.elem(f, a)
        if isinstance(a, int) and isinstance(b, int):
            return Fraction(a) ** b if b < 0 else a ** b
        raise Unsupported("power")

    def compare(self, op, a, b):
        if isinstance(a, Maybe):
            a = self.force(a)
        if isinstance(b, Maybe):
            b = self.force(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None or a is None or isinstance(a, bool) or isinstance(b, bool):
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    raise Unsupported("identity of an opaque value")
                r = a is b
                return r if isinstance(op, ast.Is) else not r
            if isinstance(a, NpRef) and isinstance(b, NpRef):
                return (a.path == b.path) == isinstance(op, ast.Is)
            raise Unsupported("identity")
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (list, tuple, set)) and all(is_scalar(x) for x in b) and is_scalar(a):
                r = T.Or(*[T.cmp("==", a, x) for x in b])
                return r if isinstance(op, ast.In) else T.Not(r)
            if isinstance(b, Range) and is_scalar(a) and b.step == 1:
                r = T.And(T.cmp("<=", b.lo, a), T.cmp("<", a, b.hi))
                return r if isinstance(op, ast.In) else T.Not(r)
            raise Unsupported("membership")
        s = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        if isinstance(a, str) and isinstance(b, str):
            return (a == b) if s == "==" else (a != b)
        if isinstance(a, (Opaque, Poison, str)) or isinstance(b, (Opaque, Poison, str)):
            raise Unsupported("comparison of opaque values")
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not isinstance(a, Arr):
            if len(a) != len(b):
                return s == "!="
            r = T.And(*[self.compare(ast.Eq(), x, y) for x, y in zip(a, b)])
            return r if s == "==" else T.Not(r)
        if is_scalar(a) and is_scalar(b):
            return T.lit(T.cmp(s, a, b))
        if a is None or b is None:
            return s == "!="
        return self.elem(lambda x, y: T.cmp(s, x, y), a, b, kind="b")

    def force(self, v):
        if isinstance(v, Maybe):
            self.oblige("variable is defined", v.cond)
            return v.val
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        self.line = getattr(n, "lineno", self.line)
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n)

    def ev_Constant(self, n):
        v = n.value
        if isinstance(v, float):
            return T.num(v)
        if isinstance(v, (int, bool, str, type(None), bytes)):
            return v
        raise Unsupported("constant")

    def ev_Name(self, n):
        v = self.st.vars.get(n.id, UNDEF)
        if v is UNDEF:
            if n.id in self.frames[-1].get("locals", ()):
                raise Unsupported("possibly undefined variable %s" % n.id)
            e = self.module(self.frames[-1]["file"]).get(n.id)
            if e is not None:
                if e[0] == "def":
                    return FuncRef(self.frames[-1]["file"], n.id)
                if e[0] == "expr":
                    return self.ev(e[1])
                return e[1]
            return NpRef("builtins." + n.id)
        if isinstance(v, Poison):
            raise Unsupported("untracked value %s: %s" % (n.id, v.why))
        if isinstance(v, Maybe):
            return self.force(v)
        return v

    def ev_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return T.Not(self.truth(v))
        if isinstance(n.op, ast.USub):
            if is_scalar(v):
                return T.lit(T.neg(v))
            return self.elem(lambda x: T.neg(x), v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Arr) and v.kind == "b":
                return self.elem(lambda x: T.Not(x), v, kind="b")
            raise Unsupported("~")
        raise Unsupported("unary")

    def ev_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(n.op, a, b)

    def ev_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        saved = self.st.path
        vals = []
        try:
            for x in n.values:
                v = self.ev(x)
                vals.append(v)
                if x is n.values[-1]:
                    break
                t = T.lit(self.truth(v))
                if isinstance(t, bool):
                    if t != isand:
                        break
                    vals.pop() if len(n.values) > 1 else None
                    continue
                self.st.path += (T.to_z3(t if isand else T.Not(t)),)
        finally:
            self.st.path = saved
        if len(vals) == 1:
            return vals[0]
        ts = [self.truth(v) for v in vals]
        if all(T.is_bool(v) for v in vals):
            return T.And(*ts) if isand else T.Or(*ts)
        r = vals[-1]
        for v, t in reversed(list(zip(vals[:-1], ts[:-1]))):
            r = T.ite(t, r, v) if isand else T.ite(t, v, r)
        return r

    def ev_Compare(self, n):
        left = self.ev(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return T.And(*[self.truth(x) for x in out])

    def ev_IfExp(self, n):
        c = T.lit(self.truth(self.ev(n.test)))
        d = self.decide(c)
        if d is True:
            return self.ev(n.body)
        if d is False:
            return self.ev(n.orelse)
        saved = self.st.path
        self.st.path = saved + (T.to_z3(c),)
        a = self.ev(n.body)
        self.st.path = saved + (z3.Not(c),)
        b = self.ev(n.orelse)
        self.st.path = saved
        return self.merge_val(c, a, b)

    def ev_Tuple(self, n):
        return tuple(self.ev_list(n.elts))

    def ev_List(self, n):
        return self.ev_list(n.elts)

    def ev_list(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += list(self.iter_concrete(self.ev(e.value)))
            else:
                out.append(self.ev(e))
        return out

    def ev_Set(self, n):
        return [self.ev(e) for e in n.elts]

    def ev_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            k = self.ev(k)
            if not isinstance(k, (str, int, tuple)):
                raise Unsupported("dictionary key")
            d[k] = self.ev(v)
        return d

    def ev_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                try:
                    self.ev(v.value)
                except Unsupported:
                    raise
        return Opaque("string")

    def ev_Subscript(self, n):
        base = self.ev(n.value)
        return self.subscript(base, n.slice)

    def subscript(self, base, sl):
        base = self.force(base)
        if isinstance(base, Opaque):
            return Opaque(base.tag + "[]")
        if isinstance(base, Ranks):
            k = self.scalar(self.ev(sl))
            self.oblige("the key is known", base.uniq.has(k))
            return base.number(k)
        if isinstance(base, dict):
            k = self.ev(sl)
            if not isinstance(k, (str, int, tuple)):
                raise Unsupported("dictionary key")
            if k not in base:
                raise Unsupported("missing key %r" % (k,))
            return base[k]
        if isinstance(base, (list, tuple, str)):
            if isinstance(sl, ast.Slice):
                lo = None if sl.lower is None else T.lit(self.scalar(self.ev(sl.lower)))
                hi = None if sl.upper is None else T.lit(self.scalar(self.ev(sl.upper)))
                if sl.step is not None or not all(x is None or isinstance(x, int) for x in (lo, hi)):
                    raise Unsupported("list slice")
                return base[lo:hi]
            k = self.ev(sl)
            k = T.lit(k) if is_scalar(k) else k
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if not -len(base) <= k < len(base):
                    self.oblige("index within bounds", False)
                    raise Unsupported("list index")
                return base[k]
            if is_scalar(k) and all(is_scalar(x) for x in base):
                k = self.check_bounds(k, len(base))
                return self.list_content(list(base))(k)
            raise Unsupported("list index")
        if isinstance(base, Masked):
            k = T.lit(self.scalar(self.ev(sl)))
            if len(base.shape) != 1 or k not in (0, -1):
                raise Unsupported("position in a selection")
            n = base.shape[0]
            j = T.First(0, n, base.mask) if k == 0 else T.Last(0, n, base.mask)
            self.oblige("selection is not empty", T.cmp("<", j, n) if k == 0 else T.cmp(">=", j, 0))
            return base.val(j)
        if isinstance(base, Range):
            seq = self.to_seq(base)
            k = T.lit(self.scalar(self.ev(sl)))
            n = T.sub(seq.levels[0][1], seq.levels[0][0])
            k = self.check_bounds(k, n)
            return seq.elem(T.add(seq.levels[0][0], k))
        if isinstance(base, Arr):
            return self.getitem(base, self.index_items(sl))
        raise Unsupported("subscript of %s" % type(base).__name__)

    def ev_Attribute(self, n):
        v = self.ev(n.value)
        if isinstance(v, NpRef):
            return NpRef(v.path + "." + n.attr)
        if isinstance(v, Opaque):
            return Method(v, n.attr)
        if isinstance(v, (Arr, Masked)):
            if n.attr == "shape":
                if isinstance(v, Masked):
                    raise Unsupported("shape of a selection")
                return tuple(v.shape)
            if n.attr == "size":
                if isinstance(v, Masked):
                    return self.masked_count(v)
                r = 1
                for s in v.shape:
                    r = T.mul(r, s)
                return r
            if n.attr == "ndim":
                return len(v.shape)
            if n.attr == "T":
                return self.transpose(v)
            if n.attr == "dtype":
                return Opaque("dtype")
        return Method(v, n.attr)

    def transpose(self, v):
        nd = v.ndim
        return Arr(v.buf, [x if x[0] == "f" else ("v", nd - 1 - x[1], x[2], x[3]) for x in v.axes], tuple(reversed(v.shape)))

    def ev_ListComp(self, n):
        return self.comp(n, aslist=True)

    def ev_GeneratorExp(self, n):
        return self.comp(n, aslist=False)

    def comp(self, n, aslist):
        if len(n.generators) != 1:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        it = self.ev(g.iter)
        conc = self.try_concrete(it)
        saved = dict(self.st.vars)
        try:
            if conc is not None:
                out, sym = [], False
                for x in conc:
                    self.assign(g.target, x)
                    c = T.And(*[self.truth(self.ev(i)) for i in g.ifs])
                    d = self.decide(c)
                    if d is False:
                        continue
                    if d is None:
                        sym = True
                        break
                    out.append(self.ev(n.elt))
                if not sym:
                    return out
                if len(conc) == 0:
                    return []
            seq = self.to_seq(it)
            # values as functions of the position
            ks = [T.fresh_int("c") for _ in seq.levels]
            rng = [T.And(T.cmp("<=", lo, k), T.cmp("<", k, hi)) for k, (lo, hi) in zip(ks, seq.levels)]
            path = self.st.path
            self.st.path = path + tuple(T.to_z3(x) for x in rng + [seq.guard(*ks)] if T.lit(x) is not True)
            nob = len(self.obls)
            self.assign(g.target, seq.elem(*ks))
            c = T.And(*[self.truth(self.ev(i)) for i in g.ifs])
            self.st.path += (T.to_z3(c),)
            val = self.ev(n.elt)
            self.st.path = path
            if not is_scalar(val):
                raise Unsupported("comprehension of arrays")
            cz, vz = T.to_z3(c), T.to_z3(val)
            cf, vf = template(ks, cz), template(ks, vz)
            guard = lambda *i: T.And(seq.guard(*i), cf(*i))
            r = Seq(seq.levels, guard if g.ifs else seq.guard, vf)
            r.kind = kind_of(val)
            if aslist and len(seq.levels) == 1 and not g.ifs and T.lit(seq.guard(*ks)) is True:
                return self.seq_arr(r)
            return r
        finally:
            self.st.vars = saved

    def ev_Lambda(self, n):
        raise Unsupported("lambda")

    def ev_Starred(self, n):
        raise Unsupported("starred")

    # ------------------------------------------------------------ iterables
    def to_seq(self, it):
        it = self.force(it)
        if isinstance(it, Seq):
            return it
        if isinstance(it, Range):
            if it.step == 1:
                return Seq([(it.lo, it.hi)], lambda k: True, lambda k: k)
            st = it.step
            if st > 0:
                n = T.floordiv(T.add(T.sub(it.hi, it.lo), st - 1), st)
            else:
                n = T.floordiv(T.add(T.sub(it.lo, it.hi), -st - 1), -st)
            return Seq([(0, T.zmax(n, 0))], lambda k: True, lambda k: T.add(it.lo, T.mul(st, k)))
        if isinstance(it, Arr):
            if it.ndim == 1:
                rd = self.reader(it)
                s = Seq([(0, it.shape[0])], lambda k: True, lambda k: T.lit(rd(k)))
                s.kind = it.kind
                return s
            return Seq([(0, it.shape[0])], lambda k: True, lambda k: self.view(it, [("i", k)] + [("s", 0, d, 1) for d in it.shape[1:]]))
        if isinstance(it, Masked):
            s = Seq([(0, n) for n in it.shape], it.mask, it.val)
            s.kind = it.kind
            return s
        if isinstance(it, (list, tuple)):
            return Seq([(0, len(it))], lambda k: True, self.list_content(list(it)))
        raise Unsupported("iteration over %s" % type(it).__name__)

    def seq_arr(self, s):
        if len(s.levels) != 1:
            raise Unsupported("array of a nested sequence")
        lo, hi = s.levels[0]
        k = T.fresh_int("c")
        if T.lit(s.guard(k)) is not True:
            raise Unsupported("array of a guarded sequence")
        kind = getattr(s, "kind", None) or kind_of(s.elem(k))
        n = T.sub(hi, lo)
        if self.decide(T.cmp(">=", n, 0)) is not True:
            n = T.zmax(n, 0)
        return self.alloc((n,), kind, memo(lambda i: s.elem(T.add(lo, i))), "list")

    def try_concrete(self, it, limit=64):
        """list of elements, or None when the number of elements is symbolic or large"""
        it = self.force(it)
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, dict):
            return list(it)
        if isinstance(it, Range):
            lo, hi = T.lit(T.num(it.lo)), T.lit(T.num(it.hi))
            if isinstance(lo, int) and isinstance(hi, int):
                r = range(lo, hi, it.step)
                return list(r) if len(r) <= limit else None
        if isinstance(it, Seq) and len(it.levels) == 1:
            lo, hi = (T.lit(T.num(x)) for x in it.levels[0])
            if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= limit and \
                    all(T.lit(it.guard(k)) is True for k in range(lo, hi)):
                return [it.elem(k) for k in range(lo, hi)]
        if isinstance(it, Arr) and isinstance(it.shape[0], int) and it.shape[0] <= limit:
            s = self.to_seq(it)
            return [s.elem(k) for k in range(it.shape[0])]
        return None

    def iter_concrete(self, it):
        r = self.try_concrete(it)
        if r is None:
            raise Unsupported("unpacking a sequence of unknown length")
        return r

    def arr_of_list(self, l):
        if not l:
            return self.alloc((0,), "r", lambda k: Fraction(0), "list")
        if all(is_scalar(x) for x in l):
            ks = [kind_of(x) for x in l]
            kind = "r" if "r" in ks else "i" if "i" in ks else "b"
            vals = [self.conv(kind, x) for x in l]
            return self.alloc((len(l),), kind, self.list_content(vals), "list")
        rows = [self.as_arr(x) for x in l]
        if all(isinstance(x, Arr) for x in rows):
            shape = rows[0].shape
            for x in rows[1:]:
                if len(x.shape) != len(shape):
                    raise Unsupported("ragged list")
                for p, q in zip(x.shape, shape):
                    if not self.same(p, q):
                        raise Unsupported("ragged list")
            rds = [self.reader(x) for x in rows]
            kinds = [x.kind for x in rows]
            kind = "r" if "r" in kinds else kinds[0]

            def f(i, *rest):
                i = T.lit(i)
                if isinstance(i, int):
                    return self.conv(kind, rds[i](*rest))
                r = self.conv(kind, rds[-1](*rest))
                for j in range(len(rds) - 2, -1, -1):
                    r = T.ite(i == j, self.conv(kind, rds[j](*rest)), r)
                return r
            return self.alloc((len(rows),) + tuple(shape), kind, memo(f), "list")
        raise Unsupported("array of a mixed list")

    # ------------------------------------------------------------ reductions
    def masked_count(self, m):
        return self.nest_sum(m.shape, lambda *k: T.ite(m.mask(*k), 1, 0))

    def nest_sum(self, shape, f, pre=()):
        if not shape:
            return f(*pre)
        return T.Sum(0, shape[0], lambda k: self.nest_sum(shape[1:], f, pre + (k,)))

    def seq_sum(self, s, zero=0):
        def rec(levels, pre):
            if not levels:
                g = s.guard(*pre)
                v = T.arith(s.elem(*pre))
                return T.ite(g, v, 0)
            lo, hi = levels[0]
            return T.Sum(lo, hi, lambda k: rec(levels[1:], pre + (k,)))
        return rec(s.levels, ())

    def reduce_axis(self, a, axis, f, name, kind=None):
        """f(n, reader of the axis) for every remaining position"""
        axis = T.lit(axis)
        if axis < 0:
            axis += a.ndim
        rd = self.reader(a)
        n = a.shape[axis]
        shape = a.shape[:axis] + a.shape[axis + 1:]
        content = memo(lambda *idx: f(n, lambda k: rd(*idx[:axis], k, *idx[axis:])))
        if not shape:
            return T.lit(content())
        if kind is None:
            kind = kind_of(content(*[T.fresh_int("e") for _ in shape]))
        return self.alloc(shape, kind, content, name)

    def sum_(self, v, axis=None):
        v = self.as_arr(v) if not isinstance(v, (Masked, Seq)) else v
        if is_scalar(v):
            return v
        if isinstance(v, Masked):
            zero = Fraction(0) if v.kind == "r" else 0
            return self.nest_sum(v.shape, lambda *k: T.ite(v.mask(*k), T.arith(v.val(*k)), zero))
        if isinstance(v, Seq):
            return self.seq_sum(v)
        if axis is None:
            rd = self.reader(v)
            r = self.nest_sum(v.shape, lambda *k: T.arith(rd(*k)))
            return T.real(r) if v.kind == "r" else r
        r = self.reduce_axis(v, axis, lambda n, f: T.Sum(0, n, lambda k: T.arith(f(k))), "sum",
                             "r" if v.kind == "r" else "i")
        return r

    def matmul(self, a, b):
        a, b = self.as_arr(a), self.as_arr(b)
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            if is_scalar(a) or is_scalar(b):
                return self.binop(ast.Mult(), a, b)
            raise Unsupported("product of selections")
        ra, rb = self.reader(a), self.reader(b)
        na, nb = a.shape[-1], b.shape[0] if b.ndim == 1 else b.shape[-2]
        if not self.same(na, nb):
            self.oblige("shapes agree", T.cmp("==", na, nb))
        kind = "r" if "r" in (a.kind, b.kind) else "i"
        if a.ndim == 1 and b.ndim == 1:
            return T.Sum(0, na, lambda k: T.mul(ra(k), rb(k)))
        if a.ndim == 2 and b.ndim == 1:
            return self.alloc((a.shape[0],), kind, memo(lambda i: T.Sum(0, na, lambda k: T.mul(ra(i, k), rb(k)))), "dot")
        if a.ndim == 1 and b.ndim == 2:
            return self.alloc((b.shape[1],), kind, memo(lambda j: T.Sum(0, na, lambda k: T.mul(ra(k), rb(k, j)))), "dot")
        if a.ndim == 2 and b.ndim == 2:
            return self.alloc((a.shape[0], b.shape[1]), kind,
                              memo(lambda i, j: T.Sum(0, na, lambda k: T.mul(ra(i, k), rb(k, j)))), "dot")
        raise Unsupported("product of these dimensions")

    # ------------------------------------------------------------ calls
    def ev_Call(self, n):
        f = self.ev(n.func) if not isinstance(n.func, ast.Name) else self.ev_Name(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, Opaque):
                    args.append(v)
                else:
                    args += list(self.iter_concrete(v))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if not isinstance(d, dict):
                    raise Unsupported("**arguments")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        from pyvc import npmodel
        if isinstance(f, FuncRef):
            return self.call_func(f.file, f.func, args, kw)
        if isinstance(f, NpRef):
            return npmodel.call(self, f.path, args, kw)
        if isinstance(f, Method):
            return npmodel.method(self, f.obj, f.name, args, kw)
        raise Unsupported("call of %s" % type(f).__name__)

    def bind(self, fd, args, kw, file):
        a = fd.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg:
            raise Unsupported("variable arguments")
        d = {}
        if len(args) > len(names):
            self.oblige("call has the right number of arguments", False)
            raise Unsupported("too many arguments")
        for k, v in zip(names, args):
            d[k] = v
        for k, v in kw.items():
            if k in d or k not in names + [x.arg for x in a.kwonlyargs]:
                raise Unsupported("argument %s" % k)
            d[k] = v
        for k, e in zip(names[len(names) - len(a.defaults):], a.defaults):
            if k not in d:
                self.frames.append(dict(file=file, locals=()))
                saved = self.st.vars
                self.st.vars = {}
                try:
                    d[k] = self.ev(e)
                finally:
                    self.st.vars = saved
                    self.frames.pop()
        for x, e in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in d and e is not None:
                d[x.arg] = self.ev(e)
        for k in names:
            if k not in d:
                self.oblige("call has the right number of arguments", False)
                raise Unsupported("missing argument %s" % k)
        return d

    def contract_for(self, file, func):
        C = self.callees.get(func)
        if C is not None and C.file == file:
            return C
        for C in self.registry.values():
            if C.file == file and C.func == func and C.modular and not getattr(C, "scenario", False) \
                    and getattr(C, "symbolic", not hasattr(C, "call")) and C.__name__ not in self.exclude:
                return C
        return None

    def call_func(self, file, func, args, kw):
        e = self.module(file).get(func)
        if e is None:
            raise Unsupported("%s has no %s" % (file, func))
        if e[0] == "val" and isinstance(e[1], FuncRef):
            file, func = e[1].file, e[1].func
        fd = self.funcdef(file, func)
        vals = self.bind(fd, args, kw, file)
        C = self.contract_for(file, func)
        if C is not None:
            try:
                return self.call_modular(C, vals)
            except NotModular as e:
                pass
        if func in [f for _, f in self.callstack] and (file, func) in self.callstack:
            raise Unsupported("recursion")
        if len(self.callstack) > 12:
            raise Unsupported("call depth")
        tag = f"{file}:{func}"
        if tag not in self.inlined:
            self.inlined.append(tag)
        return self.inline(fd, file, vals)

    def inline(self, fd, file, vals):
        outs = self.run_body(fd, file, vals)
        caller = self.st
        rets = []
        for kind, s, v in outs:
            if kind == "ret":
                rets.append((s, v))
            elif kind == "raise":
                cur, self.st = self.st, s
                self.oblige("no exception raised", False)
                self.st = cur
        if not rets:
            # every path raises: nothing after the call is reached
            caller.path += (z3.BoolVal(False),)
            return None
        base = len(caller.path)
        fbase = len(caller.facts)
        if len(rets) == 1:
            s, v = rets[0]
        else:
            s, v = self.merge_states(base, fbase, rets)
        caller.heap, caller.path, caller.facts = s.heap, s.path, s.facts
        self.st = caller
        return v

    def run_body(self, fd, file, vals):
        """-> outcomes (ret|raise, state, value); the current state's heap is the starting heap"""
        caller = self.st
        st = State(dict(vals), dict(caller.heap), caller.path, caller.facts)
        self.frames.append(dict(file=file, locals=local_names(fd), loops=0, func=fd.name, fd=fd))
        self.callstack.append((file, fd.name))
        try:
            outs = self.block(fd.body, st)
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.st = caller
        res = []
        for kind, s, v in outs:
            if kind == "next":
                res.append(("ret", s, None))
            elif kind in ("ret", "raise"):
                res.append((kind, s, v))
            else:
                raise Unsupported("%s outside a loop" % kind)
        return res

    # ------------------------------------------------------------ modular calls
    def ns_value(self, v):
        v = self.force(v)
        if isinstance(v, Arr):
            return SymArr(v.shape, self.reader(v), v.kind)
        if isinstance(v, (list, tuple)) and all(is_scalar(x) for x in v):
            return self.ns_value(self.arr_of_list(list(v)))
        if isinstance(v, float):
            return T.num(v)
        return v

    def call_modular(self, C, vals):
        E = SymE()
        E.prefix = "%s!%d!" % (C.__name__, T.next_id())
        E.loop, E.top = self.loop_head, self.args_ns
        E.now, E.round = self.caller_value, self.loop_round
        if hasattr(C, "ghost") and self.ghost is not None and C.ghost is self.ghost_fn:
            E.ghost = self.ghost
        o = {}
        try:
            decl = list(C.args(SymE()))
        except Exception:
            raise NotModular()
        if C.exits:
            raise NotModular()
        if decl != list(vals):
            if set(decl) == set(vals):      # another order of the same parameters
                ren = {k: vals[k] for k in decl}
            elif len(decl) == len(vals) and all(a == b for a, b in zip(decl, vals) if a in vals or b in decl):
                ren = dict(zip(decl, vals.values()))    # some have other names
            else:
                raise NotModular()
        else:
            ren = vals
        for k, v in ren.items():
            if isinstance(v, (Masked, Seq, Range)):
                raise NotModular()
            o[k] = self.ns_value(v)
        ons = NS(o)
        saved = list(self.obls)
        if C.__name__ in self.trace_of:
            if self.loop_depth > self.inv_depth:
                raise Unsupported("traced call in a loop")
            self.trace.append((T.And(*self.st.path[self.base_path:]), dict(o), C.__name__))
        cond = T.And(*self.st.path[self.base_path:])
        try:
            for name, f in C.requires(E, ons):
                self.oblige(f"precondition of {C.func}: {name}", f, "req")
            if C.spec is None:
                if self.loop_depth:
                    raise Unsupported("call of %s (described by a relation) inside a loop" % C.func)
                res = C.result(E, ons)
                newns = NS({k: ons[k] for k in ren})
                if C.modifies:
                    raise NotModular()
                facts = [f for _, f in C.ensures(E, ons, newns, res)]
                mut = {}
            else:
                res, mut = C.spec(E, ons)
                facts = []
        except (NotModular, Unsupported):
            self.obls[:] = saved
            raise
        except AttributeError:
            if hasattr(C, "ghost") and E.ghost is None:
                self.obls[:] = saved
                raise NotModular()
            raise
        except Exception as e:
            self.obls[:] = saved
            raise Unsupported("contract of %s: %s" % (C.func, e))
        if C.__name__ in self.opaque_of:
            for f in E.facts + facts:
                self.assume(f)
            E.facts, facts = [], []
            res, mut = self.hide(C, E, ons, o, res, mut)
        elif C.__name__ in self.trace_of:
            self.calls.setdefault(C.__name__, []).append(NS(dict(cond=cond, args=NS(dict(o)), ret=res, mut=NS(mut))))
        if E.ghost is not None and hasattr(C, "ghost_after"):
            # proved in the callee's own verification
            facts += [f for n, f in C.lemmas(E, ons) if n.startswith("after: ")]
            if self.loop_depth > self.inv_depth:
                raise Unsupported("ghost state changed in a loop")
            self.ghost = NS(C.ghost_after(E, ons))
        for f in E.facts + facts:
            self.assume(f)
        for k, v in mut.items():
            tgt = ren[k]
            if isinstance(v, SymArr):
                if not isinstance(tgt, Arr):
                    raise Unsupported("changed argument is not an array")
                self.store(tgt, self.from_spec(v))
            else:
                raise Unsupported("changed scalar argument")
        if C.__name__ not in self.modular:
            self.modular.append(C.__name__)
        return self.from_spec(res)

    def caller_value(self, name):
        """a variable of the calling function, for contracts of callees that speak of it"""
        v = self.st.vars.get(name, UNDEF)
        v = v.val if isinstance(v, Maybe) else v
        if v is UNDEF or not (isinstance(v, Arr) or is_scalar(v)):
            raise Unsupported("the caller has no " + name)
        return self.ns_value(v)

    def hide(self, C, E, ons, o, res, mut):
        """the results as new symbols; what the caller may know of them is proved from the callee's specification first"""
        if self.loop_depth:
            raise Unsupported("call of %s in a loop" % C.func)
        n = len(self.calls.setdefault(C.__name__, []))

        def fresh(v, name):
            if isinstance(v, tuple):
                return tuple(fresh(x, name + "." + str(i)) for i, x in enumerate(v))
            if isinstance(v, SymArr):
                return E.arr(name, v.shape, v.kind)
            if T.is_z3(v) or is_scalar(v):
                return z3.Const(T.fresh_name(name), T.to_z3(v).sort())
            return v
        res2 = fresh(res, "result%d" % n)
        mut2 = {k: fresh(v, "%s%d" % (k, n)) for k, v in mut.items()}
        keep = self.opaque_of[C.__name__]
        if keep:
            for name, f in keep(E, ons, res, NS(mut)):
                self.oblige(f"{C.func}: {name}", f, "req")
            for _, f in keep(E, ons, res2, NS(mut2)):
                self.assume(T.lit(T.to_z3(f() if callable(f) and not T.is_z3(f) else f)))
        self.calls[C.__name__].append(NS(dict(cond=T.And(*self.st.path[self.base_path:]), args=NS(dict(o)), ret=res2, mut=NS(mut2))))
        return res2, mut2

    def from_spec(self, v):
        if isinstance(v, tuple):
            return tuple(self.from_spec(x) for x in v)
        if isinstance(v, SymArr):
            content = v.content
            tag = "any!%d" % T.next_id()
            anyf = {}

            def f(*idx):
                x = content(*idx)
                return self.spec_val(x, tag, idx, v.kind)
            return self.alloc(v.shape, v.kind, memo(f), "result")
        if v is ANY:
            return Opaque("any")
        if isinstance(v, Partial):
            raise Unsupported("unspecified result")
        return T.lit(v) if T.is_z3(v) else v

    def spec_val(self, x, tag, idx, kind):
        if x is ANY or isinstance(x, Partial):
            sort = {"r": z3.RealSort(), "b": z3.BoolSort()}.get(kind, z3.IntSort())
            u = z3.Function(tag, *([z3.IntSort()] * len(idx) + [sort]))(*[T.to_z3(i) for i in idx])
            if x is ANY:
                return u
            return T.ite(x.cond, self.conv(kind, x.val), u)
        return self.conv(kind, x)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> outcomes [(kind, state, value)] with at most one 'next'"""
        outs = []
        active = st
        for s in stmts:
            if active is None:
                break
            res = self.stmt(s, active)
            nxt = [x for x in res if x[0] == "next"]
            outs += [x for x in res if x[0] != "next"]
            if not nxt:
                active = None
            elif len(nxt) == 1:
                active = nxt[0][1]
            else:
                raise Unsupported("internal: several continuations")
        if active is not None:
            outs.append(("next", active, None))
        return outs

    def stmt(self, s, st):
        import time
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit")
        self.st = st
        self.line = getattr(s, "lineno", None)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        r = m(s, st)
        if r is None:
            return [("next", self.st, None)]
        return r

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return None
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "exit" and \
                isinstance(v.func.value, ast.Name) and v.func.value.id == "sys":
            return [("raise", st, "SystemExit")]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("exit", "quit"):
            return [("raise", st, "SystemExit")]
        self.ev(v)
        return None

    def st_Pass(self, s, st):
        return None

    def st_Import(self, s, st):
        for a in s.names:
            st.vars[(a.asname or a.name).split(".")[0]] = NpRef("np" if a.name == "numpy" else a.name)

    def st_ImportFrom(self, s, st):
        for a in s.names:
            nm = a.asname or a.name
            if s.module and s.module.startswith(PKG + "."):
                st.vars[nm] = FuncRef(s.module[len(PKG) + 1:].replace(".", "/") + ".py", a.name)
            else:
                st.vars[nm] = NpRef((s.module or "") + "." + a.name)

    def st_Return(self, s, st):
        v = None if s.value is None else self.ev(s.value)
        return [("ret", self.st, v)]

    def st_Raise(self, s, st):
        return [("raise", st, "exception")]

    def st_Break(self, s, st):
        return [("break", st, None)]

    def st_Continue(self, s, st):
        return [("cont", st, None)]

    def st_Assert(self, s, st):
        c = self.truth(self.ev(s.test))
        self.oblige("assertion holds", c)
        self.assume(c)

    def st_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.block(s.body, self.st)

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_Assign(self, s, st):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred target")
            vals = list(self.iter_concrete(v))
            if len(vals) != len(t.elts):
                self.oblige("unpacking has the right length", False)
                raise Unsupported("unpacking")
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            base = self.force(self.ev(t.value))
            if isinstance(base, Arr):
                v = self.force(v)
                self.setitem(base, self.index_items(t.slice), v)
            elif isinstance(base, Masked):
                raise Unsupported("assignment into a selection (a copy)")
            elif isinstance(base, list):
                k = T.lit(self.ev(t.slice))
                if not isinstance(k, int):
                    raise Unsupported("list assignment")
                raise Unsupported("list mutation")
            elif isinstance(base, dict):
                self.put(base, self.ev(t.slice), self.force(v))
            else:
                raise Unsupported("assignment into %s" % type(base).__name__)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def put(self, d, k, v):
        """an entry of a dictionary; dictionaries are shared by the branches, so only on the one path from the start"""
        if self.loop_depth or len(self.st.path) != self.base_path or id(d) in self.given or not isinstance(k, (str, int)):
            raise Unsupported("dictionary mutation")
        d[k] = v

    def st_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_Name(t)
            rhs = self.ev(s.value)
            if isinstance(cur, Arr):
                new = self.binop(s.op, cur, rhs)
                self.check_inplace(cur, new)
                self.store(cur, new)
            else:
                self.st.vars[t.id] = self.binop(s.op, cur, rhs)
            return None
        if isinstance(t, ast.Subscript):
            base = self.force(self.ev(t.value))
            if isinstance(base, dict):
                k = self.ev(t.slice)
                if k not in base:
                    raise Unsupported("missing key %r" % (k,))
                cur, rhs = self.force(base[k]), self.ev(s.value)
                new = self.binop(s.op, cur, rhs)
                if isinstance(cur, Arr):
                    self.check_inplace(cur, new)
                    self.store(cur, new)
                else:
                    self.put(base, k, new)
                return None
            if not isinstance(base, Arr):
                raise Unsupported("in-place change of %s" % type(base).__name__)
            items = self.index_items(t.slice)
            cur = self.getitem(base, items)
            rhs = self.ev(s.value)
            new = self.binop(s.op, cur, rhs)
            if isinstance(cur, (Arr, Masked)):
                self.check_inplace(cur, new)
            if isinstance(cur, Masked) and len(items) == 1 and isinstance(items[0], Arr) and items[0].kind == "b":
                self.store_masked(base, cur, new)
            else:
                nob = len(self.obls)
                self.setitem(base, items, new)
                del self.obls[nob:]      # the same bounds again
            return None
        raise Unsupported("in-place target")

    def check_inplace(self, cur, new):
        if isinstance(new, (Arr, Masked)) and cur.kind in ("i", "i32") and new.kind == "r":
            self.oblige("in-place result fits the array's type", False)

    def st_If(self, s, st):
        c = T.lit(self.truth(self.ev(s.test)))
        st = self.st
        d = self.decide(c)
        if d is True:
            return self.block(s.body, st)
        if d is False:
            return self.block(s.orelse, st)
        cz = T.to_z3(c)
        s1, s2 = st.copy(), st.copy()
        s1.path += (cz,)
        s2.path += (z3.Not(cz),)
        g0 = self.ghost
        o1 = self.block(s.body, s1)
        g1, self.ghost = self.ghost, g0
        o2 = self.block(s.orelse, s2)
        g2 = self.ghost
        outs = [x for x in o1 + o2 if x[0] != "next"]
        n1 = [x[1] for x in o1 if x[0] == "next"]
        n2 = [x[1] for x in o2 if x[0] == "next"]
        # the ghost state is a witness: whatever is chosen here, what is said of it later is proved
        self.ghost = self.merge_ghost(c, g1, g2) if n1 and n2 else g1 if n1 else g2 if n2 else g0
        if n1 and n2:
            m, _ = self.merge_states(len(st.path), len(st.facts), [(n1[0], None), (n2[0], None)])
            outs.append(("next", m, None))
        elif n1 or n2:
            outs.append(("next", (n1 or n2)[0], None))
        return outs

    # ------------------------------------------------------------ merging
    def merge_ghost(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k in a.__dict__:
            x, y = a[k], b[k]
            if isinstance(x, SymArr):
                out[k] = SymArr(tuple(T.ite(c, m, n) for m, n in zip(x.shape, y.shape)),
                                memo(lambda *i, x=x, y=y: T.ite(c, x[i], y[i])), x.kind)
            else:
                out[k] = T.ite(c, x, y)
        return NS(out)

    def path_cond(self, s, base):
        return T.And(*s.path[base:])

    def merge_states(self, base, fbase, pairs):
        """pairs (state, value) with disjoint path suffixes -> (state, value)"""
        acc, accv = pairs[-1]
        conds = [self.path_cond(s, base) for s, _ in pairs]
        facts = acc.facts[:fbase]
        everywhere = set.intersection(*[{id(f) for f in s.facts[fbase:]} for s, _ in pairs])
        facts += tuple(f for f in acc.facts[fbase:] if id(f) in everywhere)
        for (s, _), c in zip(pairs, conds):
            for f in s.facts[fbase:]:
                if id(f) not in everywhere:
                    facts += (T.to_z3(T.Implies(c, f)),)
        vars_, heap = dict(acc.vars), dict(acc.heap)
        cur = State(vars_, heap, acc.path[:base], facts)
        val = accv
        for (s, v), c in list(zip(pairs, conds))[-2::-1]:
            cur = self.merge2(c, s, cur)
            self.st = cur
            val = self.merge_val(c, v, val)
        tot = T.Or(*conds)
        if len(conds) == 2:
            a, b = T.to_z3(conds[0]), T.to_z3(conds[1])
            if any(z3.is_not(x) and x.arg(0).eq(y) for x, y in ((a, b), (b, a))):
                tot = True
        if T.lit(tot) is not True and not T.contains_bind(tot):
            tot = T.lit(z3.simplify(tot))
        if tot is not True:
            cur.path += (T.to_z3(tot),)
        cur.facts = facts
        self.st = cur
        return cur, val

    def merge2(self, c, a, b):
        heap = {}
        for k in set(a.heap) | set(b.heap):
            if k not in b.heap:
                heap[k] = a.heap[k]
            elif k not in a.heap or a.heap[k] is b.heap[k]:
                heap[k] = b.heap[k]
            else:
                heap[k] = self.merge_content(c, a.heap[k], b.heap[k])
        st = State({}, heap, b.path, b.facts)
        saved, self.st = self.st, st
        for k in set(a.vars) | set(b.vars):
            x, y = a.vars.get(k, UNDEF), b.vars.get(k, UNDEF)
            try:
                st.vars[k] = self.merge_val(c, x, y, (a, b))
            except Unsupported as e:
                st.vars[k] = Poison(str(e))
        self.st = saved
        return st

    def merge_content(self, c, f, g):
        def h(*idx):
            x, y = f(*idx), g(*idx)
            return T.ite(c, x, y)
        return memo(h)

    def merge_val(self, c, x, y, sts=None):
        if x is y:
            return x
        if x is UNDEF and y is UNDEF:
            return UNDEF
        if x is UNDEF:
            return Maybe(T.And(T.Not(c), y.cond), y.val) if isinstance(y, Maybe) else Maybe(T.Not(c), y)
        if y is UNDEF:
            return Maybe(T.And(c, x.cond), x.val) if isinstance(x, Maybe) else Maybe(c, x)
        if isinstance(x, Maybe) or isinstance(y, Maybe):
            cx, vx = (x.cond, x.val) if isinstance(x, Maybe) else (True, x)
            cy, vy = (y.cond, y.val) if isinstance(y, Maybe) else (True, y)
            return Maybe(T.And(T.Implies(c, cx), T.Implies(T.Not(c), cy)), self.merge_val(c, vx, vy, sts))
        if isinstance(x, Poison) or isinstance(y, Poison):
            return x if isinstance(x, Poison) else y
        if is_scalar(x) and is_scalar(y):
            return T.lit(T.ite(c, x, y))
        if isinstance(x, Arr) and is_scalar(y) and x.ndim == 0 or isinstance(y, Arr) and is_scalar(x) and y.ndim == 0:
            return T.ite(c, self.scalar(x), self.scalar(y))
        if isinstance(x, Arr) and isinstance(y, Arr):
            if x.buf is y.buf and x.axes == y.axes and len(x.shape) == len(y.shape) and all(
                    self.same(p, q) for p, q in zip(x.shape, y.shape)):
                return x
            if len(x.shape) != len(y.shape):
                return Poison("arrays of different dimensions")
            shape = []
            for p, q in zip(x.shape, y.shape):
                shape.append(p if self.same(p, q) else T.ite(c, p, q))
            ha, hb = (sts[0].heap, sts[1].heap) if sts else (self.st.heap, self.st.heap)
            fx, fy = ha[x.buf.id], hb[y.buf.id]
            rx = lambda *i: fx(*x.bidx(i))
            ry = lambda *i: fy(*y.bidx(i))
            kx, ky = x.kind, y.kind
            kind = kx if kx == ky else "r" if "r" in (kx, ky) else "i"
            return self.alloc(shape, kind, memo(lambda *i: self.conv(kind, T.ite(c, rx(*i), ry(*i)))), "merge", frozen=True)
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y) and type(x) is type(y):
            return type(x)(self.merge_val(c, p, q, sts) for p, q in zip(x, y))
        if isinstance(x, Opaque) and (isinstance(y, Opaque) or is_scalar(y)) or isinstance(y, Opaque) and is_scalar(x):
            return Opaque("merge")
        if isinstance(x, str) and isinstance(y, str):
            return x if x == y else Opaque("string")
        if isinstance(x, (NpRef, FuncRef)) and type(x) is type(y) and x.__dict__ == y.__dict__:
            return x
        return Poison("values of different kinds")

    # ------------------------------------------------------------ loops
    def st_For(self, s, st):
        from pyvc import loops
        return loops.for_loop(self, s, st)

    def st_While(self, s, st):
        from pyvc import loops
        return loops.while_loop(self, s, st)


class NotModular(Exception):
    pass


def local_names(fd):
    out = set()
    for n in ast.walk(fd):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out
