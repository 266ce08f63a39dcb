"""Symbolic reading of contracts: the environment E builds terms."""
from fractions import Fraction

import z3

from pyvc import terms as T
from pyvc.dsl import ANY
from pyvc.terms import Unsupported
from pyvc.vals import Opaque, Partial, memo

Lcg = z3.Function("Lcg", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
RngU = z3.Function("RngU", z3.IntSort(), z3.IntSort(), z3.RealSort())
Sqrt = z3.Function("Sqrt", z3.RealSort(), z3.RealSort())
_MA = z3.ArraySort(z3.IntSort(), z3.IntSort(), z3.RealSort())
InvF = z3.Function("Inv", z3.IntSort(), _MA, z3.IntSort(), z3.IntSort(), z3.RealSort())
InvertibleF = z3.Function("Invertible", z3.IntSort(), _MA, z3.BoolSort())
SORT = {"r": z3.RealSort, "i": z3.IntSort, "i32": z3.IntSort, "b": z3.BoolSort}


def v(x):
    return x() if callable(x) and not isinstance(x, (SymArr,)) else x


class SymArr:
    """array value on the specification side"""

    def __init__(self, shape, content, kind="r"):
        self.shape, self.content, self.kind = tuple(shape), content, kind

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        out = []
        for n, i in enumerate(idx):
            i = T.lit(T.num(i))
            if isinstance(i, bool):
                raise Unsupported("bool index")
            if isinstance(i, int) and i < 0:
                i = T.add(self.shape[n], i)
            out.append(i)
        if len(out) != len(self.shape):
            raise Unsupported("partial index in a specification")
        return unwrap(self.content(*out))

    def __len__(self):
        raise Unsupported("len in a specification")


def unwrap(x):
    """Python Fractions compare with z3 terms on either side; bare Fractions are fine too"""
    return x


def uf(name, shape, kind):
    n = len(shape)
    if n == 0:
        return z3.Const(name, SORT[kind]())
    return z3.Function(name, *([z3.IntSort()] * n + [SORT[kind]()]))


def matrix(n, f):
    i, j = z3.Int("mi#0"), z3.Int("mj#0")
    return z3.Lambda([i, j], T.to_z3(T.real(f(i, j))))


class SymE:
    sym = True
    scale = 1.0

    def __init__(self):
        self.facts = []
        self.loop = self.top = None
        self.ghost = None
        self.prefix = ""
        self.decls = {}

    # ---- declarations
    dims = {}

    def dim(self, name, min=0):
        if "*" in self.dims and name not in self.dims:
            k = max(min, self.dims["*"])
            self.decls[name] = ("dim", k)
            return k
        if name in self.dims:
            self.decls[name] = ("dim", self.dims[name])
            return self.dims[name]
        k = z3.Int(self.prefix + name)
        if name not in self.decls:
            self.decls[name] = ("dim", k)
            self.facts.append(k >= min)
        return k

    def int(self, x):
        if isinstance(x, str):
            k = z3.Int(self.prefix + x)
            self.decls[x] = ("int", k)
            return k
        return T.trunc(x)

    def quotient(self, c, x):
        """c / x, for x = d / y with numbers c and d as (c / d) y"""
        x = T.to_z3(T.real(x))
        if x.decl().kind() == z3.Z3_OP_DIV and not T.is_z3(T.lit(x.arg(0))) and T.lit(x.arg(0)) != 0:
            return T.mul(Fraction(c) / Fraction(T.lit(x.arg(0))), x.arg(1))
        return T.div(Fraction(c), x)

    def real_var(self, name):
        k = z3.Real(self.prefix + name)
        self.decls[name] = ("real", k)
        return k

    def opaque(self, name):
        return Opaque(name)

    def arr(self, name, shape, kind="r"):
        shape = tuple(T.lit(s) if T.is_z3(s) else s for s in shape)
        whole = kind == "ri"        # real cells that hold whole numbers
        f = uf(self.prefix + name, shape, "i" if whole else kind)
        self.decls[name] = ("arr", f, shape, kind[0])
        if whole:
            return SymArr(shape, lambda *idx: z3.ToReal(f(*[T.to_z3(i) for i in idx]) if shape else f), "r")
        if not shape:
            return SymArr((), lambda: f, kind)
        return SymArr(shape, lambda *idx: f(*[T.to_z3(i) for i in idx]), kind)

    # ---- values
    def fn(self, shape, f, kind="r"):
        return SymArr(tuple(T.lit(s) if T.is_z3(s) else s for s in shape), memo(f), kind)

    def any(self):
        return ANY

    def lit(self, s):
        return T.to_z3(Fraction(s))

    def lcg(self, seed, mult, mod, k):
        return Lcg(T.to_z3(seed), T.to_z3(mult), T.to_z3(mod), T.to_z3(k))

    def powmod(self, base, n, m):
        return Lcg(T.to_z3(1), T.to_z3(base), T.to_z3(m), T.to_z3(n))

    def rng_uniform(self, seed, n):
        return SymArr((n,), lambda k: RngU(T.to_z3(seed), T.to_z3(k)), "r")

    def invertible(self, n, f):
        return InvertibleF(T.to_z3(n), matrix(n, f))

    def inverse(self, n, f):
        m = matrix(n, f)
        return SymArr((n, n), lambda i, j: InvF(T.to_z3(n), m, T.to_z3(i), T.to_z3(j)), "r")

    def ite(self, c, a, b):
        c = T.lit(c)
        if isinstance(c, bool):
            return v(a) if c else v(b)
        a, b = v(a), v(b)
        return spec_ite(c, a, b)

    def And(self, *xs):
        out = []
        for x in xs:
            x = T.lit(v(x))
            if x is False:
                return False
            out.append(x)
        return T.And(*out)

    def Or(self, *xs):
        return T.Or(*[v(x) for x in xs])

    def Not(self, x):
        return T.Not(v(x))

    def Implies(self, a, b):
        a = T.lit(a)
        if a is False:
            return True
        return T.Implies(a, v(b))

    def Iff(self, a, b):
        return T.cmp("==", a, b) if T.is_bool(a) and T.is_bool(b) else T.And(T.Implies(a, b), T.Implies(b, a))

    def eq(self, a, b):
        return T.cmp("==", a, b)

    def equal(self, a, b):
        """the same value, arrays included"""
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a is b
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            if not (isinstance(a, SymArr) and isinstance(b, SymArr)) or len(a.shape) != len(b.shape):
                return False
            return T.And(*[T.cmp("==", p, q) for p, q in zip(a.shape, b.shape)],
                         self.forall(*[(0, s) for s in a.shape], lambda *i: T.cmp("==", a.content(*i), b.content(*i)))
                         if a.shape else T.cmp("==", a.content(), b.content()))
        return T.cmp("==", a, b)

    def le(self, a, b):
        return T.cmp("<=", a, b)

    def sum(self, lo, hi, f):
        return T.Sum(lo, hi, f)

    def _q(self, rs, f, forall):
        ks, guard = [], []
        for n, (lo, hi) in enumerate(rs):
            k = T.fresh_int("v")
            ks.append(k)
            guard += [T.cmp("<=", lo, k), T.cmp("<", k, hi)]
        # small literal ranges are expanded
        size = 1
        for lo, hi in rs:
            lo, hi = T.lit(T.num(lo)), T.lit(T.num(hi))
            size = size * max(0, hi - lo) if isinstance(lo, int) and isinstance(hi, int) else 10**6
            if size > 10**5:
                break
        if size <= 8:
            import itertools
            out = [v(f(*ix)) for ix in itertools.product(*[range(T.lit(T.num(lo)), T.lit(T.num(hi))) for lo, hi in rs])]
            return T.And(*out) if forall else T.Or(*out)
        body = v(f(*ks))
        g = T.And(*guard)
        b = T.Implies(g, body) if forall else T.And(g, body)
        b = T.lit(b)
        if isinstance(b, bool):
            if b == forall:
                return b
        return z3.ForAll(ks, T.to_z3(b)) if forall else z3.Exists(ks, T.to_z3(b))

    def forall(self, *a):
        *rs, f = a
        return self._q(rs, f, True)

    def exists(self, *a):
        *rs, f = a
        return self._q(rs, f, False)

    def argmax(self, lo, hi, f):
        return T.ArgMax(lo, hi, f)

    def max(self, lo, hi, f):
        return T.Max(lo, hi, f)

    def last(self, lo, hi, c, val, default):
        j = T.Last(lo, hi, c)
        return spec_ite(T.cmp(">=", j, lo), v(val(j)), v(default))

    def first(self, lo, hi, f):
        return T.First(lo, hi, f)

    def floor(self, x):
        return T.floor(x)

    def trunc(self, x):
        return T.trunc(x)

    def mod(self, a, b):
        return T.mod(a, b)

    def idiv(self, a, b):
        return T.floordiv(a, b)

    def div(self, a, b):
        return T.div(a, b)

    def real(self, x):
        return T.to_z3(T.real(x))

    def abs(self, x):
        return T.zabs(x)

    def min(self, a, b):
        return T.zmin(a, b)

    def max2(self, a, b):
        return T.zmax(a, b)

    def toint(self, c):
        return T.arith(c)

    def is_int(self, x):
        return T.cmp("==", T.real(T.floor(x)), x)

    def toint_real(self, x):
        return T.trunc(x)


def spec_ite(c, a, b):
    c = T.lit(c)
    if isinstance(c, bool):
        return a if c else b
    ca, va = parts(a)
    cb, vb = parts(b)
    if va is None and vb is None:
        return ANY
    if va is None:
        return Partial(T.And(T.Not(c), cb), vb)
    if vb is None:
        return Partial(T.And(c, ca), va)
    val = T.ite(c, va, vb)
    cond = T.And(T.Implies(c, ca), T.Implies(T.Not(c), cb))
    return val if cond is True else Partial(cond, val)


def parts(x):
    if x is ANY:
        return False, None
    if isinstance(x, Partial):
        return x.cond, x.val
    return True, x
