"""Model of the builtins and of the numpy functions the code uses (assumed; part of
the trusted base)."""
from fractions import Fraction

import z3

from pyvc import terms as T
from pyvc.sym import InvF, InvertibleF, RngU, SymArr, matrix
from pyvc.terms import Unsupported
from pyvc.vals import Arr, FuncRef, Masked, Maybe, Method, NpRef, Opaque, Poison, Range, Ranks, Seq, Uniq, memo


def scal(x):
    return isinstance(x, (int, bool, Fraction, float)) or T.is_z3(x)


def kind_arg(d, dflt):
    if d is None:
        return dflt
    if isinstance(d, NpRef):
        n = d.path.split(".")[-1]
        if n in ("int", "int64", "int_", "intp", "longlong"):
            return "i"
        if n in ("int32", "intc"):
            return "i32"
        if n in ("float", "float64", "float_", "double"):
            return "r"
        if n in ("bool", "bool_"):
            return "b"
    if isinstance(d, str):
        m = {"int": "i", "int64": "i", "i8": "i", "i4": "i32", "int32": "i32", "float": "r", "float64": "r", "f8": "r", "bool": "b"}
        if d in m:
            return m[d]
    raise Unsupported("data type")


def get(args, kw, pos, name, dflt=None):
    if len(args) > pos:
        return args[pos]
    return kw.get(name, dflt)


def shape_arg(eng, s):
    if scal(s) or isinstance(s, Arr) and s.ndim == 0:
        s = (s,)
    if isinstance(s, Arr):
        s = eng.iter_concrete(s)
    out = []
    for x in s:
        x = eng.scalar(x)
        if T.is_real(x):
            raise Unsupported("real dimension")
        x = T.lit(T.arith(x))
        eng.oblige("array dimension is not negative", T.cmp(">=", x, 0))
        out.append(x)
    return tuple(out)


def const(kind, v):
    if kind == "r":
        return Fraction(v)
    if kind == "b":
        return bool(v)
    return int(v)


def filled(eng, shape, v, kind):
    c = eng.conv(kind, v)
    return eng.alloc(shape, kind, lambda *i: c, "fill")


def arr(eng, v, kind=None):
    """a new array with the values of v"""
    v = eng.force(v)
    if isinstance(v, Masked):
        if kind and kind != v.kind:
            return Masked(v.shape, v.mask, memo(lambda *k: eng.conv(kind, v.val(*k))), kind, False)
        return v
    if scal(v):
        c = eng.conv(kind or eng_kind(v), v)
        return eng.alloc((), kind or eng_kind(v), lambda: c, "array")
    a = eng.as_arr(v)
    if not isinstance(a, Arr):
        raise Unsupported("np.array of %s" % type(v).__name__)
    rd = eng.reader(a)
    k = kind or a.kind
    if k == a.kind:
        return eng.alloc(a.shape, k, memo(lambda *i: rd(*i)), "array")
    return eng.alloc(a.shape, k, memo(lambda *i: eng.conv(k, rd(*i))), "array")


def eng_kind(v):
    return "b" if T.is_bool(v) else "i" if T.is_int(v) else "r"


def call(eng, path, args, kw):
    args = [eng.force(a) for a in args]
    kw = {k: eng.force(v) for k, v in kw.items()}
    if path.startswith("numpy."):
        path = "np." + path[6:]
    f = TABLE.get(path)
    if f is not None:
        return f(eng, args, kw)
    raise Unsupported("call of %s" % path)


TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


# ------------------------------------------------------------------ builtins
@reg("builtins.len")
def _len(eng, a, kw):
    v = a[0]
    if isinstance(v, (list, tuple, dict, str, set)):
        return len(v)
    if isinstance(v, Arr):
        return v.shape[0]
    if isinstance(v, Masked):
        return eng.masked_count(v)
    if isinstance(v, Uniq):
        return v.count
    if isinstance(v, Range):
        s = eng.to_seq(v)
        return T.zmax(T.sub(s.levels[0][1], s.levels[0][0]), 0)
    if isinstance(v, Seq):
        def rec(levels, pre):
            if not levels:
                return T.ite(v.guard(*pre), 1, 0)
            return T.Sum(levels[0][0], levels[0][1], lambda k: rec(levels[1:], pre + (k,)))
        return rec(v.levels, ())
    raise Unsupported("len of %s" % type(v).__name__)


@reg("builtins.range", "builtins.xrange")
def _range(eng, a, kw):
    a = [T.lit(T.arith(eng.scalar(x))) for x in a]
    for x in a:
        if T.is_real(x):
            raise Unsupported("real range bound")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int) or st == 0:
        raise Unsupported("range step")
    return Range(lo, hi, st)


@reg("builtins.sum")
def _bsum(eng, a, kw):
    v = a[0]
    start = get(a, kw, 1, "start", 0)
    if isinstance(v, (list, tuple)):
        r = start
        for x in v:
            r = eng.binop(__import__("ast").Add(), r, x)
        return r
    if isinstance(v, (Seq, Masked)):
        return T.add(eng.sum_(v), start)
    if isinstance(v, Range):
        return T.add(eng.seq_sum(eng.to_seq(v)), start)
    if isinstance(v, Arr):
        if v.ndim == 1:
            return T.add(eng.sum_(v), start)
        return eng.sum_(v, 0)
    raise Unsupported("sum of %s" % type(v).__name__)


def quant(eng, v, forall):
    if scal(v):
        return T.boolish(v)
    if isinstance(v, (list, tuple)):
        xs = [eng.truth(x) for x in v]
        return T.And(*xs) if forall else T.Or(*xs)
    if isinstance(v, Arr):
        s = Seq([(0, n) for n in v.shape], lambda *k: True, eng.reader(v))
    elif isinstance(v, Masked):
        s = Seq([(0, n) for n in v.shape], v.mask, v.val)
    else:
        s = eng.to_seq(v)
    ks = [T.fresh_int("u") for _ in s.levels]
    g = T.And(*[T.And(T.cmp("<=", lo, k), T.cmp("<", k, hi)) for k, (lo, hi) in zip(ks, s.levels)], s.guard(*ks))
    b = T.boolish(s.elem(*ks))
    lits = [(T.lit(T.num(lo)), T.lit(T.num(hi))) for lo, hi in s.levels]
    if len(lits) == 1 and all(isinstance(x, int) for x in lits[0]) and lits[0][1] - lits[0][0] <= 12:
        out = []
        for j in range(*lits[0]):
            c, e = s.guard(j), T.boolish(s.elem(j))
            out.append(T.Implies(c, e) if forall else T.And(c, e))
        return T.And(*out) if forall else T.Or(*out)
    if forall:
        r = T.lit(T.Implies(g, b))
        return r if isinstance(r, bool) else z3.ForAll(ks, r)
    r = T.lit(T.And(g, b))
    return r if isinstance(r, bool) else z3.Exists(ks, r)


@reg("builtins.any", "np.any")
def _any(eng, a, kw):
    if kw.get("axis") is not None or len(a) > 1:
        raise Unsupported("any over an axis")
    return quant(eng, a[0], False)


@reg("builtins.all", "np.all")
def _all(eng, a, kw):
    if kw.get("axis") is not None or len(a) > 1:
        raise Unsupported("all over an axis")
    return quant(eng, a[0], True)


def extreme(eng, v, big):
    """largest (or smallest) element of a non-empty array or list"""
    if isinstance(v, (list, tuple)):
        r = eng.scalar(v[0])
        for x in v[1:]:
            r = T.zmax(r, eng.scalar(x)) if big else T.zmin(r, eng.scalar(x))
        return r
    if isinstance(v, Arr) and v.ndim == 2:
        n, m = v.shape
        rd = eng.reader(v)
        eng.oblige("maximum of a non-empty array", T.And(T.cmp(">", n, 0), T.cmp(">", m, 0)))
        sgn = (lambda x: x) if big else T.neg
        row = lambda i: T.Max(0, m, lambda j: sgn(T.arith(rd(i, j))))
        return sgn(T.Max(0, n, row))
    if isinstance(v, (Arr, Seq, Range, Masked)):
        s = eng.to_seq(v)
        if len(s.levels) != 1:
            raise Unsupported("maximum of a nested sequence")
        k = T.fresh_int("m")
        if T.lit(s.guard(k)) is not True:
            raise Unsupported("maximum of a selection")
        lo, hi = s.levels[0]
        eng.oblige("maximum of a non-empty array", T.cmp("<", lo, hi))
        if big:
            return T.Max(lo, hi, lambda j: T.arith(s.elem(j)))
        return T.neg(T.Max(lo, hi, lambda j: T.neg(s.elem(j))))
    if scal(v):
        return v
    raise Unsupported("maximum of %s" % type(v).__name__)


def _minmax(big):
    def f(eng, a, kw):
        if set(kw) - {"axis", "initial"}:
            raise Unsupported("key of a maximum")
        if len(a) > 1:
            return extreme(eng, list(a), big)
        r = extreme(eng, a[0], big)
        if "initial" in kw:
            r = T.zmax(r, kw["initial"]) if big else T.zmin(r, kw["initial"])
        return T.lit(r)
    return f


TABLE["builtins.max"] = _minmax(True)
TABLE["builtins.min"] = _minmax(False)


def _npmax(big):
    def f(eng, a, kw):
        ax = get(a, kw, 1, "axis")
        ini = kw.get("initial")
        if ax is None:
            r = extreme(eng, a[0] if not scal(a[0]) else [a[0]], big)
            if ini is not None:
                r = T.zmax(r, ini) if big else T.zmin(r, ini)
            return r
        v = eng.as_arr(a[0])
        sgn = (lambda x: x) if big else T.neg
        n = v.shape[ax]
        if ini is None:
            eng.oblige("maximum of a non-empty array", T.cmp(">", n, 0))

        def g(n, rd):
            r = sgn(T.Max(0, n, lambda k: sgn(T.arith(rd(k)))))
            if ini is not None:
                if T.lit(T.num(n)) != n:
                    pass
                c = T.cmp(">", n, 0)
                r = T.ite(c, T.zmax(r, ini) if big else T.zmin(r, ini), ini)
            return r
        return eng.reduce_axis(v, ax, g, "max", None)
    return f


TABLE["np.max"] = TABLE["np.amax"] = _npmax(True)
TABLE["np.min"] = TABLE["np.amin"] = _npmax(False)


@reg("builtins.abs", "np.abs", "np.absolute", "np.fabs", "math.fabs")
def _abs(eng, a, kw):
    if scal(a[0]):
        return T.lit(T.zabs(a[0]))
    return eng.elem(T.zabs, a[0])


@reg("builtins.int", "np.int64", "np.int32", "np.intp", "np.int_")
def _int(eng, a, kw):
    if not a:
        return 0
    if isinstance(a[0], (Opaque, str)):
        raise Unsupported("text to number")
    return T.lit(T.trunc(eng.scalar(a[0])))


@reg("builtins.float", "np.float64")
def _float(eng, a, kw):
    if isinstance(a[0], (Opaque, str)):
        raise Unsupported("text to number")
    return T.real(eng.scalar(a[0]))


@reg("builtins.bool", "np.bool_")
def _bool(eng, a, kw):
    return eng.truth(a[0])


@reg("builtins.enumerate")
def _enumerate(eng, a, kw):
    start = get(a, kw, 1, "start", 0)
    v = a[0]
    c = eng.try_concrete(v)
    if c is not None:
        return [(T.add(start, i), x) for i, x in enumerate(c)]
    s = eng.to_seq(v)
    if len(s.levels) != 1:
        raise Unsupported("enumerate of a nested sequence")
    lo = s.levels[0][0]
    k = T.fresh_int("n")
    if T.lit(s.guard(k)) is not True:
        raise Unsupported("enumerate of a selection")
    return Seq(s.levels, s.guard, lambda k: (T.add(start, T.sub(k, lo)), s.elem(k)))


@reg("builtins.zip")
def _zip(eng, a, kw):
    if a and isinstance(a[0], Uniq):
        s = eng.to_seq(a[1]) if len(a) == 2 else None
        k = T.fresh_int("z")
        if s is None or len(s.levels) != 1 or T.lit(T.num(s.levels[0][0])) != 0 or T.lit(s.guard(k)) is not True or not eng.same(s.elem(k), k) \
                or not eng.same(s.levels[0][1], a[0].count):
            raise Unsupported("zip of the different elements")
        return Ranks(a[0])
    cs = [eng.try_concrete(x) for x in a]
    if all(c is not None for c in cs):
        return [tuple(x) for x in zip(*cs)]
    ms = [x for x in a if isinstance(x, Masked)]
    if ms:
        if len(ms) != len(a) or any(not eng.same_mask(m, ms[0]) for m in ms[1:]):
            raise Unsupported("zip of different selections")
        return Seq([(0, n) for n in ms[0].shape], ms[0].mask, lambda *k: tuple(m.val(*k) for m in ms))
    ss = [eng.to_seq(x) for x in a]
    if any(len(s.levels) != 1 for s in ss):
        raise Unsupported("zip of nested sequences")
    for s in ss:
        if T.lit(s.guard(T.fresh_int("z"))) is not True:
            raise Unsupported("zip of selections")
    n = T.sub(ss[0].levels[0][1], ss[0].levels[0][0])
    for s in ss[1:]:
        m = T.sub(s.levels[0][1], s.levels[0][0])
        if not eng.same(m, n):
            n = T.zmin(n, m)
    return Seq([(0, n)], lambda k: True, lambda k: tuple(s.elem(T.add(s.levels[0][0], k)) for s in ss))


@reg("builtins.list", "builtins.tuple")
def _list(eng, a, kw):
    if not a:
        return []
    v = a[0]
    if isinstance(v, Uniq):
        return v
    c = eng.try_concrete(v)
    if c is not None:
        return list(c)
    if isinstance(v, (Range,)):
        return eng.seq_arr(eng.to_seq(v))
    if isinstance(v, (Seq, Arr, Masked)):
        return v
    raise Unsupported("list of %s" % type(v).__name__)


@reg("builtins.reversed")
def _reversed(eng, a, kw):
    c = eng.try_concrete(a[0])
    if c is not None:
        return list(reversed(c))
    s = eng.to_seq(a[0])
    if len(s.levels) != 1 or T.lit(s.guard(T.fresh_int("z"))) is not True:
        raise Unsupported("reversed")
    lo, hi = s.levels[0]
    return Seq([(lo, hi)], s.guard, lambda k: s.elem(T.sub(T.sub(T.add(lo, hi), 1), k)))


@reg("builtins.pow")
def _pow(eng, a, kw):
    if len(a) == 3:
        from pyvc.sym import Lcg
        b, n, m = (eng.scalar(x) for x in a)
        eng.oblige("exponent is not negative", T.cmp(">=", n, 0))
        eng.oblige("divisor is positive", T.cmp(">", m, 0))
        return Lcg(T.to_z3(1), T.to_z3(b), T.to_z3(m), T.to_z3(n))
    return eng.power(a[0], a[1])


@reg("builtins.type")
def _type(eng, a, kw):
    """type of a scalar; numpy's scalars are not told from Python's"""
    v = eng.force(a[0])
    if scal(v):
        return NpRef("builtins." + {"i": "int", "r": "float", "b": "bool"}[eng_kind(v)])
    raise Unsupported("type")


@reg("builtins.isinstance")
def _isinst(eng, a, kw):
    v, t = a
    ts = t if isinstance(t, (list, tuple)) else [t]
    names = [x.path.split(".")[-1] for x in ts if isinstance(x, NpRef)]
    if isinstance(v, (Arr, Masked)):
        return "ndarray" in names
    if isinstance(v, list):
        return "list" in names
    if isinstance(v, tuple):
        return "tuple" in names
    if scal(v):
        k = eng_kind(v)
        want = {"i": {"int", "integer", "int64", "int32", "Integral", "Number"}, "r": {"float", "float64", "floating", "Number"}, "b": {"bool", "int"}}[k]
        return bool(want & set(names))
    raise Unsupported("isinstance")


@reg("builtins.print")
def _print(eng, a, kw):
    return None


@reg("builtins.open")
def _open(eng, a, kw):
    f = Opaque("file")
    f.name = a[0] if isinstance(a[0], str) else None
    f.mode = (a[1] if len(a) > 1 else kw.get("mode", "r"))
    return f


def frozen_copy(eng, v):
    if isinstance(v, Maybe):
        v = eng.force(v)
    if isinstance(v, Arr):
        return eng.alloc(v.shape, v.kind, eng.reader(v), "saved")
    if isinstance(v, (list, tuple)):
        return type(v)(frozen_copy(eng, x) for x in v)
    if isinstance(v, dict):
        return {k: frozen_copy(eng, x) for k, x in v.items()}
    if isinstance(v, (Masked, Poison, Seq, Range)):
        raise Unsupported("saving a value that is not tracked")
    return v


@reg("pickle.dump")
def _dump(eng, a, kw):
    """the file holds a copy of the value as it is now"""
    f = a[1]
    if kw or len(a) != 2 or getattr(f, "name", None) is None or f.mode != "wb" or eng.loop_depth or len(eng.st.path) > eng.base_path:
        raise Unsupported("pickle.dump")
    eng.fs[f.name] = frozen_copy(eng, a[0])
    return None


@reg("pickle.load")
def _load(eng, a, kw):
    f = a[0]
    if kw or getattr(f, "name", None) is None or f.mode != "rb" or eng.loop_depth or len(eng.st.path) > eng.base_path:
        raise Unsupported("pickle.load")
    if f.name not in eng.fs:
        raise Unsupported("loading a file that was not saved")
    return frozen_copy(eng, eng.fs[f.name])


@reg("builtins.str", "builtins.repr", "builtins.format")
def _str(eng, a, kw):
    if a and isinstance(a[0], str):
        return a[0]
    return Opaque("string")


@reg("builtins.dict.fromkeys")
def _fromkeys(eng, a, kw):
    v = eng.force(a[0])
    if len(a) != 1 or kw or not isinstance(v, Arr) or v.ndim != 1:
        raise Unsupported("dict.fromkeys")
    return Uniq(eng.spec_env, v.shape[0], eng.reader(v))


@reg("builtins.dict")
def _dict(eng, a, kw):
    if len(a) == 1 and isinstance(a[0], Ranks) and not kw:
        return a[0]
    if a and isinstance(a[0], dict):
        d = dict(a[0])
    elif a:
        d = {}
        for kv in eng.iter_concrete(a[0]):
            k, v = eng.iter_concrete(kv)
            if not isinstance(k, (str, int)):
                raise Unsupported("dictionary key")
            d[k] = v
    else:
        d = {}
    d.update(kw)
    return d


@reg("builtins.map")
def _map(eng, a, kw):
    c = eng.try_concrete(a[1])
    if len(a) != 2 or c is None:
        raise Unsupported("map")
    return [eng.call(a[0], [x], {}) for x in c]


@reg("builtins.round")
def _round(eng, a, kw):
    raise Unsupported("round")


# ------------------------------------------------------------------ numpy
def _mk(v):
    def f(eng, a, kw):
        k = kind_arg(get(a, kw, 1, "dtype"), "r")
        sh = shape_arg(eng, get(a, kw, 0, "shape"))
        if v is None:
            # uninitialised
            i = T.next_id()
            sort = {"r": z3.RealSort(), "b": z3.BoolSort()}.get(k, z3.IntSort())
            u = z3.Function("empty!%d" % i, *([z3.IntSort()] * len(sh) + [sort]))
            return eng.alloc(sh, k, memo(lambda *ix: u(*[T.to_z3(x) for x in ix])), "empty")
        return filled(eng, sh, v, k)
    return f


TABLE["np.zeros"], TABLE["np.ones"], TABLE["np.empty"] = _mk(0), _mk(1), _mk(None)


def _like(v):
    def f(eng, a, kw):
        b = eng.as_arr(a[0])
        return filled(eng, b.shape, v, kind_arg(get(a, kw, 1, "dtype"), b.kind))
    return f


TABLE["np.zeros_like"], TABLE["np.ones_like"] = _like(0), _like(1)


@reg("np.empty_like")
def _empty_like(eng, a, kw):
    b = eng.as_arr(a[0])
    return TABLE["np.empty"](eng, [tuple(b.shape)], {"dtype": kw.get("dtype") or {"r": "float", "i": "int", "i32": "int32", "b": "bool"}[b.kind]})


@reg("np.full")
def _full(eng, a, kw):
    v = eng.scalar(get(a, kw, 1, "fill_value"))
    return filled(eng, shape_arg(eng, get(a, kw, 0, "shape")), v, kind_arg(get(a, kw, 2, "dtype"), eng_kind(v)))


@reg("np.full_like")
def _full_like(eng, a, kw):
    b = eng.as_arr(a[0])
    return filled(eng, b.shape, eng.scalar(a[1]), kind_arg(kw.get("dtype"), b.kind))


@reg("np.arange")
def _arange(eng, a, kw):
    r = _range(eng, a, {})
    out = eng.seq_arr(eng.to_seq(r))
    k = kind_arg(kw.get("dtype"), "i")
    return out if k == "i" else arr(eng, out, k)


@reg("np.array", "np.asarray", "np.ascontiguousarray")
def _array(eng, a, kw):
    return arr(eng, a[0], kind_arg(get(a, kw, 1, "dtype"), None))


@reg("np.copy", "copy.deepcopy", "copy.copy", "deepcopy")
def _copy(eng, a, kw):
    v = a[0]
    if isinstance(v, Arr):
        return arr(eng, v)
    if scal(v) or isinstance(v, (Masked, str)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return type(v)(_copy(eng, [x], {}) for x in v)
    if isinstance(v, dict):
        return {k: _copy(eng, [x], {}) for k, x in v.items()}
    raise Unsupported("copy")


@reg("np.identity", "np.eye")
def _eye(eng, a, kw):
    if len(a) > 1 or set(kw) - {"dtype"}:
        raise Unsupported("eye")
    n, = shape_arg(eng, a[0])
    k = kind_arg(kw.get("dtype"), "r")
    one, zero = const(k, 1), const(k, 0)
    return eng.alloc((n, n), k, memo(lambda i, j: T.ite(T.eqi(i, j), one, zero)), "eye")


def _bin(op):
    import ast

    def f(eng, a, kw):
        out = get(a, kw, 2, "out")
        if out is not None or set(kw) - {"out"}:
            raise Unsupported("out= argument")
        return eng.binop(getattr(ast, op)(), a[0], a[1])
    return f


for _n, _o in (("multiply", "Mult"), ("add", "Add"), ("subtract", "Sub"), ("divide", "Div"), ("true_divide", "Div"),
               ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv"), ("power", "Pow")):
    TABLE["np." + _n] = _bin(_o)


def _cmpf(op):
    import ast

    def f(eng, a, kw):
        return eng.compare(getattr(ast, op)(), a[0], a[1])
    return f


for _n, _o in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"),
               ("greater_equal", "GtE")):
    TABLE["np." + _n] = _cmpf(_o)


def _elem2(fn):
    def f(eng, a, kw):
        if kw:
            raise Unsupported("keyword argument")
        if scal(a[0]) and scal(a[1]):
            return fn(a[0], a[1])
        return eng.elem(fn, a[0], a[1])
    return f


TABLE["np.minimum"], TABLE["np.maximum"] = _elem2(T.zmin), _elem2(T.zmax)
TABLE["np.logical_and"] = _elem2(lambda x, y: T.And(T.boolish(x), T.boolish(y)))
TABLE["np.logical_or"] = _elem2(lambda x, y: T.Or(T.boolish(x), T.boolish(y)))


@reg("np.logical_not")
def _lnot(eng, a, kw):
    f = lambda x: T.Not(T.boolish(x))
    return f(a[0]) if scal(a[0]) else eng.elem(f, a[0], kind="b")


@reg("np.floor")
def _floor(eng, a, kw):
    f = lambda x: T.real(T.floor(x))
    return f(a[0]) if scal(a[0]) else eng.elem(f, a[0])


@reg("math.floor")
def _mfloor(eng, a, kw):
    return T.floor(eng.scalar(a[0]))


@reg("np.ceil")
def _ceil(eng, a, kw):
    f = lambda x: T.real(T.neg(T.floor(T.neg(x))))
    return f(a[0]) if scal(a[0]) else eng.elem(f, a[0])


@reg("math.ceil")
def _mceil(eng, a, kw):
    return T.neg(T.floor(T.neg(eng.scalar(a[0]))))


@reg("np.trunc", "np.fix")
def _trunc(eng, a, kw):
    f = lambda x: T.real(T.trunc(x))
    return f(a[0]) if scal(a[0]) else eng.elem(f, a[0])


@reg("np.sqrt", "math.sqrt")
def _sqrt(eng, a, kw):
    if not scal(a[0]):
        raise Unsupported("root of an array")
    return eng.sqrt(a[0])


@reg("np.square")
def _sq(eng, a, kw):
    return eng.power(a[0], 2)


@reg("np.negative")
def _negative(eng, a, kw):
    return T.neg(a[0]) if scal(a[0]) else eng.elem(T.neg, a[0])


@reg("np.clip")
def _clip(eng, a, kw):
    x = a[0]
    lo, hi = get(a, kw, 1, "a_min", kw.get("min")), get(a, kw, 2, "a_max", kw.get("max"))
    fn = None
    if lo is not None:
        x = T.zmax(x, lo) if scal(x) and scal(lo) else eng.elem(T.zmax, x, lo)
    if hi is not None:
        x = T.zmin(x, hi) if scal(x) and scal(hi) else eng.elem(T.zmin, x, hi)
    return x


@reg("np.sum")
def _npsum(eng, a, kw):
    if set(kw) - {"axis"}:
        raise Unsupported("argument of sum")
    return eng.sum_(a[0], get(a, kw, 1, "axis"))


@reg("np.count_nonzero")
def _cnz(eng, a, kw):
    v = a[0]
    if isinstance(v, Masked):
        return eng.nest_sum(v.shape, lambda *k: T.ite(T.And(v.mask(*k), T.boolish(v.val(*k))), 1, 0))
    v = eng.as_arr(v)
    rd = eng.reader(v)
    return eng.nest_sum(v.shape, lambda *k: T.ite(T.boolish(rd(*k)), 1, 0))


@reg("np.dot", "np.matmul")
def _dot(eng, a, kw):
    return eng.matmul(a[0], a[1])


@reg("np.outer")
def _outer(eng, a, kw):
    x, y = eng.as_arr(a[0]), eng.as_arr(a[1])
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("outer")
    rx, ry = eng.reader(x), eng.reader(y)
    k = "r" if "r" in (x.kind, y.kind) else "i"
    return eng.alloc((x.shape[0], y.shape[0]), k, memo(lambda i, j: T.mul(rx(i), ry(j))), "outer")


@reg("np.where")
def _where(eng, a, kw):
    if len(a) == 1:
        return _nonzero(eng, a, kw)
    c, x, y = a
    if all(scal(v) for v in a):
        return T.ite(T.boolish(c), x, y)
    return eng.elem(lambda c, x, y: T.ite(T.boolish(c), x, y), c, x, y)


@reg("np.nonzero")
def _nonzero(eng, a, kw):
    v = eng.as_arr(a[0])
    if not isinstance(v, Arr):
        raise Unsupported("nonzero of %s" % type(v).__name__)
    rd = eng.reader(v)
    m = memo(lambda *k: T.boolish(rd(*k)))
    return tuple(Masked(v.shape, m, (lambda d: lambda *k: k[d])(d), "i", pin=v.ndim == 1) for d in range(v.ndim))


@reg("np.flatnonzero")
def _flatnz(eng, a, kw):
    v = eng.as_arr(a[0])
    if v.ndim != 1:
        raise Unsupported("flatnonzero")
    return _nonzero(eng, a, kw)[0]


@reg("np.argwhere")
def _argwhere(eng, a, kw):
    raise Unsupported("argwhere")


@reg("np.argmax")
def _argmax(eng, a, kw):
    ax = get(a, kw, 1, "axis")
    v = a[0]
    if isinstance(v, (Masked, Seq)):
        raise Unsupported("argmax of a selection")
    v = eng.as_arr(v)
    if ax is None and v.ndim == 1:
        rd = eng.reader(v)
        eng.oblige("maximum of a non-empty array", T.cmp(">", v.shape[0], 0))
        if v.kind == "b":
            j = T.First(0, v.shape[0], rd)
            return T.ite(T.cmp("<", j, v.shape[0]), j, 0)
        return T.ArgMax(0, v.shape[0], lambda k: T.arith(rd(k)))
    if ax is None:
        raise Unsupported("argmax of a matrix")
    eng.oblige("maximum of a non-empty array", T.cmp(">", v.shape[ax], 0))
    return eng.reduce_axis(v, ax, lambda n, rd: T.ArgMax(0, n, lambda k: T.arith(rd(k))), "argmax", "i")


@reg("np.append")
def _append(eng, a, kw):
    return _concat(eng, [[a[0], a[1]]], {"axis": get(a, kw, 2, "axis", 0)} if get(a, kw, 2, "axis") is not None else {"flat": True})


@reg("np.concatenate", "np.hstack")
def _concat(eng, a, kw):
    ax = get(a, kw, 1, "axis", 0)
    parts = []
    for x in (a[0] if isinstance(a[0], (list, tuple)) else eng.iter_concrete(a[0])):
        if scal(x):
            x = [x]
        x = eng.as_arr(x)
        if not isinstance(x, Arr):
            raise Unsupported("concatenation of selections")
        parts.append(x)
    if any(p.ndim != 1 for p in parts):
        if kw.get("flat"):
            raise Unsupported("append to a matrix")
        if any(p.ndim != parts[0].ndim for p in parts):
            raise Unsupported("concatenation of different dimensions")
    kind = parts[0].kind
    for p in parts[1:]:
        kind = kind if kind == p.kind else "r" if "r" in (kind, p.kind) else "i"
    offs, tot = [], 0
    for p in parts:
        offs.append(tot)
        tot = T.add(tot, p.shape[ax])
    for p in parts[1:]:
        for d in range(p.ndim):
            if d != ax and not eng.same(p.shape[d], parts[0].shape[d]):
                eng.oblige("shapes agree", T.cmp("==", p.shape[d], parts[0].shape[d]))
    rds = [eng.reader(p) for p in parts]

    def f(*idx):
        def at(n):
            i = list(idx)
            i[ax] = T.sub(idx[ax], offs[n])
            return eng.conv(kind, rds[n](*i))
        r = at(len(parts) - 1)
        for n in range(len(parts) - 2, -1, -1):
            r = T.ite(T.cmp("<", idx[ax], offs[n + 1]), at(n), r)
        return r
    shape = list(parts[0].shape)
    shape[ax] = tot
    return eng.alloc(shape, kind, memo(f), "concatenate")


@reg("np.vstack")
def _vstack(eng, a, kw):
    parts = []
    for x in eng.iter_concrete(a[0]):
        x = eng.as_arr(x)
        if x.ndim == 1:
            x = Arr(x.buf, [y if y[0] == "f" else ("v", y[1] + 1, y[2], y[3]) for y in x.axes], (1,) + x.shape)
        parts.append(x)
    return _concat(eng, [parts], {"axis": 0})


@reg("np.delete")
def _delete(eng, a, kw):
    """one position of a vector (or row/column) taken out"""
    v, i = eng.as_arr(a[0]), get(a, kw, 1, "obj")
    ax = get(a, kw, 2, "axis")
    if isinstance(i, Arr) and i.ndim == 0:
        i = eng.scalar(i)
    if not scal(i):
        raise Unsupported("deletion of several positions")
    if ax is None:
        if v.ndim != 1:
            raise Unsupported("delete from a matrix")
        ax = 0
    n = v.shape[ax]
    i = eng.check_bounds(i, n)
    rd = eng.reader(v)
    shape = list(v.shape)
    shape[ax] = T.sub(n, 1)

    def f(*idx):
        lo = rd(*idx)
        up = list(idx)
        up[ax] = T.add(idx[ax], 1)
        return T.ite(T.cmp("<", idx[ax], i), lo, rd(*up))
    return eng.alloc(shape, v.kind, memo(f), "delete")


@reg("np.pad")
def _pad(eng, a, kw):
    v = eng.as_arr(a[0])
    w = get(a, kw, 1, "pad_width")
    mode = get(a, kw, 2, "mode", "constant")
    if mode != "constant":
        raise Unsupported("pad")
    cv = kw.get("constant_values", 0)
    w = [w] if scal(w) else list(eng.iter_concrete(w))
    if len(w) == 1:
        x = w[0]
        x = [x, x] if scal(x) else list(eng.iter_concrete(x))
        w = [x] * v.ndim
    elif all(scal(x) for x in w):
        w = [w] * v.ndim
    else:
        w = [list(eng.iter_concrete(x)) for x in w]
    if len(w) != v.ndim or any(len(x) != 2 for x in w) or (v.ndim > 1 and not scal(cv)):
        raise Unsupported("pad")
    cb, ce = (cv, cv) if scal(cv) else eng.iter_concrete(cv)
    for b, e in w:
        eng.oblige("padding is not negative", T.And(T.cmp(">=", b, 0), T.cmp(">=", e, 0)))
    rd = eng.reader(v)
    if v.ndim == 1:
        b, n = w[0][0], v.shape[0]
        f = lambda k: T.ite(T.cmp("<", k, b), eng.conv(v.kind, cb),
                            T.ite(T.cmp("<", T.sub(k, b), n), rd(T.sub(k, b)), eng.conv(v.kind, ce)))
    else:
        def f(*ks):
            js = [T.sub(k, x[0]) for k, x in zip(ks, w)]
            inside = T.And(*[T.And(T.cmp("<=", 0, j), T.cmp("<", j, n)) for j, n in zip(js, v.shape)])
            return T.ite(inside, rd(*js), eng.conv(v.kind, cv))
    shape = tuple(T.add(T.add(n, x[0]), x[1]) for n, x in zip(v.shape, w))
    return eng.alloc(shape, v.kind, memo(f), "pad")


@reg("np.flip")
def _flip(eng, a, kw):
    v = eng.as_arr(a[0])
    if v.ndim != 1:
        raise Unsupported("flip of a matrix")
    rd = eng.reader(v)
    n = v.shape[0]
    return eng.alloc(v.shape, v.kind, memo(lambda k: rd(T.sub(T.sub(n, 1), k))), "flip")


@reg("np.add.accumulate")
def _accumulate(eng, a, kw):
    v = eng.as_arr(a[0])
    if v.kind not in ("i", "r") or set(kw) - {"axis"} or len(a) > 2:
        raise Unsupported("accumulate")
    return _cumsum(eng, [v, get(a, kw, 1, "axis", 0)], {})


@reg("np.cumsum")
def _cumsum(eng, a, kw):
    v = eng.as_arr(a[0])
    ax = get(a, kw, 1, "axis")
    if ax is None:
        if v.ndim != 1:
            raise Unsupported("cumsum of a matrix")
        ax = 0
    if ax < 0:
        ax += v.ndim
    rd = eng.reader(v)
    kind = "r" if v.kind == "r" else "i"
    return eng.alloc(v.shape, kind, memo(lambda *idx: eng.conv(kind, T.Sum(0, T.add(idx[ax], 1), lambda k: T.arith(
        rd(*idx[:ax], k, *idx[ax + 1:]))))), "cumsum")


@reg("np.diff")
def _diff(eng, a, kw):
    v = eng.as_arr(a[0])
    if v.ndim != 1 or len(a) > 1 or kw:
        raise Unsupported("diff")
    rd = eng.reader(v)
    n = v.shape[0]
    eng.oblige("difference of a non-empty array", T.cmp(">", n, 0))
    return eng.alloc((T.sub(n, 1),), v.kind, memo(lambda k: T.sub(rd(T.add(k, 1)), rd(k))), "diff")


@reg("np.linalg.inv")
def _inv(eng, a, kw):
    v = eng.as_arr(a[0])
    if v.ndim != 2:
        raise Unsupported("inverse")
    n = v.shape[0]
    if not eng.same(n, v.shape[1]):
        eng.oblige("matrix is square", T.cmp("==", n, v.shape[1]))
    rd = eng.reader(v)
    m = matrix(n, rd)
    eng.oblige("matrix is invertible", InvertibleF(T.to_z3(n), m), "req")
    return eng.alloc((n, n), "r", memo(lambda i, j: InvF(T.to_z3(n), m, T.to_z3(i), T.to_z3(j))), "inverse")


def _at(sign):
    def f(eng, a, kw):
        tgt, pos, val = a
        if not isinstance(tgt, Arr):
            raise Unsupported("add.at target")
        items = list(pos) if isinstance(pos, tuple) else [pos]
        items = [eng.np_index(x) for x in items]
        if all(scal(x) for x in items):
            raise Unsupported("add.at with scalars")
        ent = eng.split_index(tgt, items)
        eng.scatter(tgt, ent, val, combine=lambda old, s: T.add(old, s) if sign > 0 else T.sub(old, s))
        return None
    return f


TABLE["np.add.at"], TABLE["np.subtract.at"] = _at(1), _at(-1)


@reg("np.bincount")
def _bincount(eng, a, kw):
    x = a[0]
    w = get(a, kw, 1, "weights")
    ml = get(a, kw, 2, "minlength", 0)
    x = eng.as_arr(x)
    if not isinstance(x, Arr) or x.ndim != 1:
        raise Unsupported("bincount")
    rd = eng.reader(x)
    n = x.shape[0]
    k = T.fresh_int("bc")
    if T.lit(eng.scalar(ml)) == 0 and not eng.loop_depth:
        # as many places as the largest value asks for
        ml = T.fresh_int("most")
        inside = T.And(T.cmp("<=", 0, k), T.cmp("<", k, n))
        eng.oblige("counted values are not negative", z3.ForAll([k], T.to_z3(T.Implies(inside, T.cmp("<=", 0, rd(k))))))
        eng.assume(z3.ForAll([k], T.to_z3(T.Implies(inside, T.cmp("<", rd(k), ml)))))
        eng.assume(T.Or(T.cmp("==", ml, 0), z3.Exists([k], T.to_z3(T.And(inside, T.cmp("==", rd(k), T.sub(ml, 1)))))))
        eng.assume(T.cmp(">=", ml, 0))
    g = z3.ForAll([k], T.to_z3(T.Implies(T.And(T.cmp("<=", 0, k), T.cmp("<", k, n)),
                                         T.And(T.cmp("<=", 0, rd(k)), T.cmp("<", rd(k), ml)))))
    eng.oblige("counted values are within the given length", g)
    if w is None:
        return eng.alloc((ml,), "i", memo(lambda j: T.Sum(0, n, lambda i: T.ite(T.eqi(rd(i), j), 1, 0))), "bincount")
    w = eng.as_arr(w)
    rw = eng.reader(w)
    if not eng.same(w.shape[0], n):
        eng.oblige("shapes agree", T.cmp("==", w.shape[0], n))
    return eng.alloc((ml,), "r", memo(lambda j: T.real(T.Sum(0, n, lambda i: T.ite(T.eqi(rd(i), j), T.real(rw(i)), Fraction(0))))),
                     "bincount")


class Rng:
    def __init__(self, seed):
        self.seed = seed
        self.used = False


@reg("np.random.default_rng")
def _rng(eng, a, kw):
    o = Opaque("rng")
    o.rng = Rng(eng.scalar(get(a, kw, 0, "seed")))
    return o


@reg("np.reshape")
def _npreshape(eng, a, kw):
    return reshape(eng, a[0], get(a, kw, 1, "newshape", kw.get("shape")), get(a, kw, 2, "order", "C"))


@reg("np.tile")
def _tile(eng, a, kw):
    v = eng.as_arr(a[0])
    reps = a[1]
    rd = eng.reader(v)
    if scal(reps):
        reps = (reps,)
    reps = list(reps)
    nd = max(len(reps), v.ndim)
    reps = [1] * (nd - len(reps)) + reps
    sh = [1] * (nd - v.ndim) + list(v.shape)
    off = nd - v.ndim

    def f(*idx):
        out = []
        for d in range(v.ndim):
            r = reps[off + d]
            if isinstance(T.lit(T.num(r)), int) and T.lit(T.num(r)) == 1:
                out.append(idx[off + d])
            else:
                out.append(T.mod(idx[off + d], v.shape[d]))
        return rd(*out)
    return eng.alloc([T.mul(r, s) for r, s in zip(reps, sh)], v.kind, memo(f), "tile")


@reg("np.repeat")
def _repeat(eng, a, kw):
    v = eng.as_arr(a[0])
    r = T.lit(eng.scalar(a[1]))
    if v.ndim != 1 or not isinstance(r, int):
        raise Unsupported("repeat")
    rd = eng.reader(v)
    return eng.alloc((T.mul(v.shape[0], r),), v.kind, memo(lambda k: rd(T.floordiv(k, r))), "repeat")


@reg("np.transpose")
def _transpose(eng, a, kw):
    return eng.transpose(eng.as_arr(a[0]))


@reg("np.ravel")
def _ravel(eng, a, kw):
    return reshape(eng, a[0], (-1,), "C")


@reg("np.mean")
def _mean(eng, a, kw):
    v = eng.as_arr(a[0])
    if get(a, kw, 1, "axis") is not None or v.ndim != 1:
        raise Unsupported("mean")
    eng.oblige("mean of a non-empty array", T.cmp(">", v.shape[0], 0))
    return T.div(eng.sum_(v), v.shape[0])


@reg("np.array_equal")
def _array_equal(eng, a, kw):
    x, y = eng.as_arr(a[0]), eng.as_arr(a[1])
    return quant(eng, eng.compare(__import__("ast").Eq(), x, y), True)


def divided(p, q):
    """p / q for p = q * something when that is visible"""
    p = z3.simplify(T.to_z3(p))
    co, at, c = T.linform(p)
    if c % q == 0 and all(x % q == 0 for x in co.values()):
        return T.lit(z3.simplify(T.lin_term({i: x // q for i, x in co.items()}, at, c // q)))
    return T.floordiv(p, q)


def reshape(eng, v, shape, order):
    v = eng.as_arr(v)
    if not isinstance(v, Arr):
        raise Unsupported("reshape of %s" % type(v).__name__)
    if scal(shape):
        shape = (shape,)
    shape = [T.lit(eng.scalar(x)) for x in shape]
    tot = 1
    for s in v.shape:
        tot = T.mul(tot, s)
    neg = [n for n, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if neg:
        if len(neg) > 1:
            raise Unsupported("reshape")
        n = neg[0]
        rest = [s for m, s in enumerate(shape) if m != n]
        # dimensions that appear on both sides cancel
        mine = list(v.shape)
        other = []
        for s in rest:
            for m, x in enumerate(mine):
                if eng.same(x, s):
                    mine.pop(m)
                    break
            else:
                other.append(s)
        p = 1
        for s in mine:
            p = T.mul(p, s)
        q = 1
        for s in other:
            q = T.mul(q, s)
        if T.lit(q) == 1 if not T.is_z3(q) else False:
            shape[n] = p
        else:
            p2 = T.lit(p)
            if isinstance(p2, int) and isinstance(q, int) and q > 0 and p2 % q == 0:
                shape[n] = p2 // q
            elif isinstance(q, int) and q > 0:
                eng.oblige("reshape divides evenly", T.cmp("==", T.mod(p, q), 0))
                shape[n] = divided(p, q)
            else:
                raise Unsupported("reshape to an unknown dimension")
    else:
        p = 1
        for s in shape:
            p = T.mul(p, s)
        if not eng.same(p, tot):
            eng.oblige("reshape keeps the number of elements", T.cmp("==", p, tot))
    rd = eng.reader(v)
    src, dst = list(v.shape), list(shape)
    if order not in ("C", "F"):
        raise Unsupported("reshape order")
    # equal dimensions at either end stay (in both orders)
    pre = 0
    while pre < min(len(src), len(dst)) and eng.same(src[pre], dst[pre]):
        pre += 1
    post = 0
    while post < min(len(src), len(dst)) - pre and eng.same(src[-1 - post], dst[-1 - post]):
        post += 1
    rest = lambda idx: list(idx[pre:len(idx) - post])
    join = lambda idx, r: list(idx[:pre]) + r + list(idx[len(idx) - post:])
    s2, d2 = src[pre:len(src) - post], dst[pre:len(dst) - post]
    rev = order == "F"
    if rev:
        s2, d2 = s2[::-1], d2[::-1]

    def f(*idx):
        r = rest(idx)
        if rev:
            r = r[::-1]
        # flat position, last index fastest
        if len(s2) == 0:
            out = []
        else:
            flat = 0
            for i, n in zip(r, d2):
                flat = T.add(T.mul(flat, n), i)
            out = []
            if len(s2) == 1:
                out = [flat]
            else:
                rem = flat
                for n in reversed(s2[1:]):
                    out.append(T.mod(rem, n))
                    rem = T.floordiv(rem, n)
                out.append(rem)
                out = out[::-1]
        if rev:
            out = out[::-1]
        return rd(*join(idx, out))
    if order == "C":
        v.buf.frozen = True          # the result may share memory with the source
    return eng.alloc(shape, v.kind, memo(f), "reshape", frozen=order == "C")


# ------------------------------------------------------------------ methods
def method(eng, obj, name, args, kw):
    obj = eng.force(obj)
    args = [eng.force(a) for a in args]
    if isinstance(obj, Opaque):
        rng = getattr(obj, "rng", None)
        if rng is not None and name == "random":
            if eng.loop_depth or rng.used:
                raise Unsupported("several draws from one generator")
            rng.used = True
            n = T.lit(eng.scalar(args[0]))
            s = T.to_z3(rng.seed)
            return eng.alloc((n,), "r", memo(lambda k: RngU(s, T.to_z3(k))), "random")
        if obj.tag in ("file",) or name in ("write", "close", "writelines", "flush"):
            return Opaque("file")
        return Opaque(obj.tag + "." + name)
    if isinstance(obj, str):
        return Opaque("string")
    if isinstance(obj, dict):
        if name == "get":
            k = args[0]
            return obj.get(k, args[1] if len(args) > 1 else None)
        if name == "keys":
            return list(obj)
        if name == "values":
            return list(obj.values())
        if name == "items":
            return [tuple(x) for x in obj.items()]
        raise Unsupported("dictionary method %s" % name)
    if scal(obj):
        if name in ("item", "copy"):
            return obj
        if name == "astype":
            return T.lit(eng.conv(kind_arg(get(args, kw, 0, "dtype"), None), obj))
        if name in ("max", "min", "sum"):
            return obj
        if name in ("any", "all"):
            return T.boolish(obj)
        raise Unsupported("method %s of a number" % name)
    if isinstance(obj, (list, tuple)):
        if name == "copy":
            return list(obj)
        if name == "index":
            raise Unsupported("index")
        raise Unsupported("list method %s" % name)
    if isinstance(obj, (Range, Seq)):
        raise Unsupported("method of a sequence")
    if name == "copy":
        return arr(eng, obj)
    if name == "astype":
        return arr(eng, obj, kind_arg(get(args, kw, 0, "dtype"), None))
    if name == "sum":
        if set(kw) - {"axis"}:
            raise Unsupported("argument of sum")
        return eng.sum_(obj, get(args, kw, 0, "axis"))
    if name in ("max", "min"):
        return _npmax(name == "max")(eng, [obj] + args, kw)
    if name == "argmax":
        return _argmax(eng, [obj] + args, kw)
    if name == "any":
        return _any(eng, [obj] + args, kw)
    if name == "all":
        return _all(eng, [obj] + args, kw)
    if name == "reshape":
        sh = args[0] if len(args) == 1 else tuple(args)
        return reshape(eng, obj, sh, kw.get("order", "C"))
    if name in ("flatten", "ravel"):
        return reshape(eng, obj, (-1,), get(args, kw, 0, "order", "C"))
    if name == "dot":
        return eng.matmul(obj, args[0])
    if name == "clip":
        return _clip(eng, [obj] + args, kw)
    if name == "item":
        if isinstance(obj, Arr) and not args:
            return eng.scalar(obj)
        raise Unsupported("item")
    if name == "nonzero":
        return _nonzero(eng, [obj], {})
    if name == "cumsum":
        return _cumsum(eng, [obj] + args, kw)
    if name == "transpose":
        return eng.transpose(obj)
    if name == "mean":
        return _mean(eng, [obj] + args, kw)
    if name == "fill":
        eng.store(obj, args[0])
        return None
    if name == "tolist":
        c = eng.try_concrete(obj)
        if c is None:
            return obj
        return list(c)
    raise Unsupported("array method %s" % name)
