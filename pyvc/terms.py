"""Terms: thin layer over z3 (ints and reals are mathematical), bounded sums and
their normal form."""
from fractions import Fraction
import itertools
import os
import time
import z3

_cnt = itertools.count()


PATIENCE = [1.0, 0.0, 1.0]      # factor in force, when it was last looked up, least factor


def patient(ms):
    """solver time limits are stretched on a busy machine, so that it proves what an idle one proves"""
    if time.time() - PATIENCE[1] > 2:
        PATIENCE[0] = min(4.0, 2 * os.getloadavg()[0] / (os.cpu_count() or 1))
        PATIENCE[1] = time.time()
    return int(ms * max(PATIENCE[0], PATIENCE[2]))


class Unsupported(Exception):
    """A construct outside the supported fragment (a limit of the tool, not a
    verdict on the code)."""


def next_id():
    return next(_cnt)


def fresh_name(base):
    return "%s!%d" % (base, next(_cnt))


def fresh_int(base="k"):
    return z3.Int(fresh_name(base))


def fresh_real(base="r"):
    return z3.Real(fresh_name(base))


def fresh_bool(base="b"):
    return z3.Bool(fresh_name(base))


class I32:
    """A numpy int32 scalar: arithmetic with ints that fit wraps around."""

    def __init__(self, t):
        self.t = t


def wrap32(t):
    if isinstance(t, int):
        return (t + 2**31) % 2**32 - 2**31
    return (t + 2**31) % z3.IntVal(2**32) - 2**31


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def num(x):
    """Python/concrete number -> Python int, Fraction or bool; z3 stays."""
    if isinstance(x, I32):
        return x.t
    if is_z3(x) or isinstance(x, (bool, int, Fraction)):
        return x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        return Fraction(repr(x))
    raise Unsupported("not a number: %r" % (x,))


def to_z3(x):
    x = num(x)
    if is_z3(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if x.denominator == 1:
        return z3.RealVal(x.numerator)
    return z3.RealVal("%d/%d" % (x.numerator, x.denominator))


def is_bool(x):
    return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


def is_int(x):
    if isinstance(x, bool):
        return False
    if isinstance(x, I32):
        return True
    return isinstance(x, int) or (is_z3(x) and z3.is_int(x))


def is_real(x):
    return isinstance(x, (Fraction, float)) or (is_z3(x) and z3.is_real(x))


def arith(x):
    """bool -> 0/1"""
    x = num(x)
    if isinstance(x, bool):
        return int(x)
    if is_z3(x) and z3.is_bool(x):
        if z3.is_true(x):
            return 1
        if z3.is_false(x):
            return 0
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def real(x):
    x = arith(x)
    if is_z3(x):
        if z3.is_real(x):
            return x
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return to_real(x)
    return Fraction(x)


def to_real(x):
    """ToReal pushed to the leaves"""
    if z3.is_int_value(x):
        return z3.RealVal(x.as_long())
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return z3.If(x.arg(0), to_real(x.arg(1)), to_real(x.arg(2)))
    return z3.ToReal(x)


def unify(a, b):
    a, b = arith(a), arith(b)
    if is_real(a) or is_real(b):
        return real(a), real(b)
    return a, b


def sym(a, b):
    return is_z3(a) or is_z3(b)


def lit(x):
    """z3 numeral -> Python number, else unchanged"""
    if is_z3(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def add(a, b):
    a, b = unify(a, b)
    if not is_z3(a) and a == 0:
        return b
    if not is_z3(b) and b == 0:
        return a
    return to_z3(a) + to_z3(b) if sym(a, b) else a + b


def sub(a, b):
    a, b = unify(a, b)
    if not is_z3(b) and b == 0:
        return a
    return to_z3(a) - to_z3(b) if sym(a, b) else a - b


def mul(a, b):
    a, b = unify(a, b)
    for x, y in ((a, b), (b, a)):
        if not is_z3(x):
            if x == 1:
                return y
            if x == 0:
                return x
    return to_z3(a) * to_z3(b) if sym(a, b) else a * b


def neg(a):
    a = arith(a)
    return -a


def div(a, b):
    a, b = real(a), real(b)
    if not is_z3(b) and b == 1:
        return a
    if sym(a, b):
        return to_z3(a) / to_z3(b)
    if b == 0:
        raise Unsupported("division by literal zero")
    return a / b


def floor(a):
    a = arith(a)
    if is_int(a):
        return a
    if is_z3(a):
        return z3.ToInt(a)
    return a.numerator // a.denominator


def whole(a):
    """the integer term a real term equals by its form, or None"""
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
        return a.arg(0)
    if z3.is_rational_value(a):
        return z3.IntVal(a.numerator_as_long()) if a.denominator_as_long() == 1 else None
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = whole(a.arg(1)), whole(a.arg(2))
        return None if x is None or y is None else z3.If(a.arg(0), x, y)
    if z3.is_add(a) or z3.is_sub(a) or z3.is_mul(a):
        xs = [whole(x) for x in a.children()]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if z3.is_add(a) else r - x if z3.is_sub(a) else r * x
        return r
    return None


def trunc(a):
    a = arith(a)
    if is_int(a):
        return a
    if is_z3(a):
        w = whole(a)
        if w is not None:
            return w
        return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
    return int(a)


def floordiv(a, b):
    a, b = unify(a, b)
    if not sym(a, b):
        return a // b if is_int(a) else Fraction(floor(a / b))
    if is_int(a):
        if isinstance(b, int) and b < 0:
            raise Unsupported("// by a negative")
        return to_z3(a) / to_z3(b)  # positive divisor: obligation at the caller
    return real(floor(div(a, b)))


def mod(a, b):
    a, b = unify(a, b)
    if not sym(a, b):
        return a % b
    if is_int(a):
        if isinstance(b, int) and b < 0:
            raise Unsupported("% by a negative")
        return to_z3(a) % to_z3(b)
    return sub(a, mul(b, real(floor(div(a, b)))))


def ite(c, a, b):
    c = lit(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        a, b = to_z3(a), to_z3(b)
    else:
        a, b = unify(a, b)
        a, b = to_z3(a), to_z3(b)
    return mk_ite(c, a, b)


def mk_ite(c, a, b):
    if z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
        b = b.arg(2)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
        a = a.arg(1)
    if a.eq(b):
        return a
    if vacuous_test(c, a, b):
        return a
    if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_app_of(b, z3.Z3_OP_ITE) and a.arg(0).eq(b.arg(0)):
        if a.arg(2).eq(b.arg(2)):
            return z3.If(a.arg(0), mk_ite(c, a.arg(1), b.arg(1)), a.arg(2))
        if a.arg(1).eq(b.arg(1)):
            return z3.If(a.arg(0), a.arg(1), mk_ite(c, a.arg(2), b.arg(2)))
    return z3.If(c, a, b)


def vacuous_test(c, a, b):
    """If(a != b, a, b) with a number b is a"""
    if z3.is_not(c) and z3.is_eq(c.arg(0)):
        l, r = c.arg(0).children()
    elif z3.is_app_of(c, z3.Z3_OP_DISTINCT) and c.num_args() == 2:
        l, r = c.children()
    else:
        return False
    if not (z3.is_int_value(b) or z3.is_rational_value(b)):
        return False
    for x, y in ((l, r), (r, l)):
        if x.eq(a) and (z3.is_int_value(y) or z3.is_rational_value(y)) and lit(y) == lit(b):
            return True
    return False


def linform(t):
    """integer term -> ({atom id: coefficient}, {atom id: atom}, constant)"""
    co, at = {}, {}
    const = [0]

    def go(x, f):
        if z3.is_int_value(x):
            const[0] += f * x.as_long()
            return
        d = x.decl().kind() if z3.is_app(x) else None
        if d == z3.Z3_OP_ADD:
            for c in x.children():
                go(c, f)
            return
        if d == z3.Z3_OP_SUB:
            ch = x.children()
            go(ch[0], f)
            for c in ch[1:]:
                go(c, -f)
            return
        if d == z3.Z3_OP_UMINUS:
            go(x.arg(0), -f)
            return
        if d == z3.Z3_OP_MUL:
            ks = [c for c in x.children() if z3.is_int_value(c)]
            rest = [c for c in x.children() if not z3.is_int_value(c)]
            if ks and len(rest) <= 1:
                g = f
                for c in ks:
                    g *= c.as_long()
                if rest:
                    go(rest[0], g)
                else:
                    const[0] += g
                return
        i = x.get_id()
        at[i] = x
        co[i] = co.get(i, 0) + f
    go(t, 1)
    co = {i: c for i, c in co.items() if c}
    return co, {i: at[i] for i in co}, const[0]


def ge_form(x):
    """integer comparison as L >= 0 -> linform of L, or None"""
    neg_ = False
    while z3.is_not(x):
        neg_ = not neg_
        x = x.arg(0)
    if not z3.is_app(x) or x.num_args() != 2 or not z3.is_int(x.arg(0)):
        return None
    kd = x.decl().kind()
    ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">"}
    if kd not in ops:
        return None
    op = ops[kd]
    if neg_:
        op = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[op]
    l, r = x.arg(0), x.arg(1)
    if op in ("<=", "<"):
        l, r = r, l
    co, at, c = linform(l - r)
    return co, at, c - (1 if op in ("<", ">") else 0)


def lin_term(co, at, c):
    r = z3.IntVal(c)
    first = c == 0
    for i in sorted(co, key=lambda i: at[i].sexpr()):
        t = at[i] if co[i] == 1 else z3.IntVal(co[i]) * at[i]
        r = t if first else r + t
        first = False
    return r


def window(conj, k):
    """c*k + b <= x < c*k + b + c  pins k to (x - b) div c"""
    kid = k.get_id()
    lows, highs = [], []
    for x in conj:
        f = ge_form(x)
        if f is None or kid not in f[0]:
            continue
        if any(i != kid and contains(a, k) for i, a in f[1].items()):
            continue
        (highs if f[0][kid] < 0 else lows).append(f)
    for co, at, c in highs:          # x - b - c*k >= 0
        cc = -co[kid]
        if cc < 2:
            continue
        for co2, _, c2 in lows:
            if co2[kid] == cc and c + c2 == cc - 1 and {i: -v for i, v in co2.items()} == co:
                rest = {i: v for i, v in co.items() if i != kid}
                return lin_term(rest, at, c) / z3.IntVal(cc)
    return None


def pinned(c, k):
    """e such that c implies k == e, or None"""
    e = solve_eq(c, k)
    if e is not None:
        return e
    if z3.is_and(c):
        for x in c.children():
            e = pinned(x, k)
            if e is not None:
                return e
        return window(flat_and(c), k)
    if z3.is_or(c):
        es = [pinned(x, k) for x in c.children()]
        if all(e is not None for e in es) and all(e.eq(es[0]) for e in es[1:]):
            return es[0]
        return None
    if z3.is_app_of(c, z3.Z3_OP_ITE):
        x, a, b = c.children()
        es = [pinned(y, k) for y in (a, b) if not z3.is_false(y)]
        if es and all(e is not None for e in es) and all(e.eq(es[0]) for e in es[1:]):
            return es[0]
    return None


def boolish(x):
    """truth value of a number"""
    if is_bool(x):
        return x
    x = arith(x)
    if is_z3(x):
        return x != 0
    return x != 0


def cmp(op, a, b):
    if is_bool(a) and is_bool(b) and op in ("==", "!="):
        if sym(a, b):
            r = to_z3(a) == to_z3(b)
            return r if op == "==" else z3.Not(r)
        return (a == b) if op == "==" else (a != b)
    a, b = unify(a, b)
    if sym(a, b):
        a, b = to_z3(a), to_z3(b)
        if a.eq(b):
            return op in ("==", "<=", ">=")
    return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b,
            "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def And(*xs):
    out = []
    for x in xs:
        x = lit(x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        x = lit(x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    x = lit(x)
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def zabs(a):
    a = arith(a)
    return z3.If(a >= 0, a, -a) if is_z3(a) else abs(a)


def zmin(a, b):
    return ite(cmp("<=", a, b), a, b)


def zmax(a, b):
    return ite(cmp(">=", a, b), a, b)


# ---------------------------------------------------------------- sums
_IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
_RA = z3.ArraySort(z3.IntSort(), z3.RealSort())
SumI = z3.Function("SumI", z3.IntSort(), z3.IntSort(), _IA, z3.IntSort())
SumR = z3.Function("SumR", z3.IntSort(), z3.IntSort(), _RA, z3.RealSort())


def Sum(lo, hi, f):
    """sum of f(k) for lo <= k < hi"""
    lo, hi = lit(arith(lo)), lit(arith(hi))
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 12:
        r = 0
        for j in range(lo, hi):
            r = add(r, f(j))
        return r
    k = fresh_int("s")
    return mk_sum(lo, hi, k, arith(f(k)))


def mk_sum(lo, hi, k, body):
    body = to_z3(body)
    if z3.is_int_value(body) and body.as_long() == 0:
        return 0
    fn = SumI if z3.is_int(body) else SumR
    return fn(to_z3(lo), to_z3(hi), z3.Lambda([k], body))


def is_sum(t):
    return z3.is_app(t) and t.num_args() == 3 and (t.decl().eq(SumI) or t.decl().eq(SumR))


def open_sum(t, k=None):
    lo, hi, lam = t.arg(0), t.arg(1), t.arg(2)
    if k is None:
        k = fresh_int("s")
    if z3.is_quantifier(lam):
        body = z3.substitute_vars(lam.body(), k)
    else:
        body = z3.simplify(z3.Select(lam, k))
    return lo, hi, k, body


def contains(t, k):
    """does term t contain constant k"""
    seen = set()
    stack = [t]
    kid = k.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            stack.extend(x.children())
    return False


def contains_any(t, ids):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().get_id() in ids:
                return True
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return False


def collect(t, pred):
    """subterms satisfying pred, outermost first (not below a match)"""
    seen = set()
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if pred(x):
            out.append(x)
            continue
        if z3.is_app(x):
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


def collect_all(t, pred):
    seen = set()
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if pred(x):
            out.append(x)
        if z3.is_app(x):
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


def subst(t, *pairs):
    return z3.substitute(t, *[(a, to_z3(b)) for a, b in pairs])


_CANON = {}


def canon(t):
    """orders the arguments of ==, and, or, products outside binders; distinct becomes not =="""
    i = t.get_id()
    if i in _CANON:
        return _CANON[i][1]
    r = t
    if z3.is_app(t) and t.num_args() and not is_sum(t):
        ch = [canon(c) for c in t.children()]
        d = t.decl().kind()
        if d == z3.Z3_OP_DISTINCT and len(ch) == 2:
            ch.sort(key=lambda x: x.sexpr())
            r = z3.Not(ch[0] == ch[1])
        elif d == z3.Z3_OP_GT:
            r = z3.ArithRef.__lt__(ch[1], ch[0])
        elif d == z3.Z3_OP_GE:
            r = z3.ArithRef.__le__(ch[1], ch[0])
        elif d == z3.Z3_OP_NOT and z3.is_app(ch[0]) and ch[0].decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            l, h = ch[0].children()
            r = (z3.ArithRef.__lt__ if ch[0].decl().kind() == z3.Z3_OP_LE else z3.ArithRef.__le__)(h, l)
        elif d == z3.Z3_OP_EQ:
            ch.sort(key=lambda x: x.sexpr())
            r = ch[0] == ch[1]
        elif d in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            fl, seen = [], set()
            for c in ch:
                for x in (c.children() if z3.is_app(c) and c.decl().kind() == d else [c]):
                    if x.get_id() not in seen:
                        seen.add(x.get_id())
                        fl.append(x)
            fl.sort(key=lambda x: x.sexpr())
            r = fl[0] if len(fl) == 1 else (z3.And if d == z3.Z3_OP_AND else z3.Or)(*fl)
        elif d == z3.Z3_OP_MUL:
            fl = [y for x in ch for y in flat_mul(x)]
            fl.sort(key=lambda x: x.sexpr())
            r = fl[0]
            for x in fl[1:]:
                r = r * x
        elif any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = rebuild(t, ch)
    _CANON[i] = (t, r)
    return r


def one_more(hi):
    """x for x + 1 with x the number of a round of a loop with an invariant"""
    if z3.is_app_of(hi, z3.Z3_OP_ADD) and hi.num_args() == 2:
        for a, b in (hi.children(), hi.children()[::-1]):
            if lit(b) == 1 and z3.is_const(a) and a.decl().name().startswith("round!"):
                return a
    return None


class Normaliser:
    """Rewrites sums into a linear form over irreducible sums."""

    def __init__(self, prove=None):
        self.cache = {}
        self.normal = {}
        self.prove = prove  # callable(list of hyps, goal) -> bool (cheap)

    def term(self, t):
        """normalise all sums in t (bottom-up over maximal sums)"""
        if not is_z3(t):
            return t
        sums = collect(t, is_sum)
        sums = [s for s in sums if not has_free_var(s)]
        if not sums:
            return t
        pairs = [(s, self.closed(s)) for s in sums]
        pairs = [(s, fix_sort(n, s)) for s, n in pairs]
        return z3.substitute(t, *pairs)

    def closed(self, s):
        """normal form whose own sums are normal too (a pinned index leaves raw ones behind)"""
        r = to_z3(self.sum(s))
        for _ in range(4):
            raw = [x for x in collect(r, is_sum) if x.get_id() not in self.normal and not has_free_var(x)]
            if not raw:
                break
            r = z3.substitute(r, *[(x, fix_sort(to_z3(self.sum(x)), x)) for x in raw])
        return r

    def sum(self, s):
        key = s.get_id()
        if key in self.cache:
            return self.cache[key][1]
        lo, hi, k, body = open_sum(s)
        x = one_more(hi)
        if x is not None and contains(body, k):
            # a round of a loop with an invariant adds one term
            r = ite(cmp("<=", lo, x), add(self.norm(lo, x, k, body), z3.substitute(body, (k, x))), 0)
        else:
            r = self.norm(lo, hi, k, body)
        self.cache[key] = (s, r)
        return r

    def atom(self, lo, hi, k, body):
        # canonical bound variable so that equal bodies share a term
        kc = z3.Int("s#%d" % depth(body))
        r = mk_sum(lo, hi, kc, canon(z3.substitute(body, (k, kc))))
        self.normal[r.get_id()] = r
        return r

    def norm(self, lo, hi, k, body, fuel=40):
        body = to_z3(body)
        body = z3.simplify(body, som=False, arith_ite_lhs=False) if False else body
        if fuel == 0:
            return self.atom(lo, hi, k, body)
        if z3.is_int_value(body) or z3.is_rational_value(body):
            if lit(body) == 0:
                return 0
        if not contains(body, k):
            cnt = ite(cmp("<", lo, hi), sub(hi, lo), 0)
            return mul(cnt, body)
        llo, lhi = lit(z3.simplify(to_z3(lo))), lit(z3.simplify(to_z3(hi)))
        if isinstance(llo, int) and isinstance(lhi, int) and lhi - llo <= 12:
            r = 0
            for j in range(llo, lhi):
                r = add(r, z3.substitute(body, (k, z3.IntVal(j))))
            return r
        d = body.decl().kind() if z3.is_app(body) else None
        if d == z3.Z3_OP_ADD:
            r = 0
            for c in body.children():
                r = add(r, self.norm(lo, hi, k, c, fuel - 1))
            return r
        if d == z3.Z3_OP_SUB:
            cs = body.children()
            r = self.norm(lo, hi, k, cs[0], fuel - 1)
            for c in cs[1:]:
                r = sub(r, self.norm(lo, hi, k, c, fuel - 1))
            return r
        if d == z3.Z3_OP_UMINUS:
            return neg(self.norm(lo, hi, k, body.arg(0), fuel - 1))
        if d == z3.Z3_OP_TO_REAL:
            inner = body.arg(0)
            di = inner.decl().kind()
            if di in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE, z3.Z3_OP_MUL) or is_sum(inner):
                return self.norm(lo, hi, k, push_real(inner), fuel - 1)
        if d == z3.Z3_OP_MUL:
            fs = flat_mul(body)
            out = [f for f in fs if not contains(f, k)]
            ins = [f for f in fs if contains(f, k)]
            if out:
                f = 1
                for o in out:
                    f = mul(f, o)
                g = 1
                for o in ins:
                    g = mul(g, o)
                return mul(f, self.norm(lo, hi, k, g, fuel - 1))
            for n, x in enumerate(ins):
                if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                    rest = 1
                    for m, y in enumerate(ins):
                        if m != n:
                            rest = mul(rest, y)
                    kids = x.children()
                    if x.decl().kind() == z3.Z3_OP_UMINUS:
                        return neg(self.norm(lo, hi, k, mul(kids[0], rest), fuel - 1))
                    r = self.norm(lo, hi, k, mul(kids[0], rest), fuel - 1)
                    for y in kids[1:]:
                        t = self.norm(lo, hi, k, mul(y, rest), fuel - 1)
                        r = add(r, t) if x.decl().kind() == z3.Z3_OP_ADD else sub(r, t)
                    return r
            for n, x in enumerate(ins):
                if z3.is_app_of(x, z3.Z3_OP_TO_REAL) and x.arg(0).decl().kind() in (
                        z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE, z3.Z3_OP_MUL):
                    rest = push_real(x.arg(0))
                    for m, y in enumerate(ins):
                        if m != n:
                            rest = mul(rest, y)
                    return self.norm(lo, hi, k, to_z3(rest), fuel - 1)
            # a quotient by something fixed
            for n, x in enumerate(ins):
                if z3.is_app_of(x, z3.Z3_OP_DIV) and not contains(x.arg(1), k):
                    rest = x.arg(0)
                    for m, y in enumerate(ins):
                        if m != n:
                            rest = mul(rest, y)
                    return div(self.norm(lo, hi, k, to_z3(rest), fuel - 1), x.arg(1))
            # lift an if out of a product
            for n, x in enumerate(ins):
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    rest = 1
                    for m, y in enumerate(ins):
                        if m != n:
                            rest = mul(rest, y)
                    return self.norm(lo, hi, k, z3.If(x.arg(0), to_z3(mul(x.arg(1), rest)), to_z3(mul(x.arg(2), rest)))
                                     if not zero_branch(x) else ite_zero(x, rest), fuel - 1)
            # product with a sum inside
            for n, x in enumerate(ins):
                if is_sum(x):
                    rest = 1
                    for mm, y in enumerate(ins):
                        if mm != n:
                            rest = mul(rest, y)
                    return self.mul_sum(lo, hi, k, to_z3(rest), x, fuel)
        if d == z3.Z3_OP_DIV:
            if not contains(body.arg(1), k):
                return div(self.norm(lo, hi, k, body.arg(0), fuel - 1), body.arg(1))
        if d == z3.Z3_OP_ITE:
            return self.norm_ite(lo, hi, k, body, fuel)
        if is_sum(body):
            lo2, hi2, m, b2 = open_sum(body)
            inner = to_z3(self.norm(lo2, hi2, m, b2, fuel - 1))
            if not inner.eq(body) and not (is_sum(inner)):
                return self.norm(lo, hi, k, fix_sort(inner, body), fuel - 1)
            if is_sum(inner):
                lo2, hi2, m, b2 = open_sum(inner)
            # irreducible inside: try the other order
            if not contains(to_z3(lo2), k) and not contains(to_z3(hi2), k):
                other = to_z3(self.norm(lo, hi, k, b2, fuel - 1))
                if not is_sum(other):
                    return self.norm(lo2, hi2, m, other, fuel - 1)
                # both orders irreducible: choose canonically
                a1 = self.atom(lo, hi, k, to_z3(self.atom(lo2, hi2, m, b2)))
                a2 = self.atom(lo2, hi2, m, to_z3(self.atom(lo, hi, k, b2)))
                return min((a1, a2), key=lambda t: t.sexpr())
        return self.atom(lo, hi, k, body)

    swapping = 0

    def mul_sum(self, lo, hi, k, rest, x, fuel):
        """sum over k of rest(k) * (sum over m of b(k, m))"""
        lo2, hi2, m, b2 = open_sum(x)
        inner = to_z3(self.norm(lo2, hi2, m, b2, fuel - 1))
        if not is_sum(inner):
            return self.norm(lo, hi, k, to_z3(mul(rest, inner)), fuel - 1)
        a = self.atom(lo, hi, k, to_z3(mul(rest, inner)))
        lo2, hi2, m, b2 = open_sum(inner)
        if self.swapping > 2 or contains(to_z3(lo2), k) or contains(to_z3(hi2), k):
            return a
        self.swapping += 1
        try:
            other = to_z3(self.norm(lo, hi, k, to_z3(mul(rest, b2)), fuel - 1))
            if is_sum(other):
                return a
            b = self.norm(lo2, hi2, m, other, fuel - 1)
        finally:
            self.swapping -= 1
        if not is_sum(to_z3(b)):
            return b
        return min((a, to_z3(b)), key=lambda t: (bind_depth(t), t.sexpr()))

    def norm_ite(self, lo, hi, k, body, fuel):
        c, a, b = body.children()
        if not contains(c, k):
            return ite(c, self.norm(lo, hi, k, a, fuel - 1), self.norm(lo, hi, k, b, fuel - 1))
        ck = c.decl().kind() if z3.is_app(c) else None
        if ck == z3.Z3_OP_NOT:
            return self.norm(lo, hi, k, z3.If(c.arg(0), b, a), fuel - 1)
        if ck == z3.Z3_OP_OR:
            rest = c.children()[1:]
            rest = rest[0] if len(rest) == 1 else z3.Or(*rest)
            return self.norm(lo, hi, k, z3.If(c.arg(0), a, z3.If(rest, a, b)), fuel - 1)
        if ck == z3.Z3_OP_ITE:
            return self.norm(lo, hi, k, z3.If(c.arg(0), z3.If(c.arg(1), a, b), z3.If(c.arg(2), a, b)), fuel - 1)
        if not is_zero(b):
            if is_zero(a):
                return self.norm(lo, hi, k, z3.If(z3.Not(c) if ck != z3.Z3_OP_NOT else c.arg(0), b, a), fuel - 1) \
                    if ck not in (z3.Z3_OP_EQ, z3.Z3_OP_AND) else \
                    sub(self.norm(lo, hi, k, b, fuel - 1), self.norm(lo, hi, k, ite0(c, b), fuel - 1))
            return add(self.norm(lo, hi, k, b, fuel - 1),
                       self.norm(lo, hi, k, ite0(c, to_z3(sub(a, b))), fuel - 1))
        # now If(c, a, 0)
        conj = flat_and(c)
        e = pinned(c, k)
        if e is not None:
            e = to_z3(e)
            cond = And(cmp("<=", lo, e), cmp("<", e, hi), subst_true(c, k, e))
            return ite(cond, z3.substitute(a, (k, e)), 0)
        free = [x for x in conj if not contains(x, k)]
        if free:
            rest = [x for x in conj if contains(x, k)]
            return ite(And(*free), self.norm(lo, hi, k, ite0(And(*rest), a), fuel - 1), 0)
        # range conditions narrow the bounds
        for n, x in enumerate(conj):
            b2 = bound(x, k)
            if b2 is not None:
                rest = conj[:n] + conj[n + 1:]
                body2 = ite0(And(*rest), a) if rest else a
                kind, e = b2
                if kind == "lo":
                    nlo = lo if known_le(e, lo) else zmax(lo, e)
                    return self.norm(nlo, hi, k, body2, fuel - 1)
                nhi = hi if known_le(hi, e) else zmin(hi, e)
                return self.norm(lo, nhi, k, body2, fuel - 1)
        # an index fixed by an equation
        for n, x in enumerate(conj):
            if z3.is_eq(x):
                for t, e in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if not contains(e, k) and contains(t, k) and z3.is_app(t) and t.num_args() \
                            and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        rest = conj[:n] + conj[n + 1:]
                        r2 = [drop_trivial(z3.substitute(y, (t, e))) for y in rest]
                        a2 = z3.substitute(a, (t, e))
                        if not a2.eq(a) or any(not y.eq(w) for y, w in zip(rest, r2)):
                            cc = And(x, *[lit(y) for y in r2])
                            if cc is False:
                                return 0
                            return self.norm(lo, hi, k, ite0(to_z3(cc), a2), fuel - 1)
        if z3.is_app(a):
            ad = a.decl().kind()
            if ad in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                r = self.norm(lo, hi, k, ite0(c, a.arg(0)), fuel - 1)
                for x in a.children()[1:]:
                    y = self.norm(lo, hi, k, ite0(c, x), fuel - 1)
                    r = add(r, y) if ad == z3.Z3_OP_ADD else sub(r, y)
                return r
            if ad == z3.Z3_OP_UMINUS:
                return neg(self.norm(lo, hi, k, ite0(c, a.arg(0)), fuel - 1))
            if ad == z3.Z3_OP_MUL:
                fs = flat_mul(a)
                out = [f for f in fs if not contains(f, k)]
                ins = [f for f in fs if contains(f, k)]
                if out:
                    f = 1
                    for o in out:
                        f = mul(f, o)
                    g = 1
                    for o in ins:
                        g = mul(g, o)
                    g = to_z3(g) if ins else (z3.RealVal(1) if z3.is_real(a) else z3.IntVal(1))
                    return mul(f, self.norm(lo, hi, k, ite0(c, g), fuel - 1))
                for n, x in enumerate(ins):
                    if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                        rest = 1
                        for m, y in enumerate(ins):
                            if m != n:
                                rest = mul(rest, y)
                        kids = x.children()
                        if x.decl().kind() == z3.Z3_OP_UMINUS:
                            return neg(self.norm(lo, hi, k, ite0(c, to_z3(mul(kids[0], rest))), fuel - 1))
                        r = self.norm(lo, hi, k, ite0(c, to_z3(mul(kids[0], rest))), fuel - 1)
                        for y in kids[1:]:
                            t = self.norm(lo, hi, k, ite0(c, to_z3(mul(y, rest))), fuel - 1)
                            r = add(r, t) if x.decl().kind() == z3.Z3_OP_ADD else sub(r, t)
                        return r
                for n, x in enumerate(ins):
                    if z3.is_app_of(x, z3.Z3_OP_DIV) and not contains(x.arg(1), k):
                        rest = x.arg(0)
                        for m, y in enumerate(ins):
                            if m != n:
                                rest = mul(rest, y)
                        return div(self.norm(lo, hi, k, ite0(c, to_z3(rest)), fuel - 1), x.arg(1))
            if ad == z3.Z3_OP_DIV and not contains(a.arg(1), k):
                return div(self.norm(lo, hi, k, ite0(c, a.arg(0)), fuel - 1), a.arg(1))
            if not contains(a, k) and not (lit(a) in (1, Fraction(1))):
                one = z3.RealVal(1) if z3.is_real(a) else z3.IntVal(1)
                return mul(a, self.norm(lo, hi, k, ite0(c, one), fuel - 1))
            if ad == z3.Z3_OP_ITE:
                c2, a2, b2 = a.children()
                if is_zero(b2):
                    return self.norm(lo, hi, k, ite0(z3.And(*(flat_and(c) + flat_and(c2))), a2), fuel - 1)
                return add(self.norm(lo, hi, k, ite0(c, b2), fuel - 1),
                           self.norm(lo, hi, k, ite0(z3.And(*(flat_and(c) + flat_and(c2))), to_z3(sub(a2, b2))), fuel - 1))
            if ad == z3.Z3_OP_TO_REAL:
                inner = a.arg(0)
                if z3.is_app(inner) and (inner.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE, z3.Z3_OP_MUL) or is_sum(inner)):
                    return self.norm(lo, hi, k, ite0(c, push_real(inner)), fuel - 1)
            if is_sum(a):
                lo2, hi2, m, b2 = open_sum(a)
                return self.norm(lo, hi, k, to_z3(mk_sum(lo2, hi2, m, ite0(c, b2))), fuel - 1)
        # canonical conjunct order
        conj2 = sorted(conj, key=lambda t: t.sexpr())
        return self.atom(lo, hi, k, ite0(And(*conj2), a))


def zero_branch(x):
    return is_zero(x.arg(1)) or is_zero(x.arg(2))


def ite_zero(x, rest):
    c, a, b = x.children()
    ra = to_z3(mul(a, rest)) if not is_zero(a) else None
    rb = to_z3(mul(b, rest)) if not is_zero(b) else None
    srt = (ra if ra is not None else rb)
    z = z3.RealVal(0) if srt is not None and z3.is_real(srt) else z3.IntVal(0)
    return z3.If(c, ra if ra is not None else z, rb if rb is not None else z)


def ite0(c, a):
    if c is True:
        return a
    if not is_zero(a):
        cs = [x for x in flat_and(c) if not vacuous_test(x, a, z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0))]
        if not cs:
            return a
        c = cs[0] if len(cs) == 1 else z3.And(*cs)
    z = z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)
    return z3.If(c, a, z)


def is_zero(t):
    return (z3.is_int_value(t) or z3.is_rational_value(t)) and lit(t) == 0


def known_le(a, b):
    d = z3.simplify(to_z3(a) - to_z3(b))
    v = lit(d)
    return isinstance(v, int) and v <= 0


def subst_true(c, k, e):
    """c[k := e] with the resulting trivial equalities removed"""
    c = z3.substitute(c, (k, to_z3(e)))
    return lit(drop_trivial(c))


def drop_trivial(c):
    if z3.is_and(c):
        return to_z3(And(*[lit(drop_trivial(x)) for x in c.children()]))
    if z3.is_or(c):
        return to_z3(Or(*[lit(drop_trivial(x)) for x in c.children()]))
    if z3.is_not(c):
        return to_z3(Not(lit(drop_trivial(c.arg(0)))))
    if z3.is_eq(c) and c.arg(0).eq(c.arg(1)):
        return z3.BoolVal(True)
    if z3.is_eq(c) and z3.is_int(c.arg(0)) and not has_app(c):
        v = lit(z3.simplify(c))
        if isinstance(v, bool):
            return z3.BoolVal(v)
    g = ge_form(c)
    if g is not None:
        co, at, k0 = g
        if not co:
            return z3.BoolVal(k0 >= 0)
        # c * (x div c) against x
        r = div_fact(co, at, k0)
        if r is not None:
            return z3.BoolVal(r)
    return c


def div_fact(co, at, k0):
    """x - c*(x div c) + k0 >= 0 is true for k0 >= 0, false for k0 <= -c; the converse likewise"""
    for i, a in at.items():
        if not z3.is_app(a) or a.decl().kind() not in (z3.Z3_OP_IDIV,) or not z3.is_int_value(a.arg(1)):
            continue
        c = a.arg(1).as_long()
        if c < 1 or co[i] % c or co[i] == 0:
            continue
        f = -co[i] // c                      # L = f*x - f*c*(x div c) + rest = f*(x mod c) + rest
        xc, xat, xk = linform(a.arg(0))
        rest = {j: v for j, v in co.items() if j != i}
        for j, v in xc.items():
            rest[j] = rest.get(j, 0) - f * v
        rest = {j: v for j, v in rest.items() if v}
        if rest:
            continue
        r = k0 - f * xk                      # L = f*m + r, 0 <= m < c
        lo, hi = min(r, f * (c - 1) + r), max(r, f * (c - 1) + r)
        if lo >= 0:
            return True
        if hi < 0:
            return False
    return None


def flat_and(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += flat_and(x)
        return out
    return [c]


def flat_mul(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        out = []
        for x in t.children():
            out += flat_mul(x)
        return out
    return [t]


def push_real(x):
    """real-sorted equivalent of int term x with ToReal pushed inwards"""
    if z3.is_int_value(x):
        return z3.RealVal(x.as_long())
    d = x.decl().kind()
    if d == z3.Z3_OP_ITE:
        return z3.If(x.arg(0), push_real(x.arg(1)), push_real(x.arg(2)))
    if d == z3.Z3_OP_ADD:
        r = push_real(x.arg(0))
        for c in x.children()[1:]:
            r = r + push_real(c)
        return r
    if d == z3.Z3_OP_SUB:
        r = push_real(x.arg(0))
        for c in x.children()[1:]:
            r = r - push_real(c)
        return r
    if d == z3.Z3_OP_UMINUS:
        return -push_real(x.arg(0))
    if d == z3.Z3_OP_MUL:
        r = push_real(x.arg(0))
        for c in x.children()[1:]:
            r = r * push_real(c)
        return r
    if is_sum(x):
        lo, hi, k, body = open_sum(x)
        return to_z3(real(mk_sum(lo, hi, k, push_real(body))))
    return z3.ToReal(x)


def solve_eq(x, k):
    """x is an equality that determines k: return e with k == e"""
    if not z3.is_eq(x) or not z3.is_int(x.arg(0)):
        return None
    l, r = x.arg(0), x.arg(1)
    for a, b in ((l, r), (r, l)):
        if a.eq(k) and not contains(b, k):
            return b
    for a, b in ((l, r), (r, l)):
        if contains(b, k):
            continue
        d = z3.simplify(a - k)
        if not contains(d, k):
            return z3.simplify(b - d)
        d = z3.simplify(a + k)
        if not contains(d, k):
            return z3.simplify(d - b)
    d = z3.simplify(l - r - k)
    if not contains(d, k):
        return z3.simplify(-d)
    d = z3.simplify(l - r + k)
    if not contains(d, k):
        return d
    return None


def bound(x, k):
    """('lo', e): k >= e ; ('hi', e): k < e"""
    neg_ = False
    while z3.is_not(x):
        neg_ = not neg_
        x = x.arg(0)
    if not z3.is_app(x) or x.num_args() != 2 or not z3.is_int(x.arg(0)):
        return None
    kd = x.decl().kind()
    ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">"}
    if kd not in ops:
        return None
    op = ops[kd]
    if neg_:
        op = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[op]
    l, r = x.arg(0), x.arg(1)
    d = z3.simplify(l - r - k)
    if not contains(d, k):  # k + d op 0
        e = z3.simplify(-d)
    else:
        d = z3.simplify(r - l - k)
        if contains(d, k):
            return None
        e = z3.simplify(-d)  # 0 op k + d
        op = {"<=": ">=", "<": ">", ">=": "<=", ">": "<"}[op]
    return {"<": ("hi", e), "<=": ("hi", z3.simplify(e + 1)), ">=": ("lo", e), ">": ("lo", z3.simplify(e + 1))}[op]


def depth(t):
    best = 0
    for s in collect_all(t, is_sum):
        lam = s.arg(2)
        if z3.is_quantifier(lam):
            n = lam.var_name(0)
            if n.startswith("s#"):
                best = max(best, int(n[2:]) + 1)
    return best


def has_free_var(t):
    """free de Bruijn variables (t was found under a binder)"""
    def rec(x, d, seen):
        key = (x.get_id(), d)
        if key in seen:
            return False
        seen.add(key)
        if z3.is_var(x):
            return z3.get_var_index(x) >= d
        if z3.is_quantifier(x):
            return rec(x.body(), d + x.num_vars(), seen)
        return any(rec(c, d, seen) for c in x.children())
    return rec(t, 0, set())


def fix_sort(n, like):
    n = to_z3(n)
    if z3.is_real(like) and not z3.is_real(n):
        return to_z3(real(n))
    return n


# ---------------------------------------------------------------- other bound terms
ArgMaxI = z3.Function("ArgMaxI", z3.IntSort(), z3.IntSort(), _IA, z3.IntSort())
ArgMaxR = z3.Function("ArgMaxR", z3.IntSort(), z3.IntSort(), _RA, z3.IntSort())
_BA = z3.ArraySort(z3.IntSort(), z3.BoolSort())
FirstF = z3.Function("First", z3.IntSort(), z3.IntSort(), _BA, z3.IntSort())
LastF = z3.Function("Last", z3.IntSort(), z3.IntSort(), _BA, z3.IntSort())


def _lam(op, lo, hi, f):
    k = fresh_int("q")
    body = f(k)
    return mk_bind(op, lo, hi, k, body)


def mk_bind(op, lo, hi, k, body):
    body = to_z3(body)
    kc = z3.Int("q#%d" % bind_depth(body))
    body = z3.substitute(body, (k, kc))
    return op(to_z3(lo), to_z3(hi), z3.Lambda([kc], body))


def bind_depth(t):
    best = 0
    for s in collect_all(t, is_bind):
        lam = s.arg(2)
        if z3.is_quantifier(lam):
            n = lam.var_name(0)
            if "#" in n:
                best = max(best, int(n.split("#")[1]) + 1)
    return best


_BINDS = None


def is_bind(t):
    global _BINDS
    if _BINDS is None:
        _BINDS = {f.get_id() for f in (SumI, SumR, ArgMaxI, ArgMaxR, FirstF, LastF)}
    return z3.is_app(t) and t.num_args() == 3 and t.decl().get_id() in _BINDS


def ArgMax(lo, hi, f):
    """first index of the largest f(k), lo <= k < hi"""
    lo, hi = lit(arith(lo)), lit(arith(hi))
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 30:
        best, bi = arith(f(lo)), lo
        for j in range(lo + 1, hi):
            v = arith(f(j))
            c = cmp(">", v, best)
            best, bi = ite(c, v, best), ite(c, j, bi)
        return bi
    k = fresh_int("q")
    body = to_z3(arith(f(k)))
    return mk_bind(ArgMaxI if z3.is_int(body) else ArgMaxR, lo, hi, k, body)


def Max(lo, hi, f):
    llo, lhi = lit(arith(lo)), lit(arith(hi))
    if isinstance(llo, int) and isinstance(lhi, int) and lhi - llo <= 30:
        best = arith(f(llo))
        for j in range(llo + 1, lhi):
            v = arith(f(j))
            best = ite(cmp(">", v, best), v, best)
        return best
    return f(ArgMax(lo, hi, f))


def First(lo, hi, f):
    """first k with f(k), else max(lo, hi)"""
    return _lam(FirstF, lo, hi, f)


def Last(lo, hi, f):
    """last k in lo..hi-1 with f(k), else lo - 1"""
    llo, lhi = lit(arith(lo)), lit(arith(hi))
    if isinstance(llo, int) and isinstance(lhi, int) and lhi - llo <= 8:
        r = llo - 1
        for j in range(llo, lhi):
            r = ite(f(j), j, r)
        return r
    k = fresh_int("q")
    b = lit(f(k))
    if b is False:
        return sub(lo, 1)
    b = to_z3(b)
    # a condition that pins k
    e = pinned(b, k)
    if e is not None:
        c = And(cmp("<=", lo, e), cmp("<", e, hi), subst_true(b, k, e))
        return ite(c, e, sub(lo, 1))
    return mk_bind(LastF, lo, hi, k, b)


def bind_axioms(t):
    """facts about one ground bound term (not for sums)"""
    d = t.decl()
    lo, hi, lam = t.arg(0), t.arg(1), t.arg(2)
    k = fresh_int("ax")

    def body(x):
        return z3.substitute_vars(lam.body(), x) if z3.is_quantifier(lam) else z3.Select(lam, x)
    if d.eq(ArgMaxI) or d.eq(ArgMaxR):
        return [z3.Implies(lo < hi, z3.And(lo <= t, t < hi)),
                z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(
                    body(k) <= body(t), z3.Implies(k < t, body(k) < body(t)))))]
    if d.eq(FirstF):
        return [t >= lo, z3.Or(t <= hi, hi < lo), z3.Implies(z3.And(lo <= t, t < hi), body(t)),
                z3.Implies(hi <= lo, t == lo),
                z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < t, k < hi), z3.Not(body(k))))]
    if d.eq(LastF):
        return [t >= lo - 1, z3.Or(t < hi, t == lo - 1), z3.Implies(t >= lo, z3.And(t < hi, body(t))),
                z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi, body(k)), k <= t))]
    return []


# ---------------------------------------------------------------- rewriting
class Rewriter:
    """replaces applications of given functions (and constants), bottom-up, opening binders"""

    def __init__(self, table):
        self.table = table          # decl id -> callable(args) -> term
        self.memo = {}

    def __call__(self, t):
        if not is_z3(t):
            return t
        if not self.table:
            return t
        return self._r(t)

    def _r(self, t):
        key = t.get_id()
        if key in self.memo:
            return self.memo[key][1]
        if z3.is_quantifier(t):
            if not contains_any(t, self.table):
                r = t
            else:
                ks = [z3.Const(fresh_name("bv"), t.var_sort(i)) for i in range(t.num_vars())]
                body = z3.substitute_vars(t.body(), *reversed(ks))
                body = to_z3(self._r(body))
                if t.is_lambda():
                    r = z3.Lambda(ks, body)
                elif t.is_forall():
                    r = z3.ForAll(ks, body)
                else:
                    r = z3.Exists(ks, body)
        elif is_bind(t) and contains_any(t, self.table):
            lo, hi, k, body = open_sum(t)
            body = to_z3(self._r(body))
            lo, hi = to_z3(self._r(lo)), to_z3(self._r(hi))
            if is_sum(t):
                r = fix_sort(mk_sum(lo, hi, k, body), t)
            else:
                r = mk_bind(t.decl(), lo, hi, k, body)
        elif z3.is_app(t):
            ch = [to_z3(self._r(c)) for c in t.children()]
            f = self.table.get(t.decl().get_id())
            if f is not None:
                r = fix_sort2(f(*ch), t)
            elif not ch:
                r = t
            elif all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            else:
                r = rebuild(t, ch)
        else:
            r = t
        self.memo[key] = (t, r)
        return r


def fix_sort2(n, like):
    n = to_z3(n)
    if z3.is_real(like) and z3.is_int(n):
        return to_z3(real(n))
    return n


def rebuild(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if k == z3.Z3_OP_AND:
        return to_z3(And(*ch))
    if k == z3.Z3_OP_OR:
        return to_z3(Or(*ch))
    if k == z3.Z3_OP_ITE:
        c = lit(z3.simplify(ch[0]) if not contains_bind(ch[0]) else ch[0])
        if isinstance(c, bool):
            return ch[1] if c else ch[2]
        if ch[1].eq(ch[2]):
            return ch[1]
        return z3.If(ch[0], ch[1], ch[2])
    if k == z3.Z3_OP_TO_REAL:
        return to_z3(to_real(ch[0]))
    return t.decl()(*ch)


def contains_bind(t):
    return bool(collect(t, lambda x: is_bind(x) or z3.is_quantifier(x)))


def eqi(a, b):
    """a == b for index terms, decided when the difference is a literal"""
    a, b = lit(arith(a)), lit(arith(b))
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = to_z3(a), to_z3(b)
    if a.eq(b):
        return True
    if z3.is_int(a) and z3.is_int(b) and not has_app(a) and not has_app(b):
        d = lit(z3.simplify(a - b))
        if isinstance(d, int):
            return d == 0
    return cmp("==", a, b)


def has_app(t):
    """applications of functions or ifs inside (then the difference is not computed)"""
    return bool(collect(t, lambda x: z3.is_quantifier(x) or is_bind(x) or z3.is_app_of(x, z3.Z3_OP_ITE)))
