"""Values of the symbolic interpreter: arrays (views of heap buffers), masked
selections, opaque objects, and the interpreter state."""
import z3

from pyvc import terms as T
from pyvc.terms import Unsupported


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Maybe:
    """defined only when cond holds"""

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class Poison:
    """a value the engine does not track: reading it is outside the fragment"""

    def __init__(self, why):
        self.why = why


class Opaque:
    """a value without semantics here (strings, files, names)"""

    def __init__(self, tag="", truth=None):
        self.tag = tag


class Partial:
    """spec value known only under cond"""

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class Buf:
    def __init__(self, bid, shape, kind, name, arg=None, frozen=False):
        self.id, self.shape, self.kind, self.name, self.arg, self.frozen = bid, tuple(shape), kind, name, arg, frozen


class Arr:
    """view of a buffer; axes: one entry per buffer axis, ('f', e) or ('v', view axis, lo, step)"""

    def __init__(self, buf, axes, shape):
        self.buf, self.axes, self.shape = buf, tuple(axes), tuple(shape)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    def bidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "f":
                out.append(a[1])
            else:
                _, v, lo, step = a
                out.append(T.add(lo, T.mul(step, idx[v])))
        return tuple(out)

    def is_full(self):
        return all(a[0] == "v" and a[1] == n and T.lit(T.num(a[2])) == 0 and a[3] == 1
                   for n, a in enumerate(self.axes)) and len(self.axes) == len(self.shape)


class Masked:
    """values of base positions selected by a mask, in order (x[mask], np.where(c)[0], ...)"""

    def __init__(self, shape, mask, val, kind, pin=False):
        self.shape, self.mask, self.val, self.kind = tuple(shape), mask, val, kind
        self.pin = pin       # strictly increasing positions themselves (np.nonzero)


class Range:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Seq:
    """lazy iterable: levels [(lo, hi)], guard(*ks), elem(*ks)"""

    def __init__(self, levels, guard, elem):
        self.levels, self.guard, self.elem = levels, guard, elem


class Uniq:
    """the different elements of an array, in the order of their first appearance"""

    def __init__(self, E, n, read):
        self.E, self.n, self.read = E, n, read
        self.count = self.before(n)

    def first(self, j):
        """is this the first place of its element"""
        return T.Not(self.E.exists((0, j), lambda i: T.cmp("==", self.read(i), self.read(j))))

    def has(self, x):
        return self.E.exists((0, self.n), lambda j: T.cmp("==", self.read(j), x))

    def before(self, k):
        """how many different elements appear first before place k"""
        return T.Sum(0, k, lambda j: T.ite(self.first(j), 1, 0))


class Ranks:
    """dictionary from the elements of a Uniq to their numbers"""

    def __init__(self, uniq):
        self.uniq = uniq

    def number(self, x):
        u = self.uniq
        return u.before(T.First(0, u.n, lambda j: T.cmp("==", u.read(j), x)))


class FuncRef:
    def __init__(self, file, func):
        self.file, self.func = file, func


class NpRef:
    def __init__(self, path):
        self.path = path


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class State:
    __slots__ = ("vars", "heap", "path", "facts")

    def __init__(self, vars=None, heap=None, path=(), facts=()):
        self.vars = vars if vars is not None else {}
        self.heap = heap if heap is not None else {}
        self.path, self.facts = tuple(path), tuple(facts)

    def copy(self):
        return State(dict(self.vars), dict(self.heap), self.path, self.facts)

    def hyps(self):
        return list(self.path) + list(self.facts)


def memo(f):
    """content functions are asked for the same cell again and again"""
    cache = {}

    def g(*idx):
        key = tuple(i.get_id() if T.is_z3(i) else i for i in idx)
        if key not in cache:
            cache[key] = (idx, f(*idx))
        return cache[key][1]
    return g


def template(ks, term):
    """content function from a term over index constants"""
    def g(*idx):
        if len(idx) != len(ks):
            raise Unsupported("dimension")
        if not T.is_z3(term):
            return term
        pairs = [(k, T.to_z3(i)) for k, i in zip(ks, idx)]
        r = fold_subst(term, pairs)
        return T.lit(r)
    return memo(g)


def fold_subst(term, pairs):
    """substitution that folds ifs whose condition becomes literal"""
    t = z3.substitute(term, *pairs) if pairs else term
    return fold(t)


_FOLD = {}


def fold(t, depth=0):
    """folds top-level if-conditions decided by index arithmetic"""
    if not z3.is_app(t) or not z3.is_app_of(t, z3.Z3_OP_ITE) or depth > 40:
        return t
    key = t.get_id()
    if key in _FOLD:
        return _FOLD[key][1]
    c = t.arg(0)
    cs = c
    if not T.contains_bind(c):
        cs = z3.simplify(c)
    v = T.lit(cs)
    if v is True:
        r = fold(t.arg(1), depth + 1)
    elif v is False:
        r = fold(t.arg(2), depth + 1)
    else:
        a, b = fold(t.arg(1), depth + 1), fold(t.arg(2), depth + 1)
        r = t if a.eq(t.arg(1)) and b.eq(t.arg(2)) else (a if a.eq(b) else z3.If(c, a, b))
    _FOLD[key] = (t, r)
    return r
