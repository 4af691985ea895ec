"""Arrays of symbolic size: a shape and a function of the index.

Every operation builds the function of the result; an element is computed by calling
it with an index, with the case distinctions (segments of slices) decided on the path.
"""
import numpy as np
import z3

from . import funcs
from .sym import SNum, SBool, SComplex, Unsupported, ctx, _real


def isnum(x):
    return isinstance(x, (int, np.integer, SNum)) and not isinstance(x, bool)


def sint(x):
    return SNum(z3.simplify(x.e)) if isinstance(x, SNum) else int(x)


def truth(b):
    return bool(b)


def same(a, b):
    """equal sizes (decided on the path)"""
    if not isinstance(a, SNum) and not isinstance(b, SNum):
        return a == b
    return truth(a == b)


def check(i, n):
    """index i of a dimension of size n, numpy semantics"""
    if truth(i < 0):
        i = i + n
        if truth(i < 0):
            raise IndexError("index out of bounds")
    if truth(i >= n):
        raise IndexError("index out of bounds")
    return sint(i)


def bounds(s, n):
    """first index, number of elements and step of a slice"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SNum):
        raise Unsupported("symbolic step")
    step = int(step)

    def clip(v, lo, hi):
        if truth(v < 0):
            v = v + n
            if truth(v < lo):
                v = lo
        elif truth(v > hi):
            v = hi
        return v

    if step > 0:
        a = 0 if s.start is None else clip(s.start, 0, n)
        b = n if s.stop is None else clip(s.stop, 0, n)
        d = b - a
    else:
        a = n - 1 if s.start is None else clip(s.start, -1, n - 1)
        b = -1 if s.stop is None else clip(s.stop, -1, n - 1)
        d = a - b
    k = abs(step)
    if isinstance(d, SNum) or isinstance(a, SNum):
        if truth(d <= 0):
            return sint(a), 0, step
    elif d <= 0:
        return a, 0, step
    return sint(a), sint(d if k == 1 else (d + k - 1) // k), step


UNKNOWN = object()  # element of an empty array


class SFun(object):
    __array_priority__ = 102

    def __init__(self, shape, f, view=False, dtype=object):
        self._shape, self.f, self.view = tuple(sint(n) for n in shape), f, view
        self.dtype = np.dtype(dtype)

    # structure
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for n in self._shape:
            r = r * n
        return r

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, SNum):
            raise Unsupported("len of an array of symbolic size (builtin not stubbed)")
        return n

    def at(self, *idx):
        r = self.f(*(sint(i) for i in idx))
        return SNum(z3.Real(ctx().name("unknown"))) if r is UNKNOWN else r

    def copy(self):
        return SFun(self._shape, self.f, dtype=self.dtype)

    def astype(self, dtype, **k):
        return self.copy()

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            fill = self.ndim - sum(k is not None for k in key) + 1
            key = key[:i] + (slice(None),) * fill + key[i + 1 :]
        key = key + (slice(None),) * (self.ndim - sum(k is not None for k in key))
        shape, get, d = [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[d]
            j = len(shape)
            if isnum(k):
                v = check(k, n)
                get.append(lambda ix, v=v: v)
            elif isinstance(k, slice):
                a, m, s = bounds(k, n)
                shape.append(m)
                get.append(lambda ix, a=a, s=s, j=j: a + ix[j] * s)
            elif isinstance(k, SFun) and k.ndim == 1 and len(key) == 1:
                shape.append(k.shape[0])
                get.append(lambda ix, k=k, j=j, n=n: check(k.at(ix[j]), n))
            else:
                raise Unsupported("index of an array of symbolic size")
            d += 1
        if not shape:
            return self.at(*(g(()) for g in get))
        f = self.f
        return SFun(shape, lambda *ix: f(*(sint(g(ix)) for g in get)), view=True, dtype=self.dtype)

    def __setitem__(self, key, value):
        if self.view:
            raise Unsupported("assignment to a part of an array of symbolic size")
        key = key if isinstance(key, tuple) else (key,)
        if len(key) == 1 and key[0] is Ellipsis:
            key = ()
        key = key + (slice(None),) * (self.ndim - len(key))
        old, dims = self.f, []
        for k, n in zip(key, self._shape):
            if isnum(k):
                dims.append((check(k, n), None, 1))
            elif isinstance(k, slice):
                dims.append(bounds(k, n))
                if dims[-1][2] not in (1, -1):
                    raise Unsupported("assignment with a step")
            else:
                raise Unsupported("assignment to an array of symbolic size")
        shape = [m for _, m, _ in dims if m is not None]
        value = as_fun(value)
        if isinstance(value, SFun):
            value = value.broadcast(shape)

        def f(*ix):
            sub = []
            for i, (a, m, s) in zip(ix, dims):
                if m is None:
                    if not truth(i == a):
                        return old(*ix)
                    continue
                j = (i - a) * s
                if truth(j < 0) or truth(j >= m):
                    return old(*ix)
                sub.append(j)
            return value.at(*sub) if isinstance(value, SFun) else value

        self.f = f

    def broadcast(self, shape):
        shape = tuple(shape)
        if len(shape) < self.ndim:
            raise ValueError("could not broadcast")
        off = len(shape) - self.ndim
        one = []
        for a, b in zip(self._shape, shape[off:]):
            if same(a, b):
                one.append(False)
            elif same(a, 1):
                one.append(True)
            else:
                raise ValueError("could not broadcast")
        f = self.f
        return SFun(shape, lambda *ix: f(*(0 if o else i for i, o in zip(ix[off:], one))))

    # arithmetic
    def _zip(self, o, op):
        o = as_fun(o)
        f = self.f
        if not isinstance(o, SFun):
            return SFun(self._shape, lambda *ix: op(f(*ix), o))
        n = max(self.ndim, o.ndim)
        a, b = (1,) * (n - self.ndim) + self._shape, (1,) * (n - o.ndim) + o._shape
        shape = []
        for x, y in zip(a, b):
            shape.append(y if not isinstance(x, SNum) and x == 1 else (x if not isinstance(y, SNum) and y == 1 else (x if same(x, y) else (y if same(x, 1) else x))))
        p, q = self.broadcast(shape), o.broadcast(shape)
        return SFun(shape, lambda *ix: op(p.f(*ix), q.f(*ix)))

    def map(self, op):
        f = self.f
        return SFun(self._shape, lambda *ix: op(f(*ix)))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != "__call__" or set(kwargs) - {"dtype"}:
            raise Unsupported("ufunc {} {} of an array of symbolic size".format(ufunc.__name__, method))
        name = ufunc.__name__
        if len(inputs) == 2 and name in BINARY:
            a, b = (as_fun(x) for x in inputs)
            op = BINARY[name]
            if isinstance(a, SFun):
                return a._zip(b, op)
            return b._zip(a, lambda x, y: op(y, x))
        if len(inputs) == 1:
            f = UNARY.get(name) or getattr(funcs, name, None)
            if f is not None:
                return self.map(f)
        raise Unsupported("ufunc {} of an array of symbolic size".format(name))

    def __neg__(self):
        return self.map(lambda x: -x)

    def __abs__(self):
        return self.map(abs)

    def __invert__(self):
        return self.map(lambda x: ~x)

    __hash__ = None

    @property
    def T(self):
        f = self.f
        return SFun(self._shape[::-1], lambda *ix: f(*ix[::-1]), view=True)

    def ravel(self):
        if self.ndim == 1:
            return self
        raise Unsupported("ravel of an array of symbolic size")

    flatten = ravel

    def _quantified(self, want):
        """is an element equal to want possible?"""
        idx = generic(self._shape)
        if idx is None:
            return False
        e = SBool.of(self.at(*idx))
        return not ctx().never(e if want else z3.Not(e))

    def all(self, **k):
        if self._quantified(False):
            raise Unsupported("quantified condition not decided")
        return True

    def any(self, **k):
        if self._quantified(True):
            raise Unsupported("quantified condition not decided")
        return False

    def take(self, ind, axis=None, out=None, mode="raise"):
        if axis is None and self.ndim != 1:
            raise Unsupported("take of a flattened array")
        axis = (axis or 0) % self.ndim
        f, n = self.f, self._shape[axis]
        if isnum(ind):
            v = check(ind, n)
            return SFun(self._shape[:axis] + self._shape[axis + 1 :], lambda *ix: f(*(ix[:axis] + (v,) + ix[axis:])))
        ind = as_fun(ind)
        if ind.ndim != 1:
            raise Unsupported("take with an nd index")
        return SFun(self._shape[:axis] + ind._shape + self._shape[axis + 1 :], lambda *ix: f(*(ix[:axis] + (check(ind.at(ix[axis]), n),) + ix[axis + 1 :])))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        raise Unsupported("truth value of an array of symbolic size")

    def __array__(self, *a, **k):
        raise Unsupported("conversion of an array of symbolic size")

    def __repr__(self):
        return "SFun{}".format(self._shape)


BINARY = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "power": lambda a, b: a**b,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: a & b,
    "logical_or": lambda a, b: a | b,
    "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b,
    "minimum": lambda a, b: a if truth(a < b) else b,
    "maximum": lambda a, b: a if truth(a > b) else b,
}
UNARY = {"negative": lambda x: -x, "absolute": abs, "square": lambda x: x * x, "logical_not": lambda x: ~x, "invert": lambda x: ~x}


def _op(name, r):
    op = BINARY[name]
    return (lambda self, o: self._zip(o, lambda a, b: op(b, a))) if r else (lambda self, o: self._zip(o, op))


for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("floordiv", "floor_divide"), ("mod", "remainder"), ("pow", "power"), ("and", "bitwise_and"), ("or", "bitwise_or")):
    setattr(SFun, "__%s__" % _n, _op(_u, False))
    setattr(SFun, "__r%s__" % _n, _op(_u, True))
for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
    setattr(SFun, "__%s__" % _n, _op(_u, False))


def as_fun(x):
    if isinstance(x, (list, tuple)):
        x = np.array(x, dtype=object)
    if isinstance(x, np.ndarray):
        if not x.ndim:
            return x[()]

        def f(*ix):
            return x[tuple(i.__index__() if isinstance(i, SNum) else i for i in ix)]

        return SFun(x.shape, f)
    return x


def generic(shape):
    """an arbitrary index, None when the array is empty"""
    out = []
    for n in shape:
        if truth(n <= 0):
            return None
        if not isinstance(n, SNum) and n == 1:
            out.append(0)
            continue
        c = ctx()
        i = z3.Int(c.name("index"))
        c.assume(z3.And(i >= 0, i < (n.e if isinstance(n, SNum) else n)))
        out.append(SNum(i))
    return tuple(out)


def new(name, shape):
    """array of arbitrary numbers"""
    f = z3.Function(name, *([z3.IntSort()] * len(shape) + [z3.RealSort()]))

    def get(*ix):
        return SNum(f(*(z3.simplify(i.e) if isinstance(i, SNum) else z3.IntVal(int(i)) for i in ix)))

    ctx().abstracted = True
    return SFun(shape, get)


def arange(a, b=None, step=1, **k):
    if b is None:
        a, b = 0, a
    if isinstance(step, SNum) or step != 1:
        raise Unsupported("arange step")
    n = b - a
    if truth(n <= 0):
        n = 0
    if isinstance(n, SNum) and n.e.sort() != z3.IntSort():
        raise Unsupported("arange of real numbers")
    return SFun((n,), lambda i: a + i, dtype=int)


def constant(shape, value):
    shape = shape if isinstance(shape, (tuple, list)) else (shape,)
    return SFun(shape, lambda *ix: value)


def concatenate(parts, axis=0):
    parts = [as_fun(p) for p in parts]
    n = parts[0].ndim
    axis %= n
    total, offs = 0, []
    for p in parts:
        offs.append(total)
        total = total + p.shape[axis]

    def f(*ix):
        i = ix[axis]
        for p, o in zip(parts[:-1], offs[1:]):
            if truth(i < o):
                return p.at(*(ix[:axis] + (i - (o - p.shape[axis]),) + ix[axis + 1 :]))
        return parts[-1].at(*(ix[:axis] + (i - offs[-1],) + ix[axis + 1 :]))

    return SFun(parts[0].shape[:axis] + (total,) + parts[0].shape[axis + 1 :], f)
