"""Vectors of unbounded, symbolic length.

A vector is one generic element per block (every block has a symbolic length >= 1).
Elementwise operations act on the generic element; a sum over the index is an
uninterpreted linear functional: index-independent factors are pulled out and every
index-dependent monomial becomes one atom (so equal summands give equal sums).
Positive summands have positive sums.  Branching on a generic element is refused.
"""
import numpy as np
import z3

from . import ring, funcs
from .sym import SNum, SBool, SComplex, Unsupported, ctx, _real, term, is_concrete


def _memo():
    return ctx().memo.setdefault("vec", {"atoms": {}, "sums": {}, "len": {}})


def _mentions(e):
    """Does the term depend on the index of a vector?"""
    ats = _memo()["atoms"]
    if not ats:
        return False
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ats:
            return True
        stack.extend(x.children())
    return False


def length(block):
    m = _memo()["len"]
    if block not in m:
        n = z3.Int("len_" + block)
        ctx().add_fact(n >= 1)
        m[block] = n
    return SNum(m[block])


def new(name, block, lo=None, lo_open=False):
    v = z3.Real("{}[{}]".format(name, block))
    _memo()["atoms"][v.get_id()] = (block, v)
    length(block)
    if lo is not None:
        ctx().add_fact(v > lo if lo_open else v >= lo)
    return SVec([(block, SNum(v))])


class SVec(object):
    __array_priority__ = 100

    def __init__(self, blocks):
        self.blocks = list(blocks)

    # structure
    def _zip(self, o, f):
        if isinstance(o, SVec):
            if [b for b, _ in self.blocks] != [b for b, _ in o.blocks]:
                raise ValueError("operands could not be broadcast together")
            return SVec([(b, f(x, y)) for (b, x), (_, y) in zip(self.blocks, o.blocks)])
        if isinstance(o, np.ndarray) and o.ndim:
            raise Unsupported("vector of unknown length with an array")
        if isinstance(o, np.ndarray):
            o = o[()]
        return SVec([(b, f(x, o)) for b, x in self.blocks])

    def map(self, f):
        return SVec([(b, f(x)) for b, x in self.blocks])

    def __add__(self, o):
        return self._zip(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._zip(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._zip(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._zip(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._zip(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._zip(o, lambda a, b: b / a)

    def __pow__(self, o):
        return self._zip(o, lambda a, b: a**b)

    def __neg__(self):
        return self.map(lambda x: -x)

    def __eq__(self, o):
        raise Unsupported("elementwise comparison")

    __hash__ = None

    def _cmp(self, o, f):
        return VBool([(b, e) for b, e in self._zip(o, f).blocks])

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != "__call__" or kwargs:
            raise Unsupported("ufunc {} {} of a vector".format(ufunc.__name__, method))
        name = ufunc.__name__
        two = {"add": "__add__", "subtract": "__sub__", "multiply": "__mul__", "divide": "__truediv__", "true_divide": "__truediv__", "power": "__pow__"}
        if len(inputs) == 2 and name in two:
            a, b = inputs
            if isinstance(a, SVec):
                return getattr(a, two[name])(b)
            if isinstance(a, np.ndarray) and a.ndim:
                raise Unsupported("vector of unknown length with an array")
            return getattr(b, two[name].replace("__", "__r", 1))(a)
        if len(inputs) == 1:
            if name == "negative":
                return -self
            if name == "square":
                return self * self
            f = getattr(funcs, name, None)
            if f is not None:
                return self.map(f)
        raise Unsupported("ufunc {} of a vector".format(name))

    # numpy interface
    def sum(self, axis=None, **k):
        r = 0
        for b, e in self.blocks:
            r = r + _sum(b, e)
        return r

    def mean(self, axis=None, **k):
        return self.sum() / self.size

    @property
    def size(self):
        r = 0
        for b, _ in self.blocks:
            r = r + length(b)
        ctx().memo.setdefault("vecsizes", {})[tuple(b for b, _ in self.blocks)] = r
        return r

    @property
    def shape(self):
        return (self.size,)

    ndim = 1
    dtype = np.dtype(object)

    @property
    def T(self):
        return self

    def dot(self, o):
        if isinstance(o, SMat):
            return o.rdot(self)
        return (self * o).sum()

    def __matmul__(self, o):
        return self.dot(o)

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], tuple) else shape
        if len(shape) == 2:
            for k, t in ((1, False), (0, True)):
                n = shape[1 - k]
                if type(shape[k]) is int and shape[k] == 1 and (type(n) is int and n == -1 or isinstance(n, SNum) and n.e.eq(self.size.e)):
                    return SMat([self], t)
        if len(shape) == 1 and type(shape[0]) is int and shape[0] == -1:
            return self
        raise Unsupported("reshape a vector of unknown length")

    def var(self, axis=None, ddof=0, **k):
        d = self - self.mean()
        return (d * d).sum() / (self.size - ddof)

    def std(self, **k):
        return funcs.sqrt(self.var(**k))

    def copy(self):
        return SVec(self.blocks)

    def astype(self, dtype, **k):
        return self

    def ravel(self):
        return self

    def __len__(self):
        raise Unsupported("len of a vector of unknown length (builtin not stubbed)")

    def __iter__(self):
        raise Unsupported("iteration over a vector of unknown length")

    def __getitem__(self, k):
        if isinstance(k, VBool) and [b for b, _ in k.blocks] == [b for b, _ in self.blocks]:
            out = []
            for (b, x), (_, e) in zip(self.blocks, k.blocks):
                e = SBool.of(e)
                if ctx().never(z3.Not(e)):
                    out.append((b, x))
                elif not ctx().never(e):
                    raise Unsupported("selection in a vector of unknown length")
            return SVec(out)
        if isinstance(k, tuple) and len(k) == 2 and k in ((slice(None), None), (slice(None), np.newaxis)):
            return SMat([self])
        if isinstance(k, tuple) and len(k) == 2 and k[0] is None and k[1] == slice(None):
            return SMat([self], True)
        if k is Ellipsis or (isinstance(k, slice) and k == slice(None)):
            return self
        raise Unsupported("indexing a vector of unknown length")

    def __setitem__(self, k, v):
        raise Unsupported("indexing a vector of unknown length")

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a vector of unknown length")

    def __repr__(self):
        return "SVec({})".format(self.blocks)


class VBool(object):
    def __init__(self, blocks):
        self.blocks = blocks

    def _zip(self, o, f):
        if not isinstance(o, VBool) or [b for b, _ in self.blocks] != [b for b, _ in o.blocks]:
            raise Unsupported("combine conditions")
        return VBool([(b, SBool(f(SBool.of(x), SBool.of(y)))) for (b, x), (_, y) in zip(self.blocks, o.blocks)])

    def __and__(self, o):
        return self._zip(o, z3.And)

    def __or__(self, o):
        return self._zip(o, z3.Or)

    def __invert__(self):
        return VBool([(b, SBool(z3.Not(SBool.of(x)))) for b, x in self.blocks])

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method == "__call__" and not kwargs:
            f = {"logical_and": "__and__", "bitwise_and": "__and__", "logical_or": "__or__", "bitwise_or": "__or__", "logical_not": "__invert__", "invert": "__invert__"}.get(ufunc.__name__)
            if f:
                return getattr(inputs[0], f)(*inputs[1:])
        raise Unsupported("ufunc {} of conditions".format(ufunc.__name__))

    def all(self, axis=None):
        for b, e in self.blocks:
            e = SBool.of(e)
            if not ctx().never(z3.Not(e)):
                raise Unsupported("quantified condition not decided")
        return True

    def any(self, axis=None):
        for b, e in self.blocks:
            e = SBool.of(e)
            if not ctx().never(e):
                raise Unsupported("quantified condition not decided")
        return False

    def __bool__(self):
        raise Unsupported("truth value of a vector of unknown length")


def append(*parts):
    blocks = []
    for p in parts:
        if not isinstance(p, SVec):
            raise Unsupported("append a concrete array to a vector of unknown length")
        blocks.extend(p.blocks)
    return SVec(blocks)


def _sum(block, e):
    e = e if isinstance(e, SNum) else SNum(term(e)[0])
    if e.nan is not None:
        raise Unsupported("sum with nan")
    c = ctx()
    x = _real(e.e)
    if not _mentions(x):
        return SNum(x) * length(block)
    n = ring.Norm([x], c.relations)
    f = n.frac(x)
    for _ in range(3):
        f = n.reduce(f)
    dep = [_mentions(a) for a in n.atoms]
    one = n.R(1)
    kden, cden = [], one
    for p, k in sorted(f.den.items(), key=lambda t: str(t[0])):
        used = {i for m in p.keys() for i, q in enumerate(m) if q}
        if any(dep[i] for i in used):
            kden.append((p, k))
        else:
            cden = cden * p**k
    # group numerator monomials by their index dependent part
    groups = {}
    for m, v in f.num.items():
        key = tuple(q if dep[i] else 0 for i, q in enumerate(m))
        rest = tuple(0 if dep[i] else q for i, q in enumerate(m))
        d = groups.setdefault(key, {})
        d[rest] = d.get(rest, 0) + v
    den = None
    for p, k in kden:
        t = funcs._poly_term(n, p)
        for _ in range(k):
            den = t if den is None else den * t
    out = None
    for key, coef in sorted(groups.items()):
        mono = n.R.from_dict({key: one.LC})
        body = funcs._poly_term(n, mono)
        if den is not None:
            body = body / den
        cf = funcs._poly_term(n, n.R.from_dict(coef))
        s = _atom(block, n, key, kden, body)
        t = cf * s
        out = t if out is None else out + t
    if out is None:
        return SNum(z3.RealVal(0))
    if cden != one:
        out = out / funcs._poly_term(n, cden)
    return SNum(z3.simplify(out))


def _atom(block, n, key, kden, body):
    c = ctx()
    names = [a.sexpr() for a in n.atoms]

    def pstr(p):
        return "+".join(sorted("{}*{}".format(v, "*".join("{}^{}".format(names[i], q) for i, q in sorted(enumerate(m), key=lambda t: names[t[0]]) if q)) for m, v in p.items()))

    ks = "*".join(sorted("{}^{}".format(names[i], q) for i, q in enumerate(key) if q))
    ks += "/" + "/".join(sorted("({})^{}".format(pstr(p), k) for p, k in kden)) if kden else ""
    if not ks:
        return z3.ToReal(length(block).e)
    memo = _memo()["sums"]
    k = (block, ks)
    if k not in memo:
        s = z3.Real("Sum_{}<{}>".format(block, ks))
        memo[k] = s
        c.abstracted = True
        if c.never(body <= 0):
            c.add_fact(s > 0)
        elif c.never(body < 0) or all(q % 2 == 0 for q in key) and all(q % 2 == 0 for _, q in kden):
            c.add_fact(s >= 0)
    return memo[k]


def constant(n, value):
    """vector of n equal numbers (n is the size of a vector)"""
    e = n.e if isinstance(n, SNum) else None
    if e is not None:
        for blocks, size in ctx().memo.get("vecsizes", {}).items():
            if size.e.eq(e):
                return SVec([(b, value) for b in blocks])
        for b, v in _memo()["len"].items():
            if v.eq(e):
                return SVec([(b, value)])
    raise Unsupported("symbolic array shape")


class SMat(object):
    """matrix of a symbolic number of rows and a fixed number of columns, or its transpose"""

    __array_priority__ = 101
    __array_ufunc__ = None
    ndim = 2
    dtype = np.dtype(object)

    def __init__(self, cols, t=False):
        self.cols, self.t = list(cols), t

    @property
    def T(self):
        return SMat(self.cols, not self.t)

    def transpose(self):
        return self.T

    @property
    def shape(self):
        s = (self.cols[0].size, len(self.cols))
        return s[::-1] if self.t else s

    def copy(self):
        return SMat(self.cols, self.t)

    def _zip(self, o, f):
        if isinstance(o, SMat):
            if self.t != o.t:
                raise Unsupported("outer product of matrices of unknown length")
            a, b = self.cols, o.cols
            n = max(len(a), len(b))
            if len(a) not in (1, n) or len(b) not in (1, n):
                raise ValueError("operands could not be broadcast together")
            a, b = a * (n if len(a) == 1 else 1), b * (n if len(b) == 1 else 1)
            return SMat([f(x, y) for x, y in zip(a, b)], self.t)
        if isinstance(o, SVec):
            if self.t:
                return SMat([f(x, o) for x in self.cols], True)
            raise Unsupported("broadcast a vector of unknown length")
        o = np.asarray(o)
        if o.ndim == 0:
            return SMat([f(x, o[()]) for x in self.cols], self.t)
        if not self.t and o.shape in ((len(self.cols),), (1, len(self.cols))):
            return SMat([f(x, y) for x, y in zip(self.cols, o.ravel())])
        raise Unsupported("broadcast to a matrix of unknown length")

    def __mul__(self, o):
        return self._zip(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __add__(self, o):
        return self._zip(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._zip(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._zip(o, lambda a, b: b - a)

    def __truediv__(self, o):
        return self._zip(o, lambda a, b: a / b)

    def __pow__(self, o):
        return self._zip(o, lambda a, b: a**b)

    def __neg__(self):
        return SMat([-x for x in self.cols], self.t)

    def dot(self, o):
        if self.t:
            if isinstance(o, SVec):
                return _obj([x.dot(o) for x in self.cols])
            if isinstance(o, SMat) and not o.t:
                return _obj([[x.dot(y) for y in o.cols] for x in self.cols])
            raise Unsupported("matrix product of unknown length")
        if isinstance(o, (SVec, SMat)):
            raise Unsupported("matrix product of unknown length")
        o = np.asarray(o)
        if o.shape[0] != len(self.cols):
            raise ValueError("shapes not aligned")
        if o.ndim == 1:
            return _comb(self.cols, o)
        return SMat([_comb(self.cols, k) for k in o.T])

    def rdot(self, o):
        """o.dot(self)"""
        if isinstance(o, SVec):
            return self.T.dot(o)
        return SMat(self.T.dot(np.asarray(o).T).cols, True) if self.t else _unsupported()

    __matmul__ = dot

    def __rmatmul__(self, o):
        return self.rdot(o)

    def __getitem__(self, k):
        m = self.cols
        if isinstance(k, tuple) and len(k) == 2:
            k = k[::-1] if self.t else k
            if k[0] == slice(None) and isinstance(k[1], int):
                return m[k[1]]
        elif self.t and isinstance(k, int):
            return m[k]
        raise Unsupported("indexing a matrix of unknown length")

    def sum(self, axis=None, **k):
        if axis is None:
            return sum(x.sum() for x in self.cols)
        if axis % 2 == int(self.t):
            return _obj([x.sum() for x in self.cols])
        return _comb(self.cols, [1] * len(self.cols))

    def __len__(self):
        if self.t:
            return len(self.cols)
        raise Unsupported("len of a matrix of unknown length (builtin not stubbed)")

    def __iter__(self):
        if self.t:
            return iter(self.cols)
        raise Unsupported("iteration over a matrix of unknown length")

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a matrix of unknown length")


def _unsupported():
    raise Unsupported("matrix product of unknown length")


def _comb(cols, coef):
    r = None
    for x, k in zip(cols, coef):
        r = x * k if r is None else r + x * k
    return r


def _obj(x):
    from .shim import sarr

    return sarr(np.array(x, dtype=object))
