"""Contract stubs of numpy / math / builtins for symbolic values.

While a symbolic run is active the names np/numpy/math of every loaded
spectrocrunch module are replaced by proxies.  A proxy delegates to the real
function unless an argument is symbolic and the real function cannot handle it.
Assumed contracts: linalg.inv/solve/det (adjugate, exact), allclose == equality.
"""
import builtins
import cmath as _cmath
import contextlib
import math as _math
import sys
import types

import numpy as _np
import z3

from . import funcs
from . import vec
from .vec import SVec
from . import sfun
from .sfun import SFun
from .sym import SNum, SBool, SComplex, Unsupported, contains_symbolic, ctx, _real


class SArr(_np.ndarray):
    """Object array with element-wise real/imag/astype"""

    __array_priority__ = 10.0

    def _map(self, f):
        out = _np.empty(self.shape, dtype=object)
        for i in _np.ndindex(self.shape):
            out[i] = f(_np.ndarray.__getitem__(self, i) if self.ndim else self[()])
        return out.view(SArr)

    @property
    def real(self):
        return self._map(lambda v: v.real)

    @property
    def imag(self):
        return self._map(lambda v: v.imag)

    def astype(self, dtype, *a, **k):
        if self.dtype != object:
            return _np.ndarray.astype(self, dtype, *a, **k)
        d = _np.dtype(dtype)
        if d.kind == "c":
            return self.copy()
        if d.kind == "f":
            return self._map(lambda v: SNum(_real(v.e), v.nan) if isinstance(v, SNum) else v)
        if d.kind in "iu":
            return self._map(lambda v: v.__trunc__() if isinstance(v, SNum) else int(v))
        if d.kind == "b":
            return _np.array([bool(v) for v in self.ravel()], dtype=bool).reshape(self.shape)
        return _np.ndarray.astype(self, dtype, *a, **k)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0 and (return_scalar or arr.dtype == object):
            return arr[()]
        return arr.view(SArr) if arr.dtype == object else _np.asarray(arr)

    def __getitem__(self, key):
        return _np.ndarray.__getitem__(self, _key(key))

    def __setitem__(self, key, value):
        if type(value) in (int, float) and self.dtype == object:
            value = _np.float64(value)  # stands for a float array
        _np.ndarray.__setitem__(self, _key(key), value)

    def round(self, decimals=0, out=None, **k):
        if self.dtype != object:
            return _np.ndarray.round(self, decimals, out)
        if out is not None:
            raise Unsupported("round of a symbolic array")
        res = _np.empty(self.shape, dtype=object)
        for i in _np.ndindex(*self.shape):
            v = _np.ndarray.__getitem__(self, i)
            if isinstance(v, SNum):
                if decimals:
                    raise Unsupported("round to digits")
                res[i] = v.rint()
            else:
                res[i] = _np.round(v, decimals)
        return sarr(res)

    def sum(self, axis=None, dtype=None, out=None, **k):
        if self.dtype != object:
            return _np.ndarray.sum(self, axis, dtype, out, **k)
        if dtype is not None and not _floatish(dtype):
            raise Unsupported("sum with an integer type")
        return _np.ndarray.sum(self, axis, None, out, **k)

    def prod(self, axis=None, *a, **k):
        return _np.ndarray.prod(self, axis, *a, **k)

    def mean(self, axis=None, *a, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def dot(self, o):
        if isinstance(o, vec.SMat):
            return o.rdot(self)
        return sarr(_np.ndarray.dot(self, o))


def _key(key):
    """Symbolic boolean masks are decided (forked) element by element"""
    if isinstance(key, tuple):
        return tuple(_key(k) for k in key)
    if isinstance(key, _np.ndarray) and key.dtype == object:
        flat = key.ravel().tolist() if key.ndim else [key[()]]
        if flat and all(isinstance(v, (SBool, bool, _np.bool_)) for v in flat):
            return _np.array([bool(v) for v in flat], dtype=bool).reshape(key.shape)
    if isinstance(key, SBool):
        return bool(key)
    if isinstance(key, list) and key and all(isinstance(v, (SBool, bool, _np.bool_)) for v in key):
        return [bool(v) for v in key]
    return key


def sarr(a):
    if isinstance(a, _np.ndarray) and a.dtype == object and not isinstance(a, SArr):
        return a.view(SArr)
    return a


def _floatish(dtype):
    if dtype is None:
        return True
    try:
        return _np.dtype(dtype).kind in "fc"
    except TypeError:
        return False


def _elem_bool(f):
    def g(x, *a, **k):
        if isinstance(x, (SNum, SBool)):
            return f(x)
        if isinstance(x, SVec):
            return vec.VBool([(b, f(v)) for b, v in x.blocks])
        if isinstance(x, SComplex):
            raise Unsupported("isnan of complex")
        arr = x if isinstance(x, _np.ndarray) else None
        if arr is None and contains_symbolic(x):
            arr = _np.array(x, dtype=object)
        if arr is not None and arr.dtype == object:
            out = _np.zeros(arr.shape, dtype=bool)
            for i in _np.ndindex(arr.shape):
                out[i] = bool(f(arr[i]))
            return out if out.ndim else bool(out)
        return None

    return g


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


def _sym_inv(a):
    a = _np.asarray(a, dtype=object)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise _np.linalg.LinAlgError("not square")
    known = ctx().memo.setdefault("inverses", {})
    key = _term_ids(a)
    if key in known:
        # the inverse of an inverse is the matrix itself
        return known[key][0].copy().view(SArr)
    d = _sym_det(a)
    if bool(d == 0):
        raise _np.linalg.LinAlgError("Singular matrix")
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = _np.delete(_np.delete(a, i, 0), j, 1)
            c = _sym_det(m) if n > 1 else 1
            out[j, i] = (c if (i + j) % 2 == 0 else -c) / d
    known[_term_ids(out)] = a.copy(), out.copy()
    known[key] = out.copy(), a.copy()
    return out.view(SArr)


def _term_ids(a):
    return tuple((v.e.get_id() if isinstance(v, SNum) else repr(v)) for v in a.ravel())


def _sym_det(a):
    a = _np.asarray(a, dtype=object)
    n = a.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return a[0, 0]
    r = 0
    for j in range(n):
        if not isinstance(a[0, j], (SNum, SComplex)) and a[0, j] == 0:
            continue
        m = _np.delete(a[1:], j, 1)
        t = a[0, j] * _sym_det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def _build_np():
    over = {}

    def make(name):
        real = getattr(_np, name)

        def f(*args, **kwargs):
            v = args[0] if args else None
            if isinstance(v, vec.SMat) and len(args) == 1 and name in ("array", "asarray", "asanyarray", "transpose"):
                return v.T if name == "transpose" else v.copy()
            if name in ("dot", "matmul") and len(args) == 2 and any(isinstance(x, vec.SMat) for x in args):
                return args[1].rdot(args[0]) if isinstance(args[1], vec.SMat) and not isinstance(args[0], vec.SMat) else args[0].dot(args[1])
            if isinstance(v, SFun) or (isinstance(v, (list, tuple)) and any(isinstance(x, SFun) for x in v)) or any(isinstance(x, SFun) for x in args[1:]):
                if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d") and isinstance(v, SFun):
                    return v.copy() if name == "array" else v
                if name in ("concatenate", "hstack", "append"):
                    parts = list(args[:2]) if name == "append" else list(v)
                    return sfun.concatenate([sfun.as_fun(p) for p in parts], kwargs.get("axis", 0) or 0)
                if name == "outer":
                    return sfun.as_fun(args[0])[:, None] * sfun.as_fun(args[1])[None, :]
                if name == "take":
                    return sfun.as_fun(v).take(*args[1:], **kwargs)
                if name == "transpose" and len(args) == 1:
                    return v.T
                raise Unsupported("numpy.{} of an array of symbolic size".format(name))
            if name == "full" and len(args) > 1 and ctx().memo.get("functions") and contains_symbolic(v):
                return sfun.constant(v, args[1])
            if name == "full" and len(args) > 1 and isinstance(v, SNum):
                return vec.constant(v, args[1])
            if isinstance(v, SVec) or (isinstance(v, (list, tuple)) and any(isinstance(x, SVec) for x in v)) or (len(args) > 1 and isinstance(args[1], SVec)):
                if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d") and isinstance(v, SVec):
                    return v.copy() if name == "array" else v
                if name == "append" and len(args) == 2:
                    return vec.append(*args)
                if name in ("concatenate", "hstack"):
                    return vec.append(*v)
                if name in ("vstack", "stack", "column_stack") and isinstance(v, (list, tuple)) and all(isinstance(x, SVec) for x in v):
                    t = name == "vstack" or (name == "stack" and (args[1] if len(args) > 1 else kwargs.get("axis", 0)) == 0)
                    return vec.SMat(list(v), t)
                if name in ("dot", "matmul"):
                    return args[0].dot(args[1]) if isinstance(args[0], SVec) else args[1].dot(args[0])
                raise Unsupported("numpy.{} of a vector of unknown length".format(name))
            if contains_symbolic(list(args)) or any(contains_symbolic(v) for v in kwargs.values()):
                if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "full", "full_like"):
                    if "dtype" in kwargs and _floatish(kwargs["dtype"]):
                        kwargs["dtype"] = object
                    if len(args) > 1 and name in ("array", "asarray") and _floatish(args[1]):
                        args = (args[0], object) + args[2:]
                    if name.startswith("full"):
                        kwargs["dtype"] = object
            elif name in ("array", "asarray", "asanyarray") and len(args) == 1 and not kwargs:
                # float data that is about to be mixed with symbolic numbers
                if isinstance(args[0], (list, tuple)) and args[0] and all(isinstance(v, (float, _np.floating)) for v in args[0]):
                    kwargs["dtype"] = object
            return sarr(real(*args, **kwargs))

        f.__name__ = name
        return f

    for n in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "full", "full_like",
              "stack", "vstack", "hstack", "concatenate", "append", "insert", "outer", "dot", "cross", "matmul",
              "repeat", "tile", "diag", "roll", "transpose", "take", "delete", "cumsum", "kron", "trace", "column_stack"):
        over[n] = make(n)

    def alloc(name):
        real = getattr(_np, name)

        def f(shape, *args, **kwargs):
            dtype = kwargs.get("dtype", args[0] if args and name in ("zeros", "ones", "empty") else None)
            if ctx().memo.get("functions") and contains_symbolic(shape) and name in ("zeros", "ones", "empty"):
                return sfun.constant(shape, {"zeros": 0, "ones": 1, "empty": sfun.UNKNOWN}[name])
            if isinstance(shape, tuple) and len(shape) == 1:
                shape = shape[0]
            if isinstance(shape, SNum) and name in ("zeros", "ones"):
                return vec.constant(shape, SNum(z3.RealVal({"zeros": 0, "ones": 1}[name])))
            if contains_symbolic(shape if isinstance(shape, (list, tuple)) else [shape]):
                raise Unsupported("symbolic array shape")
            if name in ("eye", "identity"):
                r = real(shape, *args, **kwargs)
                return sarr(r.astype(object)) if r.dtype.kind == "f" else r
            if _floatish(dtype) or (dtype is not None and dtype == _np.dtype(object)):
                kwargs.pop("dtype", None)
                v = {"zeros": 0.0, "ones": 1.0, "empty": 0.0}[name]
                a = _np.empty(shape, dtype=object)
                a[...] = _np.float64(v)
                return sarr(a)
            return real(shape, *args, **kwargs)

        return f

    for n in ("zeros", "ones", "empty", "eye", "identity"):
        over[n] = alloc(n)

    def like(name, v):
        real = getattr(_np, name)

        def f(a, *args, **kwargs):
            if isinstance(a, SVec):
                return a.map(lambda x: SNum(z3.RealVal(int(v))))
            if isinstance(a, SFun):
                return sfun.constant(a.shape, sfun.UNKNOWN if name == "empty_like" else v)
            dtype = kwargs.get("dtype")
            k = _np.asarray(a).dtype if dtype is None else _np.dtype(dtype)
            if k == object or k.kind == "f":
                r = _np.empty(_np.shape(a), dtype=object)
                r[...] = v
                return sarr(r)
            return real(a, *args, **kwargs)

        return f

    over["zeros_like"] = like("zeros_like", 0.0)
    over["ones_like"] = like("ones_like", 1.0)
    over["empty_like"] = like("empty_like", 0.0)

    def pred(name, f):
        real = getattr(_np, name)
        g = _elem_bool(f)

        def h(x, *a, **k):
            r = g(x)
            return real(x, *a, **k) if r is None else r

        return h

    def _nanof(v):
        return v.isnan() if isinstance(v, SNum) else (v != v)

    over["isnan"] = pred("isnan", _nanof)
    over["isfinite"] = pred("isfinite", lambda v: ~v.isnan() if isinstance(v, SNum) and v.nan is not None else (True if isinstance(v, SNum) else bool(_np.isfinite(v))))
    over["isinf"] = pred("isinf", lambda v: False if isinstance(v, SNum) else bool(_np.isinf(v)))

    def allclose(a, b, *args, **k):
        if contains_symbolic([a, b]) :
            return bool(_np.all(_np.asarray(a, dtype=object) == _np.asarray(b, dtype=object)))
        return _np.allclose(a, b, *args, **k)

    over["allclose"] = allclose

    def isclose(a, b, *args, **k):
        if contains_symbolic([a, b]):
            return a == b
        return _np.isclose(a, b, *args, **k)

    over["isclose"] = isclose

    def nonint(name):
        real = getattr(_np, name)

        def f(*args, **kwargs):
            if contains_symbolic(list(args)):
                raise Unsupported("numpy." + name)
            return real(*args, **kwargs)

        return f

    def digitize(x, bins, right=False):
        if not contains_symbolic([x, bins]):
            return _np.digitize(x, bins, right=right)
        # contract of the dependency for increasing bins; comparisons are decided (forked)
        def one(v):
            i = 0
            while i < len(bins) and bool(v > bins[i] if right else v >= bins[i]):
                i += 1
            return i

        if isinstance(x, _np.ndarray) and x.ndim or isinstance(x, (list, tuple)):
            return _np.array([one(v) for v in x], dtype=int)
        return _np.intp(one(x))

    over["digitize"] = digitize

    def linspace(start, stop, num=50, *args, **kwargs):
        num = num.__index__() if isinstance(num, SNum) else num
        if not contains_symbolic([start, stop]):
            return _np.linspace(start, stop, num, *args, **kwargs)
        if args or kwargs:
            raise Unsupported("linspace options")
        out = _np.empty(num, dtype=object)
        for i in range(num):
            out[i] = start if i == 0 else stop if i == num - 1 else start + (stop - start) * i / (num - 1)
        return sarr(out)

    def arange(*args, **kwargs):
        if ctx().memo.get("functions") and contains_symbolic(args):
            return sfun.arange(*args, **kwargs)
        return _np.arange(*[a.__index__() if isinstance(a, SNum) else a for a in args], **kwargs)

    over["linspace"], over["arange"] = linspace, arange

    for n in ("interp", "histogram", "logspace", "floor_divide", "percentile", "polyfit", "bincount"):
        over[n] = nonint(n)

    def where(cond, *args):
        if isinstance(cond, SFun) and len(args) == 2:
            a, b = (x if isinstance(x, SFun) else sfun.constant(cond.shape, x) for x in args)
            return SFun(cond.shape, lambda *ix: a.at(*ix) if bool(cond.at(*ix)) else b.at(*ix))
        if isinstance(cond, (SBool, SNum)):
            if len(args) == 2:
                return args[0] if cond else args[1]
        if contains_symbolic(cond):
            c = _np.asarray(cond, dtype=object)
            cond = _np.array([bool(v) for v in c.ravel()], dtype=bool).reshape(c.shape)
        return sarr(_np.where(cond, *args))

    over["where"] = where

    def clip(x, lo, hi, **k):
        if contains_symbolic([x, lo, hi]):
            def one(v, a, b):
                if a is not None and v < a:
                    v = a
                if b is not None and v > b:
                    v = b
                return v
            if isinstance(x, _np.ndarray) and x.ndim:
                return sarr(_np.array([one(v, lo, hi) for v in x.ravel()], dtype=object).reshape(x.shape))
            return one(x, lo, hi)
        return _np.clip(x, lo, hi, **k)

    over["clip"] = clip

    def reim(name):
        def f(x):
            if isinstance(x, (SNum, SComplex)):
                return getattr(x, name)
            if isinstance(x, _np.ndarray) and x.dtype == object:
                return getattr(x.view(SArr), name)
            return getattr(_np, name)(x)

        return f

    over["real"] = reim("real")
    over["imag"] = reim("imag")

    def angle(z, deg=False):
        if isinstance(z, (SComplex, SNum)):
            r = funcs.arctan2(z.imag, z.real)
            return funcs.degrees(r) if deg else r
        if contains_symbolic(z):
            raise Unsupported("angle of array")
        return _np.angle(z, deg=deg)

    over["angle"] = angle

    def _round(x, *a, **k):
        if isinstance(x, SNum):
            if a or k:
                raise Unsupported("round to digits")
            return x.rint()
        if contains_symbolic(x):
            return sarr(x).round(*a, **k)
        return _np.round(x, *a, **k)

    over["round"] = _round
    over["around"] = _round
    over["rint"] = _round

    def _sort(name):
        def f(a, *args, **k):
            if contains_symbolic(a):
                x = _np.asarray(a, dtype=object)
                if x.ndim != 1 or k.get("axis", -1) not in (-1, 0):
                    raise Unsupported("sort of nd symbolic array")
                idx = list(range(len(x)))
                # insertion sort with symbolic comparisons: stable
                out = []
                for i in idx:
                    j = len(out)
                    while j > 0 and bool(x[out[j - 1]] > x[i]):
                        j -= 1
                    out.insert(j, i)
                out = _np.array(out, dtype=int)
                return out if name == "argsort" else sarr(x[out])
            return getattr(_np, name)(a, *args, **k)

        return f

    over["sort"] = _sort("sort")
    over["argsort"] = _sort("argsort")

    def mean(a, axis=None, **k):
        if isinstance(a, SVec):
            return a.mean()
        if contains_symbolic(a):
            a = _np.asarray(a, dtype=object)
            n = a.size if axis is None else a.shape[axis]
            return _np.sum(a, axis=axis) / n
        return _np.mean(a, axis=axis, **k)

    over["mean"] = mean

    def elementwise(name, f):
        real = getattr(_np, name)
        conc = getattr(_math, {"arcsin": "asin", "arccos": "acos", "arctan": "atan"}.get(name, name), None)

        def one(v):
            if isinstance(v, SNum):
                return f(v)
            if isinstance(v, (SComplex, SBool)):
                return getattr(v, name)()
            if isinstance(v, complex):
                return complex(real(v))
            return conc(v) if conc is not None else real(float(v))

        def h(x, *a, **k):
            if isinstance(x, SNum):
                return f(x)
            if isinstance(x, _np.ndarray) and x.dtype == object and not a and not k:
                out = _np.empty(x.shape, dtype=object)
                for i in _np.ndindex(x.shape):
                    out[i] = one(_np.ndarray.__getitem__(x, i))
                return out.view(SArr) if out.ndim else out[()]
            if isinstance(x, (list, tuple)) and contains_symbolic(x):
                return h(_np.array(x, dtype=object))
            return real(x, *a, **k)

        return h

    for n in ("exp", "cos", "sin", "tan", "arcsin", "arccos", "arctan", "log", "log10", "log2", "radians", "degrees"):
        over[n] = elementwise(n, getattr(funcs, n))
    over["deg2rad"] = elementwise("deg2rad", funcs.radians)
    over["rad2deg"] = elementwise("rad2deg", funcs.degrees)

    # linalg
    lin = {}

    def inv(a):
        return _sym_inv(a) if contains_symbolic(a) or getattr(a, "dtype", None) == object else _np.linalg.inv(a)

    def det(a):
        return _sym_det(a) if contains_symbolic(a) or getattr(a, "dtype", None) == object else _np.linalg.det(a)

    def lstsq(a, b, *args, **k):
        if not isinstance(a, vec.SMat) and not contains_symbolic([a, b]):
            return _np.linalg.lstsq(a, b, *args, **k)
        # assumed contract: solution of the normal equations, unique for full column rank
        a = a if isinstance(a, vec.SMat) else sarr(_np.asarray(a, dtype=object))
        try:
            M = _sym_inv(a.T.dot(a))
        except _np.linalg.LinAlgError:
            raise Unsupported("least squares of a singular matrix")
        return M.dot(a.T.dot(b)), None, a.shape[1], None

    def solve(a, b):
        if contains_symbolic([a, b]):
            return sarr(_np.dot(_sym_inv(a), b))
        return _np.linalg.solve(a, b)

    def norm(a, *args, **k):
        if contains_symbolic(a) or getattr(a, "dtype", None) == object:
            if args or k:
                raise Unsupported("norm options")
            v = _np.asarray(a, dtype=object).ravel()
            return funcs.sqrt(sum(x * x for x in v), nonneg=True)
        return _np.linalg.norm(a, *args, **k)

    lin.update(inv=inv, det=det, solve=solve, norm=norm, lstsq=lstsq)
    for n in ("eig", "eigh", "svd", "pinv", "eigvals", "eigvalsh", "matrix_rank"):
        real = getattr(_np.linalg, n)

        def guard(*a, _real=real, _n=n, **k):
            if contains_symbolic(list(a)):
                raise Unsupported("linalg." + _n)
            return _real(*a, **k)

        lin[n] = guard
    over["linalg"] = Proxy(_np.linalg, lin)
    return Proxy(_np, over)


def _build_math():
    over = {}
    for n, f in (("sqrt", funcs.sqrt), ("cos", funcs.cos), ("sin", funcs.sin), ("tan", funcs.tan), ("exp", funcs.exp),
                 ("log", funcs.log), ("log10", funcs.log10), ("log2", funcs.log2), ("acos", funcs.arccos), ("asin", funcs.arcsin),
                 ("atan", funcs.arctan), ("radians", funcs.radians), ("degrees", funcs.degrees)):
        real = getattr(_math, n)

        def g(x, *a, _f=f, _r=real):
            return _f(x, *a) if isinstance(x, SNum) else _r(x, *a)

        over[n] = g
    over["isnan"] = lambda x: x.isnan() if isinstance(x, SNum) else _math.isnan(x)
    over["isinf"] = lambda x: False if isinstance(x, SNum) else _math.isinf(x)
    over["atan2"] = lambda y, x: funcs.arctan2(y, x) if isinstance(x, SNum) or isinstance(y, SNum) else _math.atan2(y, x)
    over["floor"] = lambda x: x.__floor__() if isinstance(x, SNum) else _math.floor(x)
    over["ceil"] = lambda x: x.__ceil__() if isinstance(x, SNum) else _math.ceil(x)
    return Proxy(_math, over)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __call__(cls, *a):
        if a and isinstance(a[0], SNum):
            return SNum(_real(a[0].e), a[0].nan)
        if a and isinstance(a[0], SBool):
            return a[0]._n()
        if a and isinstance(a[0], _np.ndarray) and a[0].dtype == object and a[0].size == 1:
            return cls(a[0].ravel()[0])
        return builtins.float(*a)


class FloatStub(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __call__(cls, *a):
        if a and isinstance(a[0], SNum):
            return a[0].__trunc__()
        if a and isinstance(a[0], SBool):
            return a[0]._n()
        return builtins.int(*a)


class IntStub(metaclass=_IntMeta):
    pass


def _sum(x, *a):
    if isinstance(x, SVec):
        return x.sum() + (a[0] if a else 0)
    return builtins.sum(x, *a)


def _len(x):
    if isinstance(x, SFun):
        return x.shape[0]
    return x.size if isinstance(x, SVec) else builtins.len(x)


NP = _build_np()
MATH = _build_math()


def _phase(z):
    if isinstance(z, _np.ndarray) and z.ndim == 0:
        z = z[()]
    if isinstance(z, (SComplex, SNum)):
        return funcs.arctan2(z.imag, z.real)
    return _cmath.phase(z)


CMATH = Proxy(_cmath, {"phase": _phase})


@contextlib.contextmanager
def patched(builtin_modules=()):
    """Install the stubs in all loaded spectrocrunch modules"""
    saved = []
    try:
        for name, mod in list(sys.modules.items()):
            if mod is None:
                continue
            if name.startswith("pint."):
                # dependency: only the scalar predicates math.isnan etc.
                d = mod.__dict__
                for k, v in list(d.items()):
                    if v is _math:
                        saved.append((d, k, v))
                        d[k] = MATH
                continue
            if not name.startswith("spectrocrunch"):
                continue
            d = mod.__dict__
            for k, v in list(d.items()):
                if v is _np:
                    saved.append((d, k, v))
                    d[k] = NP
                elif v is _math:
                    saved.append((d, k, v))
                    d[k] = MATH
                elif v is _cmath:
                    saved.append((d, k, v))
                    d[k] = CMATH
            for k, v in (("float", FloatStub), ("int", IntStub), ("sum", _sum), ("len", _len)) if name in builtin_modules else ():
                saved.append((d, k, d.get(k, _MISSING)))
                d[k] = v
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v


_MISSING = object()


class Replace(object):
    """contract of a dependency in place of its code while executing symbolically"""

    def __init__(self, c, items):
        self.items = list(items) if c.symbolic else []

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n, _MISSING)) for m, n, f in self.items]
        for m, n, f in self.items:
            setattr(m, n, f)

    def __exit__(self, *a):
        for m, n, f in reversed(self.saved):
            if f is _MISSING:
                delattr(m, n)
            else:
                setattr(m, n, f)
