"""The specification language: one contract body, three interpretations.

SymCase  : inputs are symbolic, `check` emits a proof obligation
ConcCase : inputs are drawn (or replayed), `check` evaluates the contract on the real code
"""
import math
import random
from fractions import Fraction

import numpy as np
import z3

from . import ring, sym, vec
from .vec import SVec, VBool
from . import sfun
from .sfun import SFun
from .sym import SNum, SBool, SComplex, Unsupported, Infeasible, term, _real, is_concrete


class Reject(BaseException):
    """Precondition not satisfied by this draw"""


class Violation(BaseException):
    def __init__(self, name, detail):
        super().__init__(name, detail)
        self.name = name
        self.detail = detail


def _isquantity(x):
    return hasattr(x, "magnitude") and hasattr(x, "units") and hasattr(x, "to")


def pairs(a, b, path=""):
    """Flatten two structures in leaf pairs; yields (path, a, b); structure mismatch yields (path, MISMATCH, ..)"""
    if _isquantity(a) or _isquantity(b):
        if not _isquantity(a):
            a = type(b)(a, "dimensionless")
        if not _isquantity(b):
            b = type(a)(b, "dimensionless")
        try:
            b = b.to(a.units)
        except Exception as e:
            if isinstance(e, Unsupported):
                raise
            yield path + ".units", "MISMATCH", "{} vs {}".format(a.units, b.units)
            return
        a, b = a.magnitude, b.magnitude
    if isinstance(a, SVec) or isinstance(b, SVec):
        if not (isinstance(a, SVec) and isinstance(b, SVec)) or [k for k, _ in a.blocks] != [k for k, _ in b.blocks]:
            yield path, "MISMATCH", "{} vs {}".format(_short(a), _short(b))
            return
        for (k, x), (_, y) in zip(a.blocks, b.blocks):
            yield "{}<{}>".format(path, k), x, y
        return
    if isinstance(a, SFun) or isinstance(b, SFun):
        a, b = sfun.as_fun(a), sfun.as_fun(b)
        if not (isinstance(a, SFun) and isinstance(b, SFun)) or a.ndim != b.ndim:
            yield path, "MISMATCH", "{} vs {}".format(_short(a), _short(b))
            return
        for k in range(a.ndim):
            yield "{}.shape[{}]".format(path, k), a.shape[k], b.shape[k]
        idx = sfun.generic(a.shape)
        if idx is not None:
            x, y = a.at(*idx), b.at(*idx)
            yield from pairs(x, y, path + "[]")
        return
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            yield path, "MISMATCH", "{} vs {}".format(_short(a), _short(b))
            return
        for k in a:
            yield from pairs(a[k], b[k], "{}[{!r}]".format(path, k))
        return
    seq = (list, tuple, np.ndarray)

    def isseq(x):
        return isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim)

    if isseq(a) or isseq(b):
        if not (isseq(a) and isseq(b)) or len(a) != len(b):
            yield path, "MISMATCH", "{} vs {}".format(_short(a), _short(b))
            return
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
            yield path, "MISMATCH", "shape {} vs {}".format(a.shape, b.shape)
            return
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype != object and b.dtype != object:
            yield path, a, b
            return
        for i in range(len(a)):
            yield from pairs(a[i], b[i], "{}[{}]".format(path, i))
        return
    if isinstance(a, np.ndarray):
        a = a[()]
    if isinstance(b, np.ndarray):
        b = b[()]
    yield path, a, b


def _short(x):
    try:
        s = repr(x)
    except BaseException:
        s = str(type(x))
    return s if len(s) < 200 else s[:200] + "..."


class Case:
    symbolic = False

    def logging(self):
        """numbers are formatted for log messages only (never compared or parsed)"""
        if self.symbolic:
            self.ctx.memo["allow_format"] = True

    # derived helpers shared by both interpretations
    def reals(self, name, n, **kw):
        return [self.real("{}{}".format(name, i), **kw) for i in range(n)]

    def array(self, name, shape, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(tuple(shape)):
            out[i] = self.real(name + "_".join(map(str, i)), **kw)
        if self.symbolic:
            from .shim import SArr

            return out.view(SArr)
        return out.astype(float)

    def complex(self, name, **kw):
        re, im = self.real(name + "re", **kw), self.real(name + "im", **kw)
        return SComplex(re, im) if self.symbolic else complex(re, im)

    def obj(self, *items):
        """1-d array of numbers"""
        if self.symbolic:
            from .shim import SArr

            out = np.empty(len(items), dtype=object)
            for i, v in enumerate(items):
                out[i] = v
            return out.view(SArr)
        return np.array(items)

    def mat(self, rows):
        if self.symbolic:
            from .shim import SArr

            out = np.empty((len(rows), len(rows[0])), dtype=object)
            for i, r in enumerate(rows):
                for j, v in enumerate(r):
                    out[i, j] = v
            return out.view(SArr)
        return np.array(rows)


class SymCase(Case):
    symbolic = True

    def __init__(self, sctx, prover):
        self.ctx = sctx
        self.prover = prover
        self.inputs = {}
        self.choices = {}
        self.obligations = []
        self.samples_hint = {}

    def _bounds(self, v, lo, hi, lo_open, hi_open):
        if lo is not None:
            t = term(lo)[0]
            self.ctx.assume(v > t if lo_open else v >= t)
        if hi is not None:
            t = term(hi)[0]
            self.ctx.assume(v < t if hi_open else v <= t)
        if isinstance(lo, (int, float)) and (lo > 0 or lo == 0 and lo_open):
            self.ctx.memo.setdefault("signs", {})[v.get_id()] = v, 1

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nonzero=False, nan=False, **kw):
        if name in self.inputs:
            return self.inputs[name]
        v = z3.Real(name)
        self._bounds(v, lo, hi, lo_open, hi_open)
        if nonzero:
            self.ctx.assume(v != 0)
        n = z3.Bool(name + "?nan") if nan else None
        r = SNum(v, n)
        self.inputs[name] = r
        return r

    def pos(self, name, *srange, **kw):
        """any positive number; srange is the range draws are taken from"""
        return self.real(name, lo=0, lo_open=True, **kw)

    def any(self, name, slo, shi, **kw):
        """any number; draws are taken from [slo, shi]"""
        return self.real(name, **kw)

    def int(self, name, lo=None, hi=None):
        if name in self.inputs:
            return self.inputs[name]
        v = z3.Int(name)
        self._bounds(v, lo, hi, False, False)
        r = SNum(v)
        self.inputs[name] = r
        return r

    def vec(self, name, block="n", pos=False, nonneg=False, srange=None, minlen=1):
        """vector of any length; vectors of the same block have the same length"""
        v = vec.new(name, block, 0 if pos or nonneg else None, pos)
        if minlen > 1:
            self.ctx.add_fact(vec.length(block).e >= minlen)
        return v

    def squares(self, *pairs):
        """lemma: the sum of x^2*w is not negative when no w is; x and w may be vectors"""
        total = 0
        for x, w in pairs:
            ws = [e for _, e in w.blocks] if isinstance(w, SVec) else [w]
            for e in ws:
                if isinstance(e, SNum):
                    if not self.ctx.never(e.e < 0):
                        raise Unsupported("weight may be negative")
                elif e < 0:
                    raise Unsupported("negative weight")
            t = x * x * w
            total = total + (t.sum() if isinstance(t, SVec) else t)
        if isinstance(total, SNum):
            self.ctx.add_fact(total.e >= 0)
            self.ctx.note_sign(total.e, False)

    def positive(self, x, margin=0):
        """assume that a number is positive (margin: when drawn)"""
        self.assume(x > 0)
        if isinstance(x, SNum):
            self.ctx.note_sign(x.e, True)

    def size(self, name, lo, shi):
        """any number of elements from lo; draws are taken from [lo, shi]"""
        self.ctx.memo["functions"] = True
        return self.int(name, lo)

    def fun(self, name, *shape):
        """array of arbitrary numbers"""
        return sfun.new(name, shape)

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        k = self.ctx.choose([None] * len(options))
        self.choices[name] = k
        return options[k]

    def assume(self, cond):
        if isinstance(cond, SBool):
            self.ctx.assume(cond.e)
            if not self.ctx.feasible(z3.BoolVal(True)):
                raise Infeasible()
        elif isinstance(cond, np.ndarray):
            for c in cond.ravel():
                self.assume(c)
        elif not cond:
            raise Infeasible()

    def eq(self, name, a, b, rtol=None, atol=None):
        bad = []
        for path, x, y in pairs(a, b):
            r = self._leaf_eq(x, y)
            if r[0] != "discharged":
                bad.append((path, r))
                if r[0] == "refuted":
                    break
        self._record(name, bad)

    def _leaf_eq(self, x, y):
        if isinstance(x, str) and x == "MISMATCH":
            return self._prove_bool(z3.BoolVal(False), note="structure: " + str(y))
        if isinstance(x, (SComplex, complex, np.complexfloating)) or isinstance(y, (SComplex, complex, np.complexfloating)):
            x, y = SComplex.of(x), SComplex.of(y)
            r = self._leaf_eq(x.re, y.re)
            if r[0] != "discharged":
                return r
            return self._leaf_eq(x.im, y.im)
        if isinstance(x, (SNum, SBool)) or isinstance(y, (SNum, SBool)):
            try:
                xe, xn = term(x)
                ye, yn = term(y)
            except Unsupported:
                if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                    return self._prove_bool(z3.BoolVal(False), note="{} vs {}".format(_short(x), _short(y)))
                raise
            return self.prover.equal(self.ctx, xe, xn, ye, yn)
        if isinstance(x, np.ndarray):
            ok = x.shape == y.shape and bool(np.array_equal(x, y, equal_nan=x.dtype.kind == "f"))
            return self._prove_bool(z3.BoolVal(ok), note="{} vs {}".format(_short(x), _short(y)))
        if is_concrete(x) and is_concrete(y):
            ok = (x == y) or (x != x and y != y) or math.isclose(float(x), float(y), rel_tol=1e-9, abs_tol=1e-12)
        else:
            ok = type(x) is type(y) and x == y or x is y or (x == y) is True
        return self._prove_bool(z3.BoolVal(bool(ok)), note="{} vs {}".format(_short(x), _short(y)))

    def _prove_bool(self, g, note=""):
        r = self.prover.prove(self.ctx, g)
        if r[0] != "discharged" and note:
            r = (r[0], r[1], r[2], note)
        return r

    def holds(self, name, cond, **kw):
        lst = cond
        if isinstance(cond, VBool):
            lst = [e for _, e in cond.blocks]
        elif isinstance(cond, np.ndarray):
            lst = list(cond.ravel())
        elif not isinstance(cond, (list, tuple)):
            lst = [cond]
        bad = []
        for i, cnd in enumerate(lst):
            r = self._prove_bool(SBool.of(cnd), note="condition false")
            if r[0] != "discharged":
                bad.append(("[{}]".format(i), r))
                break
        self._record(name, bad)

    def le(self, name, a, b, **kw):
        self.holds(name, a <= b)

    def raises(self, name, exc, thunk):
        try:
            thunk()
        except exc:
            self.holds(name, True)
        else:
            self.holds(name, False)

    def _record(self, name, bad):
        if not bad:
            self.obligations.append((name, "discharged", None, ""))
            return
        refuted = [b for b in bad if b[1][0] == "refuted"]
        path, r = (refuted or bad)[0]
        note = (r[3] if len(r) > 3 else "") + " at {}".format(path or "value")
        self.obligations.append((name, r[0], r[2], note))

    def model_inputs(self, model):
        vals = {}
        for name, v in self.inputs.items():
            if not isinstance(v, SNum):
                continue
            m = model.eval(v.e, model_completion=True) if model is not None else None
            x = _model_value(m)
            if v.nan is not None and model is not None:
                if z3.is_true(model.eval(v.nan, model_completion=True)):
                    x = float("nan")
            if x is not None:
                vals[name] = x
        return {"values": vals, "choices": dict(self.choices)}


def _model_value(m):
    if m is None:
        return None
    if z3.is_int_value(m):
        return m.as_long()
    if z3.is_rational_value(m):
        return float(Fraction(m.numerator_as_long(), m.denominator_as_long()))
    if z3.is_algebraic_value(m):
        a = m.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


class ConcCase(Case):
    symbolic = False

    def __init__(self, rng, values=None, choices=None, trace=None):
        self.rng = rng
        self.fixed = dict(values or {})
        self.fixedchoices = choices or {}
        self.values = {}
        self.choices = {}
        self.nchecks = 0
        self.names = set()

    def _sample(self, lo, hi):
        r = self.rng
        k = r.random()
        if lo is None and hi is None:
            if k < 0.3:
                return float(r.randint(-5, 5))
            if k < 0.6:
                return round(r.uniform(-5, 5), 2)
            return r.uniform(-20, 20)
        if lo is not None and hi is not None:
            lo, hi = float(lo), float(hi)
            if k < 0.1:
                return lo
            if k < 0.2:
                return hi
            if lo < 0 < hi and k < 0.26:
                return 0.0
            return r.uniform(lo, hi)
        s = 1 if lo is not None else -1
        b = float(lo if lo is not None else hi)
        if k < 0.1:
            return b
        if k < 0.35:
            return b + s * r.randint(1, 5)
        if k < 0.65:
            return b + s * r.uniform(0, 3)
        return b + s * r.uniform(0, 20)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nonzero=False, nan=False, margin=0.02, **kw):
        if name in self.values:
            return self.values[name]
        if name in self.fixed:
            v = self.fixed[name]
            v = float(v)
        elif nan and self.rng.random() < 0.12:
            v = float("nan")
        else:
            flo = lo if lo is None or not lo_open else lo + margin * min(1, abs((hi - lo) if hi is not None else 1))
            fhi = hi if hi is None or not hi_open else hi - margin * min(1, abs((hi - lo) if lo is not None else 1))
            v = float(self._sample(flo, fhi))
            if nonzero:
                while abs(v) < margin:
                    v = self._sample(flo, fhi)
        if v == v:
            if lo is not None and (v < lo or (lo_open and v <= lo)):
                raise Reject()
            if hi is not None and (v > hi or (hi_open and v >= hi)):
                raise Reject()
            if nonzero and v == 0:
                raise Reject()
        self.values[name] = v
        return v

    def pos(self, name, *srange, **kw):
        if srange and name not in self.values and name not in self.fixed:
            self.fixed[name] = self._sample(*srange)
        return self.real(name, lo=0, lo_open=True, **kw)

    def any(self, name, slo, shi, **kw):
        if name not in self.values and name not in self.fixed:
            self.fixed[name] = self._sample(slo, shi)
        return self.real(name, **kw)

    def int(self, name, lo=None, hi=None):
        if name in self.values:
            return self.values[name]
        if name in self.fixed:
            v = int(self.fixed[name])
        else:
            a = lo if lo is not None else (hi - 12 if hi is not None else -8)
            b = hi if hi is not None else (lo + 12 if lo is not None else 8)
            if b - a > 40 and self.rng.random() < 0.6:
                b = a + 12
            v = self.rng.randint(a, b)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        self.values[name] = v
        return v

    def vec(self, name, block="n", pos=False, nonneg=False, srange=None, minlen=1):
        n = self.int("len_" + block, minlen, minlen + 5)
        if srange is None:
            srange = (0.05, 5) if pos else ((0, 5) if nonneg else (-5, 5))
        return np.array([self.real("{}{}".format(name, i), *srange) for i in range(n)])

    def squares(self, *pairs):
        pass

    def positive(self, x, margin=0):
        self.assume(x > margin)

    def size(self, name, lo, shi):
        return self.int(name, lo, shi)

    def fun(self, name, *shape):
        out = np.empty(shape, dtype=float)
        for ix in np.ndindex(*shape):
            out[ix] = self.real(name + "_".join(map(str, ix)), -5, 5)
        return out

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        k = self.fixedchoices.get(name)
        if k is None:
            k = self.rng.randrange(len(options))
        self.choices[name] = k
        return options[k]

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            raise Reject()

    def eq(self, name, a, b, rtol=None, atol=None):
        self.nchecks += 1
        self.names.add(name)
        rtol = 1e-6 if rtol is None else rtol
        atol = 1e-8 if atol is None else atol
        for path, x, y in pairs(a, b):
            if isinstance(x, str) and x == "MISMATCH":
                raise Violation(name, "{} differs: {}".format(path, y))
            if not _close(x, y, rtol, atol):
                raise Violation(name, "{}: got {} expected {}".format(path or "value", _short(x), _short(y)))

    def holds(self, name, cond, detail="", **kw):
        self.nchecks += 1
        self.names.add(name)
        if isinstance(cond, (list, tuple)):
            cond = all(bool(np.all(c)) for c in cond)
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            raise Violation(name, "condition false " + str(detail))

    def le(self, name, a, b, tol=1e-9, **kw):
        a, b = np.asarray(a, float), np.asarray(b, float)
        self.holds(name, bool(np.all(a <= b + tol * (1 + np.abs(b)))), detail="{} <= {}".format(_short(a), _short(b)))

    def raises(self, name, exc, thunk):
        self.nchecks += 1
        self.names.add(name)
        try:
            r = thunk()
        except exc:
            return
        raise Violation(name, "expected {} but got {}".format(exc, _short(r)))


def _close(x, y, rtol, atol):
    if x is y:
        return True
    num = (int, float, complex, np.number, np.bool_, bool)
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) or (isinstance(x, num) and isinstance(y, num)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "OUSb" or y.dtype.kind in "OUSb":
            return bool(np.array_equal(x, y))
        if x.dtype.kind in "iu" and y.dtype.kind in "iu":
            return bool((x == y).all())
        scale = 1.0
        with np.errstate(all="ignore"):
            fin = np.isfinite(x) & np.isfinite(y)
            same = (np.isnan(x) & np.isnan(y)) | (x == y)
            close = np.abs(x - y) <= atol * scale + rtol * np.maximum(np.abs(x), np.abs(y))
        return bool((np.where(fin, close, same)).all())
    r = x == y
    try:
        return bool(r)
    except Exception:
        return bool(np.all(r))
