"""Symbolic values and path enumeration for executing real Python code.

SNum   : mathematical real or integer (z3 term), optionally "may be NaN"
SBool  : z3 boolean; bool() forks the path
Anything that would silently concretise a symbolic value raises Unsupported.
"""
import math
import numbers
from fractions import Fraction

import numpy as _np
import z3

PI = z3.Real("pi!")
PI_FACTS = [PI > z3.RealVal("3.14159265"), PI < z3.RealVal("3.14159266")]


class Unsupported(BaseException):
    """The code left the verifiable subset (never a violation).
    BaseException: the code under test must not be able to swallow it."""


class Infeasible(BaseException):
    """The current path is cut (assumption false)"""


class Budget(BaseException):
    """Path or time budget exhausted"""


_CTX = None


def ctx():
    if _CTX is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return _CTX


def _size(e, limit):
    """number of nodes, counted up to limit + 1"""
    n, stack = 0, [e]
    while stack and n <= limit:
        n += 1
        stack.extend(stack.pop().children())
    return n


def _hasdiv(e):
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
            return True
        stack.extend(x.children())
    return False


class Ctx:
    """One symbolic run: path condition, decisions, side facts"""

    def __init__(self, prefix=(), branch_timeout=1500):
        self.prefix = list(prefix)
        self.decisions = []
        self.alternatives = []
        self.solver = z3.Solver()
        self.branch_timeout = branch_timeout
        self.solver.set("timeout", branch_timeout)
        self.pc = []
        self.facts = []  # axioms instances for functions (trig, sqrt, ...)
        self.relations = []  # polynomial rewrite relations for ring
        self.fresh = 0
        self.memo = {}
        self.abstracted = False
        self.part = None  # (k, n): first exhaustive choice restricted to options = k mod n
        for f in PI_FACTS:
            self.add_fact(f)

    def add_fact(self, f):
        self.facts.append(f)
        self.solver.add(f)

    def assume(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)

    def feasible(self, cond):
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def _atoms(self, e):
        """names of the free constants of a term"""
        memo = self.memo.setdefault("atoms of", {})
        k = e.get_id()
        if k not in memo:
            out, todo, seen = set(), [e], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                    todo.extend(x.children())
            memo[k] = e, out
        return memo[k][1]

    def _cone(self, cond):
        """assertions which share constants with a condition, directly or not"""
        rest = [(a, self._atoms(a)) for a in self.solver.assertions()]
        atoms, out = set(self._atoms(cond)), []
        while True:
            new = [x for x in rest if x[1] & atoms]
            if not new:
                return out
            rest = [x for x in rest if not x[1] & atoms]
            for a, v in new:
                out.append(a)
                atoms |= v

    def never(self, cond):
        """cond is proved impossible on this path"""
        cone = self._cone(cond)
        if len(cone) < len(self.solver.assertions()):
            # the other assertions cannot exclude it
            s = z3.Solver()
            s.set("timeout", self.branch_timeout)
            s.set("rlimit", 3000000)
            s.add(cond, *cone)
            r = s.check()
            if r != z3.unknown:
                return r == z3.unsat
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        if r == z3.unknown:
            try:
                t = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
                t.set("timeout", 3000)
                t.add(*self.solver.assertions())
                r = t.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unknown:
                # without the axioms: squares and path condition only
                t = z3.Tactic("qfnra-nlsat").solver()
                t.set("timeout", 2000)
                t.add(cond)
                try:
                    r = t.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.sat:
                    r = z3.unknown
        self.solver.pop()
        return r == z3.unsat

    def choose(self, conds):
        """Pick one of mutually exclusive exhaustive conditions; None entries are unconstrained"""
        i = len(self.decisions)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            options = [
                j for j, c in enumerate(conds) if c is None or self.feasible(c)
            ]
            if i == 0 and self.part:
                if any(c is not None for c in conds):
                    raise Unsupported("split contract without a first choice")
                options = [j for j in options if j % self.part[1] == self.part[0]]
            if not options:
                raise Infeasible()
            k = options[0]
            for j in options[1:]:
                self.alternatives.append(list(self.decisions) + [j])
        self.decisions.append(k)
        if len(self.decisions) > 4000:
            raise Budget("too many decisions on one path")
        if conds[k] is not None:
            self.assume(conds[k])
        return k

    def sign(self, e, depth=0):
        """1 (positive), -1 (negative) or 0 (not known) on this path"""
        signs = self.memo.setdefault("signs", {})
        k = e.get_id()
        if k in signs:
            return signs[k][1]
        r = self._sign(e, depth)
        if r:
            signs[k] = e, r
        return r

    def _sign(self, e, depth):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            n = e.as_long() if z3.is_int_value(e) else e.numerator_as_long()
            return (n > 0) - (n < 0)
        if not z3.is_app(e) or depth > 200:
            return 0
        k = e.decl().kind()
        ch = [] if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL, z3.Z3_OP_ITE, z3.Z3_OP_SUB) else e.children()
        if k == z3.Z3_OP_ITE:
            ch = ch[1:]
        s = []
        for c in ch:
            s.append(self.sign(c, depth + 1))
            if not s[-1]:
                break
        r = 0
        if s and all(s):
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                r = 1
                for x in s:
                    r *= x
            elif k == z3.Z3_OP_UMINUS:
                r = -s[0]
            elif k == z3.Z3_OP_SUB:
                s = [s[0]] + [-x for x in s[1:]]
                r = s[0] if len(set(s)) == 1 else 0
            else:
                r = s[0] if len(set(s)) == 1 else 0
        if r:
            return r
        # leaf or mixed signs: ask the solver when the term is small
        asked = self.memo.setdefault("signs asked", {})
        if e.get_id() in asked:
            return 0
        asked[e.get_id()] = e
        if _size(e, 30) > 30 or k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            return 0
        self.solver.set("timeout", 300)
        try:
            if not self.feasible(e <= 0):
                return 1
            if not self.feasible(e >= 0):
                return -1
        finally:
            self.solver.set("timeout", self.branch_timeout)
        return 0

    def _known_sign(self, e):
        """sign following from the known signs of the atoms"""
        known = self.memo.get("signs", {}).get(e.get_id())
        if known:
            return known[1]
        if z3.is_rational_value(e) or z3.is_int_value(e):
            n = e.as_long() if z3.is_int_value(e) else e.numerator_as_long()
            return (n > 0) - (n < 0)
        if not z3.is_app(e):
            return 0
        k = e.decl().kind()
        if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_SUB):
            return 0
        s = [self._known_sign(x) for x in e.children()]
        if not all(s):
            return 0
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            r = 1
            for x in s:
                r *= x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -s[0]
        if k == z3.Z3_OP_SUB:
            s = [s[0]] + [-x for x in s[1:]]
        return s[0] if len(set(s)) == 1 else 0

    def ring_sign(self, e):
        """sign of a rational expression from the signs of its monomials"""
        from . import ring

        memo = self.memo.setdefault("ring signs", {})
        if e.get_id() in memo:
            return memo[e.get_id()][1]
        r = 0
        if _size(e, 800) <= 800:
            try:
                n, f = ring.canonical(e, self.relations)
                for _ in range(3):
                    f = n.reduce(f)
                self.memo.setdefault("keepalive", []).extend(n.atoms)
                if f.num and len(f.num) <= 400:
                    r = self._poly_sign(n, f.num) or self._factor_sign(n, f.num)
                    for p, k in f.den.items():
                        if r and k % 2:
                            r *= self._poly_sign(n, p)
            except (ring.TooBig, ZeroDivisionError):
                r = 0
        memo[e.get_id()] = e, r
        return r

    def _factor_sign(self, n, poly):
        """sign of a polynomial from the known signs of its factors"""
        if not self.memo.get("poly signs") or len(poly) < 2 or len(poly) > 60:
            return 0
        cont, facs = poly.factor_list()
        if len(facs) < 2:
            return 0
        s = 1 if cont > 0 else -1
        for q, k in facs:
            t = self._poly_sign(n, q)
            if not t:
                return 0
            if k % 2:
                s *= t
        return s

    def note_sign(self, term, strict):
        """remember that a term is positive (or not negative), as a polynomial without the factors of known sign"""
        from . import ring

        try:
            n, f = ring.canonical(term, self.relations)
            for _ in range(3):
                f = n.reduce(f)
            self.memo.setdefault("keepalive", []).extend(n.atoms)
            if not f.num or f.num.is_ground or len(f.num) < 2 or len(f.num) > 400:
                return
            s = 1
            for q, k in f.den.items():
                if k % 2:
                    s *= self._poly_sign(n, q)
            cont, facs = f.num.factor_list()
        except (ring.TooBig, ZeroDivisionError):
            return
        s *= 1 if cont > 0 else -1
        known = self.memo.setdefault("poly signs", {})
        rest = None
        for q, k in facs:
            if k % 2 == 0:
                continue
            t = self._poly_sign(n, q)
            if t:
                s *= t
            else:
                rest = q if rest is None else rest * q
        if rest is None or not s:
            return
        k, t = self._poly_key(n, rest)
        if strict or k not in known:
            known[k] = s * t, strict

    def _poly_key(self, n, poly):
        """monomials of the primitive polynomial with a positive first coefficient, and the sign it was multiplied with"""
        items = sorted((tuple(sorted((n.atoms[i].get_id(), k) for i, k in enumerate(m) if k)), v) for m, v in poly.items())
        lead = items[0][1]
        return tuple((m, v / abs(lead) if lead > 0 else -v / abs(lead)) for m, v in items), 1 if lead > 0 else -1

    def poly_nonneg(self, n, poly):
        """1, -1: the polynomial is known not to be negative, not to be positive"""
        known = self.memo.get("poly signs")
        if known:
            k, t = self._poly_key(n, poly)
            if k in known:
                return known[k][0] * t
        return self._poly_sign(n, poly)

    def _poly_sign(self, n, poly):
        known = self.memo.get("poly signs")
        if known and len(poly) > 1:
            k, t = self._poly_key(n, poly)
            if k in known and known[k][1]:
                return known[k][0] * t
        total = 0
        for m, v in poly.items():
            s = 1 if v > 0 else -1
            for i, k in enumerate(m):
                if k:
                    a = self.sign(n.atoms[i])
                    if not a:
                        return 0
                    if k % 2:
                        s *= a
            if total and s != total:
                return 0
            total = s
        return total

    def _decide_sign(self, cond):
        """truth value of a comparison with zero from the signs of its parts"""
        if not z3.is_app(cond) or cond.num_args() != 2:
            return None
        k = cond.decl().kind()
        if k not in (z3.Z3_OP_EQ, z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
            return None
        a, b = cond.children()
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_TO_REAL:
            b = b.arg(0)
        if not z3.is_arith(a) or not (z3.is_rational_value(b) or z3.is_int_value(b)):
            return None
        n = b.as_long() if z3.is_int_value(b) else b.numerator_as_long()
        if n != 0:
            return None
        if _size(a, 12) <= 12:
            if a.get_id() in self.memo.get("nonneg", ()):
                # an atom known not to be negative
                return {z3.Z3_OP_LT: False, z3.Z3_OP_GE: True}.get(k)
            s = self._known_sign(a)
            if not s and _hasdiv(a):
                s = self.ring_sign(a)
            if not s:
                return None
        else:
            s = self._known_sign(a)
            if not s and self.memo.get("poly signs"):
                s = self.ring_sign(a)
            s = s or self.sign(a) or self.ring_sign(a)
        if not s and k == z3.Z3_OP_EQ and _size(a, 400) <= 400 and _hasdiv(a):
            # a quotient vanishes only when its numerator does
            from . import ring

            try:
                _, f = ring.canonical(a, self.relations)
                if f.num and f.num.is_ground:
                    return False
            except (ring.TooBig, ZeroDivisionError):
                pass
        if not s:
            return None
        if k == z3.Z3_OP_EQ:
            return False
        return s > 0 if k in (z3.Z3_OP_GT, z3.Z3_OP_GE) else s < 0

    def branch(self, cond):
        known = self._decide_sign(cond)
        if known is not None:
            return known
        orig = cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        # already decided on this path
        i, j = cond.get_id(), z3.simplify(z3.Not(cond)).get_id()
        for p in self.pc:
            k = p.get_id()
            if k == i:
                return True
            if k == j:
                return False
        if "vec" in self.memo:
            from . import vec

            if vec._mentions(cond):
                a, b = self.feasible(cond), self.feasible(z3.Not(cond))
                if a and b and self.never(cond):
                    a = False
                elif a and b and self.never(z3.Not(cond)):
                    b = False
                if a and b:
                    raise Unsupported("branch on a generic vector element: {}".format(cond))
                return a
        r = self.choose([cond, z3.simplify(z3.Not(cond))]) == 0
        self._note_branch(orig, r)
        return r

    def _note_branch(self, cond, truth):
        """remember the sign of a quotient compared with zero"""
        if not z3.is_app(cond) or cond.num_args() != 2:
            return
        k = cond.decl().kind()
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if not strict and k not in (z3.Z3_OP_LE, z3.Z3_OP_GE):
            return
        a, b = cond.children()
        b = z3.simplify(b)
        if not z3.is_rational_value(b) or b.numerator_as_long() or not _hasdiv(a) or _size(a, 60) > 60:
            return
        if not truth:
            strict = not strict
        positive = (k in (z3.Z3_OP_GT, z3.Z3_OP_GE)) == truth
        self.memo.pop("ring signs", None)
        self.note_sign(a if positive else -a, strict)

    def name(self, base):
        self.fresh += 1
        return "{}!{}".format(base, self.fresh)


def activate(c):
    global _CTX
    _CTX = c


# ------------------------------------------------------------------ coercion
_PI_MULT = [Fraction(n, d) for d in (1, 2, 3, 4, 6, 180, 360) for n in (1, 2, 3, 4, 5, 7, 9, 180, 360)]


def _float_term(v):
    if v != v or v in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant in symbolic arithmetic")
    if v != 0 and v != int(v):
        q = v / math.pi
        for f in (Fraction(q).limit_denominator(360), 1 / Fraction(1 / q).limit_denominator(720) if abs(q) > 1e-9 and Fraction(1 / q).limit_denominator(720) != 0 else None):
            if f and abs(f.numerator) <= 720 and abs(float(f) * math.pi - v) <= 4e-16 * abs(v):
                return PI * z3.RealVal(str(f)), True
        q = v * math.pi
        f = Fraction(q).limit_denominator(360)
        if f and abs(f.numerator) <= 720 and abs(float(f) / math.pi - v) <= 4e-16 * abs(v):
            return z3.RealVal(str(f)) / PI, True
        # decimal constants denote their shortest decimal representation
        return z3.RealVal(repr(float(v)) if "e" not in repr(float(v)) else str(Fraction(repr(float(v))))), True
    return z3.RealVal(str(Fraction(v))), True


def is_concrete(v):
    return isinstance(v, (bool, int, float, Fraction, _np.integer, _np.floating, _np.bool_))


def term(v):
    """z3 term of a number, is-nan z3 term or None"""
    if isinstance(v, SNum):
        return v.e, v.nan
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), None
    if isinstance(v, _np.ndarray) and v.ndim == 0:
        return term(v[()])
    if isinstance(v, (bool, _np.bool_)):
        return z3.IntVal(int(v)), None
    if isinstance(v, (int, _np.integer)):
        return z3.IntVal(int(v)), None
    if isinstance(v, Fraction):
        return z3.RealVal(str(v)), None
    if isinstance(v, (float, _np.floating)):
        v = float(v)
        if v != v:
            return z3.RealVal(0), z3.BoolVal(True)
        return _float_term(v)[0], None
    raise Unsupported("cannot use {} as a number".format(type(v)))


def _isnum(v):
    return isinstance(v, (SNum, SBool)) or is_concrete(v) or (isinstance(v, _np.ndarray) and v.ndim == 0)


def _real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _unify(a, b):
    if a.sort() != b.sort():
        return _real(a), _real(b)
    return a, b


def _or(*nans):
    lst = [n for n in nans if n is not None]
    if not lst:
        return None
    if len(lst) == 1:
        return lst[0]
    return z3.simplify(z3.Or(*lst))


def _isinf(v):
    return isinstance(v, (float, _np.floating)) and v in (float("inf"), float("-inf"))


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    @staticmethod
    def of(v):
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, (bool, _np.bool_, int)):
            return z3.BoolVal(bool(v))
        if isinstance(v, SNum):
            return v.e != 0
        if z3.is_expr(v):
            return v
        raise Unsupported("not a boolean: {}".format(type(v)))

    def __and__(self, o):
        return SBool(z3.And(self.e, SBool.of(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, SBool.of(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.e, SBool.of(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, SBool) or isinstance(o, (bool, _np.bool_)):
            return SBool(self.e == SBool.of(o))
        return SNum(term(self)[0]) == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic boolean")

    def _n(self):
        return SNum(term(self)[0])

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __repr__(self):
        return "SBool({})".format(self.e)


class SNum:
    """Symbolic number. `nan` is None (never NaN) or a z3 Bool."""

    __slots__ = ("e", "nan")
    __array_priority__ = 1000

    def __init__(self, e, nan=None):
        self.e = e
        if nan is not None:
            nan = z3.simplify(nan)
            if z3.is_false(nan):
                nan = None
        self.nan = nan

    # -- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != "__call__" or kwargs.get("out") is not None:
            if method == "at":
                raise Unsupported("ufunc.at")
        if ufunc.__name__ in ("isnan", "isfinite", "isinf"):
            if ufunc.__name__ == "isnan":
                return self.isnan()
            if ufunc.__name__ == "isfinite":
                return ~self.isnan()
            return False
        ins = []
        for x in inputs:
            if isinstance(x, (SNum, SBool)):
                a = _np.empty((), dtype=object)
                a[()] = x
                ins.append(a)
            else:
                if isinstance(x, _np.ndarray) and x.dtype != object:
                    x = x.astype(object)
                elif isinstance(x, (_np.floating, _np.integer)):
                    a = _np.empty((), dtype=object)
                    a[()] = x.item()
                    x = a
                ins.append(x)
        out = kwargs.get("out")
        if out:
            kwargs["out"] = tuple(out)
        kwargs.pop("dtype", None)
        if ufunc.__name__ in _CMP and "out" not in kwargs:
            kwargs["dtype"] = object
        ret = getattr(ufunc, method)(*ins, **kwargs)
        if isinstance(ret, _np.ndarray) and ret.ndim == 0:
            return ret[()]
        return ret

    def isnan(self):
        if self.nan is None:
            return False
        return SBool(self.nan)

    # -- no silent concretisation
    def __float__(self):
        raise Unsupported("float() of a symbolic number")

    def __int__(self):
        raise Unsupported("int() of a symbolic number")

    def __index__(self):
        """case split over the possible values of a bounded integer"""
        if self.e.sort() != z3.IntSort():
            raise Unsupported("index from a symbolic number")
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        for k in range(0, 17):
            for v in (k, -k) if k else (0,):
                if ctx().branch(e == v):
                    return v
        raise Unsupported("index from an unbounded symbolic number")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic number")

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __str__(self):
        if ctx().memo.get("allow_format"):
            return "<symbolic>"
        raise Unsupported("str() of a symbolic number")

    def __format__(self, spec):
        if ctx().memo.get("allow_format"):
            return "<symbolic>"
        raise Unsupported("format of a symbolic number")

    def __repr__(self):
        return "SNum({})".format(self.e)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        c = self.e != 0
        if self.nan is not None:
            c = z3.Or(c, self.nan)
        return ctx().branch(c)

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, complex) or isinstance(o, _np.complexfloating):
            o = SComplex(o.real, o.imag)
        if isinstance(o, SComplex):
            return NotImplemented
        if not _isnum(o):
            return NotImplemented
        a, an = self.e, self.nan
        b, bn = term(o)
        a, b = _unify(a, b)
        if swap:
            a, b = b, a
        return SNum(f(a, b), _or(an, bn))

    def __add__(self, o):
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0).__add__(o)
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0).__radd__(o)
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0).__sub__(o)
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0).__rsub__(o)
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0).__mul__(o)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0).__rmul__(o)
        return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _div(a, b):
        a, b = _real(a), _real(b)
        c = ctx()
        if not z3.is_rational_value(b) or b.numerator_as_long() == 0:
            if c.branch(b == 0):
                raise ZeroDivisionError("symbolic division by zero")
        return a / b

    def __truediv__(self, o):
        if _isinf(o):
            return SNum(z3.RealVal(0), self.nan)
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0) / o
        return self._bin(o, self._div)

    def __rtruediv__(self, o):
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0).__rtruediv__(o)
        return self._bin(o, self._div, True)

    @staticmethod
    def _floordiv(a, b):
        c = ctx()
        if c.branch(b == 0):
            raise ZeroDivisionError("symbolic division by zero")
        if a.sort() == z3.IntSort():
            # python floor division; z3 div is Euclidean
            if c.branch(b > 0):
                return a / b
            return (-a) / (-b)
        return z3.ToReal(z3.ToInt(a / b))

    def __floordiv__(self, o):
        return self._bin(o, self._floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, self._floordiv, True)

    @staticmethod
    def _mod(a, b):
        return a - b * SNum._floordiv(a, b)

    def __mod__(self, o):
        return self._bin(o, self._mod)

    def __rmod__(self, o):
        return self._bin(o, self._mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return SNum(-self.e, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        if ctx().branch(self.e < 0):
            return SNum(-self.e, self.nan)
        return self

    absolute = __abs__
    fabs = __abs__

    def __pow__(self, p):
        if isinstance(p, SNum):
            from . import funcs

            return funcs.power(self, p)
        if isinstance(p, _np.ndarray) and p.ndim == 0:
            p = p[()]
        if isinstance(p, _np.ndarray):
            return NotImplemented
        if isinstance(p, (float, _np.floating)):
            if float(p) == int(p):
                p = int(p)
            else:
                from . import funcs

                f = Fraction(float(p)).limit_denominator(64)
                if f.denominator == 2 and float(f) == float(p):
                    r = funcs.sqrt(self)
                    return r**f.numerator
                return funcs.power(self, p)
        if isinstance(p, (int, _np.integer)):
            p = int(p)
            if p >= 0:
                if p > 64:
                    raise Unsupported("large power")
                r = SNum(z3.IntVal(1) if self.e.sort() == z3.IntSort() else z3.RealVal(1), self.nan)
                for _ in range(p):
                    r = r * self
                return r
            return 1 / (self ** (-p))
        return NotImplemented

    def __rpow__(self, b):
        from . import funcs

        return funcs.power(b, self)

    def square(self):
        return self * self

    # -- comparison
    def _cmp(self, o, f):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (complex, _np.complexfloating)) and o.imag == 0:
            o = o.real
        if not _isnum(o):
            return NotImplemented
        if _isinf(o):
            r = f(0.0, float(o))
            if self.nan is None:
                return bool(r)
            if f(0, 0) and not f(0, 1) and not f(1, 0):
                return False
            return SBool(z3.And(z3.Not(self.nan), z3.BoolVal(bool(r))))
        a, an = self.e, self.nan
        b, bn = term(o)
        a, b = _unify(a, b)
        n = _or(an, bn)
        e = f(a, b)
        if n is not None:
            e = z3.And(z3.Not(n), e)
        return SBool(e)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return True
        r = self._cmp(o, lambda a, b: a == b)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SBool) else (not r)

    # -- number-like API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def is_integer(self):
        return SBool(z3.IsInt(self.e)) if self.e.sort() == z3.RealSort() else True

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    # dtype deliberately absent

    def copy(self):
        return self

    def reshape(self, *shape):
        """as a numpy scalar"""
        import numpy as np

        a = np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)

    def _int(self, i):
        return SNum(i, None) if self.nan is None else SNum(z3.ToReal(i), self.nan)

    def __floor__(self):
        if self.e.sort() == z3.IntSort():
            return self
        return SNum(z3.ToInt(self.e), None)

    def __ceil__(self):
        if self.e.sort() == z3.IntSort():
            return self
        return SNum(-z3.ToInt(-self.e), None)

    def floor(self):
        return SNum(_real(self.__floor__().e), self.nan)

    def ceil(self):
        return SNum(_real(self.__ceil__().e), self.nan)

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        if self.e.sort() == z3.IntSort():
            return self
        return SNum(self._rint())

    def _rint(self):
        x = self.e
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))

    def rint(self):
        if self.e.sort() == z3.IntSort():
            return self
        return SNum(_real(self._rint()), self.nan)

    def __trunc__(self):
        if self.e.sort() == z3.IntSort():
            return self
        if ctx().branch(self.e >= 0):
            return SNum(z3.ToInt(self.e))
        return SNum(-z3.ToInt(-self.e))

    def sign(self):
        return SNum(z3.If(self.e > 0, z3.RealVal(1), z3.If(self.e < 0, z3.RealVal(-1), z3.RealVal(0))), self.nan)

    def maximum(self, o):
        return self if self >= o else o

    def astype(self, dtype):
        if _np.dtype(dtype).kind == "f" or dtype is object:
            return SNum(_real(self.e), self.nan)
        if _np.dtype(dtype).kind in "iu":
            return self.__trunc__()
        raise Unsupported("astype")


numbers.Real.register(SNum)
_CMP = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal"}


def _unary(name):
    def f(self):
        from . import funcs

        return getattr(funcs, name)(self)

    return f


for _n in ("sqrt", "cos", "sin", "tan", "exp", "log", "log10", "log2", "arccos", "arcsin", "arctan", "radians", "degrees"):
    setattr(SNum, _n, _unary(_n))
SNum.deg2rad = SNum.radians
SNum.rad2deg = SNum.degrees


def _arctan2(self, o):
    from . import funcs

    return funcs.arctan2(self, o)


SNum.arctan2 = _arctan2


def _hypot(self, o):
    from . import funcs

    return funcs.sqrt(self * self + o * o, nonneg=True)


SNum.hypot = _hypot


class SComplex:
    """Symbolic complex number"""

    __slots__ = ("re", "im")
    __array_priority__ = 1001

    def __init__(self, re, im=0):
        self.re = re
        self.im = im

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        ins = []
        for x in inputs:
            if isinstance(x, (SNum, SBool, SComplex)):
                a = _np.empty((), dtype=object)
                a[()] = x
                x = a
            elif isinstance(x, _np.ndarray) and x.dtype != object:
                x = x.astype(object)
            elif isinstance(x, _np.generic):
                a = _np.empty((), dtype=object)
                a[()] = x.item()
                x = a
            ins.append(x)
        ret = getattr(ufunc, method)(*ins, **kwargs)
        if isinstance(ret, _np.ndarray) and ret.ndim == 0:
            return ret[()]
        return ret

    @staticmethod
    def of(v):
        if isinstance(v, SComplex):
            return v
        if isinstance(v, (complex, _np.complexfloating)):
            return SComplex(float(v.real), float(v.imag))
        if _isnum(v):
            if isinstance(v, _np.ndarray):
                v = v[()]
            return SComplex(v, 0)
        return None

    def _bin(self, o, f):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        o = SComplex.of(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: SComplex(a.re + b.re, a.im + b.im))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: SComplex(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: SComplex(b.re - a.re, b.im - a.im))

    def __mul__(self, o):
        return self._bin(
            o, lambda a, b: SComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        )

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        d = b.re * b.re + b.im * b.im
        return SComplex((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)

    def __truediv__(self, o):
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(self, 0).__truediv__(o)
        return self._bin(o, self._div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: self._div(b, a))

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, (int, _np.integer)) and n >= 0:
            r = SComplex(1, 0)
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported("complex power")

    def conjugate(self):
        return SComplex(self.re, -self.im)

    conj = conjugate

    def __abs__(self):
        from . import funcs

        return funcs.sqrt(self.re * self.re + self.im * self.im, nonneg=True)

    absolute = __abs__

    def square(self):
        return self * self

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def angle(self):
        from . import funcs

        return funcs.arctan2(self.im, self.re)

    def sqrt(self):
        from . import funcs

        im = self.im
        if (is_concrete(im) and im == 0) or (not is_concrete(im) and bool(im == 0)):
            return SComplex(funcs.sqrt(self.re), 0)
        raise Unsupported("complex square root")

    def exp(self):
        from . import funcs

        r = funcs.exp(self.re)
        return SComplex(r * funcs.cos(self.im), r * funcs.sin(self.im))

    def __eq__(self, o):
        o = SComplex.of(o)
        if o is None:
            return NotImplemented
        return SBool(z3.And(SBool.of(_eq(self.re, o.re)), SBool.of(_eq(self.im, o.im))))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic complex")

    def __complex__(self):
        raise Unsupported("complex() of symbolic complex")

    def __float__(self):
        raise Unsupported("float() of symbolic complex")

    def __repr__(self):
        return "SComplex({!r},{!r})".format(self.re, self.im)


numbers.Complex.register(SComplex)


def _eq(a, b):
    r = a == b
    return r


def contains_symbolic(x):
    if isinstance(x, (SNum, SBool, SComplex)):
        return True
    if isinstance(x, _np.ndarray):
        if x.dtype != object:
            return False
        return any(contains_symbolic(v) for v in x.ravel().tolist()) if x.ndim else contains_symbolic(x[()])
    if isinstance(x, (list, tuple)):
        return any(contains_symbolic(v) for v in x)
    return False


def _feasible_sat(self):
    """the path can be taken (a fresh solver respects its limit and is often faster)"""
    s = z3.Solver()
    s.set("rlimit", 5000000)
    s.add(*self.solver.assertions())
    r = s.check()
    if r == z3.unknown:
        r = self.solver.check()
    return r == z3.sat


def _infeasible_now(self):
    return self.solver.check() == z3.unsat


def _model(self):
    if self.solver.check() == z3.sat:
        return self.solver.model()
    return None


Ctx.feasible_sat = _feasible_sat
Ctx.infeasible_now = _infeasible_now
Ctx.model = _model
