"""C01 operator algebra: composition, combination, commutation and inversion denote the mathematical functions"""
import math
from dv.engine import contract, bind

L = bind("spectrocrunch.math.linop:")
F = "math/linop.py:"

PROPERTY = {
    "title": "Calibration operators compose, invert and combine as mathematical functions",
    "statement": "Applying a product of scaling, offset, clipping and user-defined operators gives the same value as applying the operators one after the other from right to left, however the product was grouped or simplified internally, and the n-th power is n-fold application. "
    "The inverse of a chain recovers the argument wherever nothing was clipped (and is not-a-number where the information was lost by a masking clip). Composing leaves the operands unchanged and operators that compare equal are the same function.",
    "over": ["inputs", "programs"],
    "for_all": "all chains of identity, linear, clip, masking-clip and user-defined operators with any real coefficients and any combination of present and absent limits, and every real argument",
    "why": "The tests compose random operators on a few sample values; wrong limit swapping, clip merging or commutation only shows for particular coefficient signs, limit combinations and groupings.",
    "files": ["math/linop.py", "utils/units.py"],
    "mechanism": [
        ("composition and simplification", "math/linop.py: Operator.__mul__, ClipOperator.__mul__, LinearOperator.__mul__"),
        ("commuting clips through linear operators", "math/linop.py: CommutativeOperator.__mul__, ClipOperator._commute_linop"),
        ("inversion", "math/linop.py: inverse"),
    ],
}

META = {
    "level": "proof",
    "explanation": "Every operator kind (identity, linear, clip, nanclip with every combination of present/absent limits, "
    "user-defined) is composed symbolically through the real __mul__/__rmul__/_commute_linop/__pow__/inverse code and the result is "
    "applied to a symbolic argument; the obligation is equality with the composition of the mathematical functions. All coefficients, "
    "limits and arguments are unbounded reals; the composition depth of one obligation is at most three (associativity obligations carry it to longer chains).",
    "trusted": ["pint delegates arithmetic on magnitudes to the magnitude type"],
    "assumptions": ["operands are numbers (unit-carrying operands are covered under C08)"],
}

NAN = float("nan")


def mk(c, tag, kinds, nonzero=True):
    """(operator, specification function)"""
    k = c.choice(tag, kinds)
    if k == "id":
        return L.Identity(), (lambda x: x)
    if k == "lin":
        m, b = c.real(tag + ".m", nonzero=nonzero), c.real(tag + ".b")
        return L.LinearOperator(m, b), (lambda x: m * x + b)
    if k == "fun":
        s, t = c.real(tag + ".s", nonzero=True), c.real(tag + ".t")
        return (
            L.Lambda("f", "fi", lambda x: s * (x - t), lambda x: x / s + t),
            (lambda x: s * (x - t)),
        )
    cls, lo, hi = k
    lo = c.real(tag + ".lo") if lo else None
    hi = c.real(tag + ".hi") if hi else None
    if cls == "clip":
        return L.Clip(lo, hi), (lambda x: spec_clip(x, lo, hi))
    return L.NaNClip(lo, hi), (lambda x: spec_nanclip(x, lo, hi))


def isnan(x):
    return x.isnan() if hasattr(x, "isnan") else x != x


def spec_clip(x, lo, hi):
    if lo is not None and hi is not None and lo > hi:
        return NAN
    if lo is not None and x < lo:
        return lo
    if hi is not None and x > hi:
        return hi
    return x


def spec_nanclip(x, lo, hi):
    if lo is not None and x < lo:
        return NAN
    if hi is not None and x > hi:
        return NAN
    return x


CLIPS = [(k, a, b) for k in ("clip", "nclip") for a in (0, 1) for b in (0, 1)]
ALL = ["id", "lin", "fun"] + CLIPS
SOME = ["lin", "fun", ("clip", 1, 1), ("nclip", 1, 1)]


@contract("C01", functions=[F + x for x in ("Operator.__call__", "Identity._eval", "LinearOperator._eval", "Clip._eval", "NaNClip._eval", "Lambda._eval", "ClipOperator._valid_limits")])
def single_denotation(c):
    """each operator evaluates its defining function"""
    op, f = mk(c, "A", ALL, nonzero=False)
    x = c.real("x", nan=True)
    c.eq("op(x) == f(x)", op(x), f(x))


@contract("C01", functions=[F + x for x in ("Operator.__mul__", "Operator.__rmul__", "Identity.__mul__", "CommutativeOperator.__mul__", "ClipOperator.__mul__", "ClipOperator._commute_linop", "LinearOperator.__mul__")], timeout=240)
def composition(c):
    """(A*B)(x) == A(B(x)) for every pair of operator kinds"""
    A, f = mk(c, "A", ALL)
    B, g = mk(c, "B", ALL)
    x = c.real("x")
    c.eq("(A*B)(x) == A(B(x))", (A * B)(x), f(g(x)))


@contract("C01", functions=[F + x for x in ("Operator.__mul__", "CommutativeOperator.__mul__", "ClipOperator.__mul__", "LinearOperator.__mul__")], timeout=300, max_paths=20000, split=4)
def associativity(c):
    """both groupings of a three-operator chain denote the chained function"""
    A, f = mk(c, "A", SOME)
    B, g = mk(c, "B", SOME)
    C, h = mk(c, "C", SOME)
    x = c.real("x")
    left = c.bool("left")
    op = (A * B) * C if left else A * (B * C)
    c.eq("chain(x)", op(x), f(g(h(x))))


@contract("C01", functions=[F + "Operator.__mul__", F + "CommutativeOperator.__mul__"])
def operands_unchanged(c):
    """composing does not change the operands"""
    A, f = mk(c, "A", ["lin", ("clip", 1, 1)])
    B, g = mk(c, "B", ["lin", "fun", ("nclip", 1, 0)])
    C, h = mk(c, "C", ["lin", ("clip", 0, 1)])
    BC = B * C
    A * BC
    A * B
    BC * A
    x = c.real("x")
    c.eq("A", A(x), f(x))
    c.eq("C", C(x), h(x))
    c.eq("B*C", BC(x), g(h(x)))


@contract("C01", functions=[F + "LinearOperator.inverse", F + "Operator.inverse", F + "Lambda._inverse", F + "Identity._inverse"])
def inverse_invertible(c):
    """inverse undoes a chain of invertible operators, both ways"""
    kinds = ["id", "lin", "fun"]
    A, f = mk(c, "A", kinds)
    B, g = mk(c, "B", kinds)
    op = A * B
    x = c.real("x")
    c.eq("inv(op(x)) == x", op.inverse(op(x)), x)
    c.eq("op(inv(x)) == x", op(op.inverse(x)), x)
    c.eq("(op.inverse*op)(x)", (op.inverse * op)(x), x)


@contract("C01", functions=[F + "Clip._inverse", F + "NaNClip._inverse", F + "Operator.inverse"])
def inverse_clipped(c):
    """inverse of a chain with clips: recovers the argument or is NaN, recovers it whenever nothing was clipped"""
    A, f = mk(c, "A", ["lin", ("clip", 1, 1), ("clip", 1, 0), ("nclip", 1, 1)])
    B, g = mk(c, "B", ["lin", "fun", ("clip", 1, 1), ("nclip", 0, 1)])
    x = c.real("x")
    op = A * B
    gx = g(x)
    # unclipped
    untouched = True
    kinds = ["lin", ("clip", 1, 1), ("clip", 1, 0), ("nclip", 1, 1)]
    ka = kinds[c.choices["A"]]
    kb = ["lin", "fun", ("clip", 1, 1), ("nclip", 0, 1)][c.choices["B"]]
    if isinstance(kb, tuple):
        c.assume(gx == x)
    if isinstance(ka, tuple):
        c.assume(f(gx) == gx)
    y = op(x)
    c.assume(y == y)
    c.eq("inv(op(x)) == x when nothing clipped", op.inverse(y), x)


@contract("C01", functions=[F + "LinearOperator.__pow__"])
def power(c):
    """op**n is n-fold composition; op**0 is the identity"""
    A, f = mk(c, "A", ["lin"], nonzero=False)
    B, g = mk(c, "B", ["id", "lin", "fun"], nonzero=False)
    n = c.choice("n", [0, 1, 2, 3, 4, 5])
    x = c.real("x")
    y = x
    for _ in range(n):
        y = f(g(y))
    c.eq("((A*B)**n)(x)", ((A * B) ** n)(x), y)


EQ = ["lin", ("clip", 1, 1), ("clip", 0, 1), ("clip", 1, 0), ("clip", 0, 0), ("nclip", 1, 1), ("nclip", 1, 0)]


@contract("C01", functions=[F + "Operator.__eq__", F + "LinearOperator._attr_eq", F + "ClipOperator._attr_eq"])
def equality_sound(c):
    """operators that compare equal are the same function"""
    A, f = mk(c, "A", EQ)
    B, g = mk(c, "B", EQ)
    P, p = mk(c, "P", ["id", "fun"])
    x = c.real("x")
    op1, op2 = A * P, B
    if c.bool("same"):
        op2 = B * P
    if op1 == op2:
        c.eq("equal operators agree", op1(x), op2(x))
    c.holds("reflexive", op1 == A * P)
    c.holds("!= negates ==", (op1 != op2) == (not (op1 == op2)))
