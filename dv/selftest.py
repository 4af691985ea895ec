"""Engine self-test: proxies agree with CPython, broken functions are refuted, correct ones proved"""
import math
import random
import sys
import time

from . import env, engine, sym
from .engine import contract

FAIL = []


def correct_and_broken():
    def add(spec, name, good):
        con = engine.Contract("SELF", name, spec, "proof", (), 20, None, (), 30, (), None, 500, 0)
        CASES.append((con, good))

    CASES = []

    def clamp(x, lo, hi):
        return lo if x < lo else hi if x > hi else x

    def clampbad(x, lo, hi):
        return lo if x <= lo else hi if x > lo + hi else x

    for f, good in ((clamp, True), (clampbad, False)):

        def spec(c, f=f):
            lo, d, x = c.real("lo"), c.real("d", lo=0), c.real("x")
            y = f(x, lo, lo + d)
            c.holds("in range", (y >= lo) & (y <= lo + d) if c.symbolic else lo <= y <= lo + d)
            c.holds("idempotent", f(y, lo, lo + d) == y)

        add(spec, f.__name__, good)

    from . import funcs

    def rot(good):
        def spec(c):
            t, x, y = c.real("t"), c.real("x"), c.real("y")
            co, si = (funcs.cos(t), funcs.sin(t)) if c.symbolic else (math.cos(t), math.sin(t))
            a, b = co * x - si * y, si * x + (co * y if good else -co * y)
            c.eq("norm", a * a + b * b, x * x + y * y)
            c2 = funcs.cos(2 * t) if c.symbolic else math.cos(2 * t)
            c.eq("double", c2, co * co - si * si)

        return spec

    add(rot(True), "rotation", True)
    add(rot(False), "rotationbad", False)

    def beer(good):
        def spec(c):
            a, b = c.real("a"), c.real("b")
            ex = funcs.exp if c.symbolic else math.exp
            c.eq("exp", ex(-a - b), ex(-a) * (ex(-b) if good else ex(b)))

        return spec

    add(beer(True), "exponential", True)
    add(beer(False), "exponentialbad", False)

    def divi(good):
        def spec(c):
            n, d = c.int("n", -50, 50), c.int("d", 1, 9)
            q, r = n // d, n % d
            c.eq("div", q * d + r, n)
            c.holds("rem", (r >= (0 if good else 1)))

        return spec

    add(divi(True), "division", True)
    add(divi(False), "divisionbad", False)

    def vac(c):
        x = c.real("x", lo=1, hi=0)
        c.holds("never", x > 5)

    add(vac, "vacuous", False)

    for con, good in CASES:
        r = engine.explore(con, time.time() + 30, 8000)
        ok = (
            bool(r["obligations"])
            and all(o[1] == "discharged" for o in r["obligations"])
            and r["cover"]
            and not r["unsupported"]
            and not r["exceptions"]
        )
        if ok != good:
            FAIL.append("{}: expected {} got {} {}".format(con.name, good, ok, r))


def proxies():
    """symbolic operations on constrained inputs equal CPython"""
    import z3

    rng = random.Random(3)
    ops = {
        "add": lambda a, b: a + b,
        "sub": lambda a, b: a - b,
        "mul": lambda a, b: a * b,
        "truediv": lambda a, b: a / b,
        "floordiv": lambda a, b: a // b,
        "mod": lambda a, b: a % b,
        "neg": lambda a, b: -a,
        "abs": lambda a, b: abs(a),
        "lt": lambda a, b: a < b,
        "le": lambda a, b: a <= b,
        "eq": lambda a, b: a == b,
        "ne": lambda a, b: a != b,
        "min": lambda a, b: min(a, b),
        "round": lambda a, b: round(a),
        "trunc": lambda a, b: math.trunc(a),
        "floor": lambda a, b: math.floor(a),
        "ceil": lambda a, b: math.ceil(a),
        "rsub": lambda a, b: 7 - a,
        "rdiv": lambda a, b: 3 / b,
        "pow3": lambda a, b: a**3,
    }
    for name, f in ops.items():
        for _ in range(25):
            isint = rng.random() < 0.5
            if isint:
                a, b = rng.randint(-9, 9), rng.randint(-4, 4)
            else:
                a, b = rng.randint(-40, 40) / 4, rng.randint(-8, 8) / 2
            c = sym.Ctx()
            sym.activate(c)
            mk = z3.Int if isint else z3.Real
            x, y = sym.SNum(mk("x")), sym.SNum(mk("y"))
            c.assume(x.e == a)
            c.assume(y.e == (b if isint else z3.RealVal(str(b))))
            try:
                got = f(x, y)
                exc = None
            except ZeroDivisionError:
                exc = True
            try:
                want = f(a, b)
                wexc = None
            except ZeroDivisionError:
                wexc = True
            if exc or wexc:
                if exc != wexc:
                    FAIL.append("{} {} {}: exception mismatch".format(name, a, b))
                sym.activate(None)
                continue
            if isinstance(got, sym.SBool):
                g = bool(got)
                ok = g == want
            else:
                e = sym.term(got)[0]
                w = sym.term(want)[0] if not isinstance(want, float) else None
                m = c.model()
                v = m.eval(e, model_completion=True)
                v = float(v.as_fraction()) if z3.is_rational_value(v) else v.as_long()
                ok = abs(v - want) < 1e-12
            if not ok:
                FAIL.append("{} {} {}: {} != {}".format(name, a, b, got, want))
            sym.activate(None)


def main():
    correct_and_broken()
    proxies()
    for f in FAIL:
        print("SELFTEST FAIL", f)
    print("selftest", "failed" if FAIL else "ok")
    return 1 if FAIL else 0


if __name__ == "__main__":
    sys.exit(main())
