"""Transcendental functions of symbolic numbers, axiomatised.

Trusted axioms: c^2+s^2=1, angle addition, exp(a+b)=exp(a)exp(b), exp>0, monotonicity,
sqrt(x)^2=x, log inverse of exp, arctan2/arccos/... ranges.
"""
import math
from fractions import Fraction

import numpy as _np
import z3

from . import ring
from .sym import PI, SNum, SBool, Unsupported, ctx, is_concrete, term, _real


def _key(e):
    """canonical hashable key of a real term"""
    c = ctx()
    n, f = ring.canonical(e, c.relations)
    f = n.reduce(f)
    ids = [a.get_id() for a in n.atoms]
    c.memo.setdefault("keepalive", []).extend(n.atoms)

    def mono(m):
        return tuple(sorted((ids[i], k) for i, k in enumerate(m) if k))

    num = frozenset((mono(m), Fraction(int(v.numerator), int(v.denominator))) for m, v in f.num.items())
    den = frozenset(
        (
            frozenset((mono(m), Fraction(int(v.numerator), int(v.denominator))) for m, v in p.items()),
            k,
        )
        for p, k in f.den.items()
    )
    return num, den


def _terms(e):
    """e = sum coef*monomial if polynomial, else a single opaque monomial.
    Returns [(key, z3 monomial, Fraction)]"""
    c = ctx()
    n, f = ring.canonical(e, c.relations)
    f = n.reduce(f)
    c.memo.setdefault("keepalive", []).extend(n.atoms)
    if not f.num:
        return []
    dterm = None
    dkey = ()
    if f.den:
        dterm = z3.RealVal(1)
        dk = []
        for p, k in f.den.items():
            pt = _poly_term(n, p)
            for _ in range(k):
                dterm = dterm * pt
            dk.append((_polykey(n, p), k))
        dkey = frozenset(dk)
    out = []
    for m, v in f.num.items():
        q = Fraction(int(v.numerator), int(v.denominator))
        mt = None
        mk = []
        for i, k in enumerate(m):
            for _ in range(k):
                a = _real(n.atoms[i])
                mt = a if mt is None else mt * a
            if k:
                mk.append((n.atoms[i].get_id(), k))
        if mt is None:
            mt = z3.RealVal(1)
        if dterm is not None:
            mt = mt / dterm
        out.append(((tuple(sorted(mk)), dkey), mt, q))
    return out


def _polykey(n, p):
    return frozenset(
        (
            tuple(sorted((n.atoms[i].get_id(), k) for i, k in enumerate(m) if k)),
            Fraction(int(v.numerator), int(v.denominator)),
        )
        for m, v in p.items()
    )


def _poly_term(n, p):
    t = z3.RealVal(0)
    for m, v in p.items():
        mt = z3.RealVal(str(Fraction(int(v.numerator), int(v.denominator))))
        for i, k in enumerate(m):
            for _ in range(k):
                mt = mt * _real(n.atoms[i])
        t = t + mt
    return t


def _num(x):
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        x = x[()]
    return x


# ---------------------------------------------------------------- sqrt
def sqrt(x, nonneg=False):
    x = _num(x)
    if is_concrete(x):
        return math.sqrt(x)
    c = ctx()
    e = _real(x.e)
    es = z3.simplify(e)
    if z3.is_rational_value(es):
        q = ring.numeral(es)
        if q >= 0:
            a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if a * a == q.numerator and b * b == q.denominator:
                return SNum(z3.RealVal(str(Fraction(a, b))), x.nan)
    f = _sqrt_factors(e)
    if not nonneg and (f is None or not all(p.get_id() in c.memo.get("nonneg terms", ()) or c.never(p < 0) for p in f[1])):
        if not c.never(e < 0) and c.branch(e < 0):
            raise Unsupported("sqrt of a negative number")
    if f is not None:
        outside, inside = f
        r = z3.RealVal(1)
        for p, m in outside:
            if c.branch(p < 0):
                p = -p
            for _ in range(abs(m)):
                r = r * p if m > 0 else r / p
        for p in inside:
            q = _real(term(_sqrt_atom(p))[0])
            r = r * q
        return SNum(z3.simplify(r), x.nan)
    return SNum(_real(term(_sqrt_atom(e))[0]), x.nan)


def _sqrt_factors(e):
    """sqrt(prod p_i^k_i): factors taken out and remaining square-free non-negative factors"""
    c = ctx()
    n, f = ring.canonical(e, c.relations)
    f = n.reduce(f)
    c.memo.setdefault("keepalive", []).extend(n.atoms)
    if not f.num or len(f.num) > 40:
        return None
    try:
        cont, facs = f.num.factor_list()
    except Exception:
        return None
    powers = dict(facs)
    for p, k in f.den.items():
        # the denominator is a product of known and of expanded factors
        fp = None
        if 1 < len(p) <= 60:
            try:
                fp = p.factor_list()
            except Exception:
                fp = None
        if fp is None or fp[0] <= 0:
            fp = (1, [(p, 1)])
        cont = cont / (fp[0] ** k if fp[0] != 1 else 1)
        for q, m in fp[1]:
            powers[q] = powers.get(q, 0) - m * k
    facs = [(q, m) for q, m in powers.items() if m]
    if len(facs) == 1 and facs[0][1] == 1:
        return None
    if not facs:
        return None
    outside, inside = [], []
    rest = z3.RealVal(str(Fraction(int(cont.numerator), int(cont.denominator))))
    if cont < 0:
        return None
    if cont != 1:
        inside.append(rest)
    good = set()
    flips = 0
    for p, k in facs:
        t = _poly_term(n, p)
        h, r = divmod(k, 2)
        if r and c.memo.get("poly signs"):
            s = c.poly_nonneg(n, p)
            if s < 0:
                # a factor that is not positive and another one: take both with the other sign
                t, flips = z3.simplify(-t), flips + 1
            if s:
                good.add(t.get_id())
                c.memo.setdefault("nonneg terms", {})[t.get_id()] = t
        if h:
            outside.append((t, h))
        if r:
            inside.append(t)
    if flips % 2:
        return None
    if len(inside) > 1:
        for t in inside:
            if t.get_id() not in good and c.feasible(t < 0):
                # keep the odd part together
                prod = z3.RealVal(1)
                for q in inside:
                    prod = prod * q
                if not outside:
                    return None
                return outside, [prod]
    return outside, inside


def _sqrt_atom(e):
    c = ctx()
    es = z3.simplify(e)
    if z3.is_rational_value(es):
        q = ring.numeral(es)
        if q >= 0:
            a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if a * a == q.numerator and b * b == q.denominator:
                return SNum(z3.RealVal(str(Fraction(a, b))))
    x = SNum(e)
    k = ("sqrt", _key(e))
    if k not in c.memo:
        r = z3.Real(c.name("sqrt"))
        c.memo[k] = r
        c.relations.append((r, 2, e))
        c.add_fact(r >= 0)
        c.add_fact(r * r == e)
        c.memo.setdefault("nonneg", set()).add(r.get_id())
        if c.sign(e) > 0 or c.ring_sign(e) > 0:
            c.add_fact(r > 0)
            c.memo.setdefault("signs", {})[r.get_id()] = r, 1
    return SNum(c.memo[k], x.nan)


# ---------------------------------------------------------------- trig
def _sq(n):
    """z3 term of sqrt(n), n integer"""
    return _real(sqrt(SNum(z3.RealVal(n))).e)


def _pi_exact(q):
    """(cos, sin) of q*pi when exactly known"""
    q = q % 2
    h = z3.RealVal("1/2")
    one, zero = z3.RealVal(1), z3.RealVal(0)
    base = {
        Fraction(0): lambda: (one, zero),
        Fraction(1, 6): lambda: (_sq(3) * h, h),
        Fraction(1, 4): lambda: (_sq(2) * h, _sq(2) * h),
        Fraction(1, 3): lambda: (h, _sq(3) * h),
        Fraction(1, 2): lambda: (zero, one),
    }
    quad, rem = divmod(q, Fraction(1, 2))
    if rem not in base:
        return None
    co, si = base[rem]()
    for _ in range(int(quad)):
        co, si = -si, co
    return co, si


def _angle_atom(key, mono, q):
    """(cos, sin) terms of q*mono, q Fraction > 0"""
    c = ctx()
    tab = c.memo.setdefault("trig", {})
    if key not in tab:
        tab[key] = _new_angle(mono, q)
    unit, co, si = tab[key]
    ratio = q / unit
    if ratio.denominator != 1:
        new = unit / ratio.denominator
        u2, c2, s2 = _new_angle(mono, new)
        cc, ss = _multiple(c2, s2, ratio.denominator)
        # old atoms expressed in the finer ones
        if z3.is_const(co) and z3.is_const(si):
            c.relations.append((co, 1, cc))
            c.relations.append((si, 1, ss))
        c.add_fact(co == cc)
        c.add_fact(si == ss)
        tab[key] = (u2, c2, s2)
        unit, co, si = tab[key]
        ratio = q / unit
    return _multiple(co, si, int(ratio))


def _new_angle(mono, q):
    c = ctx()
    co, si = z3.Real(c.name("cos")), z3.Real(c.name("sin"))
    c.relations.append((si, 2, 1 - co * co))
    c.add_fact(co * co + si * si == 1)
    c.add_fact(z3.And(co >= -1, co <= 1, si >= -1, si <= 1))
    a = mono * z3.RealVal(str(q))
    c.memo.setdefault("angles", []).append((a, co, si))
    _range_facts(a, co, si)
    c.abstracted = True
    return q, co, si


def _range_facts(a, co, si):
    c = ctx()
    h = PI / 2
    c.add_fact(z3.Implies(z3.And(a > -h, a < h), co > 0))
    c.add_fact(z3.Implies(z3.And(a > 0, a < PI), si > 0))
    c.add_fact(z3.Implies(z3.And(a > -PI, a < 0), si < 0))
    c.add_fact(z3.Implies(z3.And(a > h, a < 3 * h), co < 0))
    c.add_fact(z3.Implies(a == 0, z3.And(co == 1, si == 0)))
    c.add_fact(z3.Implies(a == h, z3.And(co == 0, si == 1)))
    c.add_fact(z3.Implies(a == -h, z3.And(co == 0, si == -1)))
    c.add_fact(z3.Implies(z3.Or(a == PI, a == -PI), z3.And(co == -1, si == 0)))


def _multiple(co, si, n):
    rc, rs = z3.RealVal(1), z3.RealVal(0)
    if n > 16:
        raise Unsupported("large angle multiple")
    if n == 1:
        return co, si
    for _ in range(n):
        rc, rs = rc * co - rs * si, rs * co + rc * si
    return rc, rs


def cossin(x):
    x = _num(x)
    if is_concrete(x):
        e, nan = term(x)
    else:
        e, nan = x.e, x.nan
    c = ctx()
    rc, rs = z3.RealVal(1), z3.RealVal(0)
    for key, mono, q in _terms(_real(e)):
        exact = None
        if mono.get_id() == PI.get_id():
            exact = _pi_exact(q)
        if exact:
            co, si = exact
        else:
            co, si = _angle_atom(key, mono, abs(q))
            if q < 0:
                si = -si
        rc, rs = rc * co - rs * si, rs * co + rc * si
    return z3.simplify(rc), z3.simplify(rs), nan


def cos(x):
    x = _num(x)
    if is_concrete(x):
        return math.cos(x)
    a, _, nan = cossin(x)
    return SNum(a, nan)


def sin(x):
    x = _num(x)
    if is_concrete(x):
        return math.sin(x)
    _, b, nan = cossin(x)
    return SNum(b, nan)


def tan(x):
    return sin(x) / cos(x)


def _register_angle(theta, co, si):
    c = ctx()
    tab = c.memo.setdefault("trig", {})
    key = (((theta.get_id(), 1),), ())
    tab[key] = (Fraction(1), co, si)
    c.memo.setdefault("keepalive", []).append(theta)
    _range_facts(theta, co, si)
    c.abstracted = True
    for a, ca, sa in c.memo.setdefault("angles", []):
        c.add_fact(
            z3.Implies(
                z3.And(ca == co, sa == si, a > -PI, a <= PI), a == theta
            )
        )
    c.memo["angles"].append((theta, co, si))


def arccos(x):
    x = _num(x)
    if is_concrete(x):
        return math.acos(x)
    c = ctx()
    e = _real(x.e)
    if c.branch(z3.Or(e < -1, e > 1)):
        raise Unsupported("arccos outside its domain")
    k = ("acos", _key(e))
    if k not in c.memo:
        t = z3.Real(c.name("acos"))
        s = sqrt(SNum(1 - e * e), nonneg=True).e
        c.add_fact(z3.And(t >= 0, t <= PI))
        _register_angle(t, e, s)
        c.memo[k] = t
    return SNum(c.memo[k], x.nan)


def arcsin(x):
    x = _num(x)
    if is_concrete(x):
        return math.asin(x)
    c = ctx()
    e = _real(x.e)
    if c.branch(z3.Or(e < -1, e > 1)):
        raise Unsupported("arcsin outside its domain")
    k = ("asin", _key(e))
    if k not in c.memo:
        t = z3.Real(c.name("asin"))
        s = sqrt(SNum(1 - e * e), nonneg=True).e
        c.add_fact(z3.And(t >= -PI / 2, t <= PI / 2))
        _register_angle(t, s, e)
        c.memo[k] = t
    return SNum(c.memo[k], x.nan)


def arctan(x):
    x = _num(x)
    if is_concrete(x):
        return math.atan(x)
    c = ctx()
    e = _real(x.e)
    k = ("atan", _key(e))
    if k not in c.memo:
        t = z3.Real(c.name("atan"))
        r = sqrt(SNum(1 + e * e), nonneg=True).e
        c.add_fact(z3.And(t > -PI / 2, t < PI / 2))
        c.add_fact(r > 0)
        _register_angle(t, 1 / r, e / r)
        c.memo[k] = t
    return SNum(c.memo[k], x.nan)


def arctan2(y, x):
    y, x = _num(y), _num(x)
    if is_concrete(y) and is_concrete(x):
        return math.atan2(y, x)
    c = ctx()
    ey, ny = term(y)
    ex, nx = term(x)
    ey, ex = _real(ey), _real(ex)
    if c.branch(z3.And(ey == 0, ex == 0)):
        return 0.0
    k = ("atan2", _key(ey), _key(ex))
    if k not in c.memo:
        t = z3.Real(c.name("atan2"))
        r = _real(term(sqrt(SNum(ex * ex + ey * ey), nonneg=True))[0])
        c.add_fact(z3.And(t > -PI, t <= PI))
        c.add_fact(r > 0)
        _register_angle(t, ex / r, ey / r)
        c.memo[k] = t
    return SNum(c.memo[k])


def radians(x):
    x = _num(x)
    if is_concrete(x):
        x = SNum(term(x)[0])
    return SNum(_real(x.e) * PI / 180, x.nan)


def degrees(x):
    x = _num(x)
    if is_concrete(x):
        x = SNum(term(x)[0])
    return SNum(_real(x.e) * 180 / PI, x.nan)


# ---------------------------------------------------------------- exp/log
def _exp_atom(key, mono, q):
    c = ctx()
    tab = c.memo.setdefault("exp", {})
    if key not in tab:
        tab[key] = _new_exp(mono, q)
    unit, E = tab[key]
    ratio = q / unit
    if ratio.denominator != 1:
        new = unit / ratio.denominator
        u2, E2 = _new_exp(mono, new)
        p = z3.RealVal(1)
        for _ in range(ratio.denominator):
            p = p * E2
        c.relations.append((E, 1, p))
        c.add_fact(E == p)
        tab[key] = (u2, E2)
        unit, E = tab[key]
        ratio = q / unit
    r = z3.RealVal(1)
    if ratio > 64:
        raise Unsupported("large exponent multiple")
    for _ in range(int(ratio)):
        r = r * E
    return r


def _new_exp(mono, q):
    c = ctx()
    E = z3.Real(c.name("exp"))
    a = mono * z3.RealVal(str(q))
    c.add_fact(E > 0)
    c.add_fact((E > 1) == (a > 0))
    c.add_fact((E < 1) == (a < 0))
    c.add_fact(E >= 1 + a)
    for b, F in c.memo.setdefault("exps", []):
        c.add_fact((E > F) == (a > b))
        c.add_fact((E < F) == (a < b))
    c.memo["exps"].append((a, E))
    c.abstracted = True
    return q, E


def exp(x):
    x = _num(x)
    if is_concrete(x):
        return math.exp(x)
    c = ctx()
    r = z3.RealVal(1)
    for key, mono, q in _terms(_real(x.e)):
        lg = c.memo.get("logs", {}).get(mono.get_id())
        if lg is not None and q.denominator == 1 and abs(q) <= 16:
            p = z3.RealVal(1)
            for _ in range(abs(int(q))):
                p = p * lg
            r = r * p if q > 0 else r / p
            continue
        E = _exp_atom(key, mono, abs(q))
        r = r * E if q > 0 else r / E
    return SNum(z3.simplify(r), x.nan)


def log(x):
    x = _num(x)
    if is_concrete(x):
        return math.log(x)
    c = ctx()
    e = _real(x.e)
    if c.branch(e <= 0):
        raise Unsupported("log of a non-positive number")
    n, f = ring.canonical(e, c.relations)
    c.memo.setdefault("keepalive", []).extend(n.atoms)
    # split positive monomial factors
    parts = []
    ok = len(f.num) == 1
    if ok:
        (m, v), = f.num.items()
        q = Fraction(int(v.numerator), int(v.denominator))
        parts = [(_real(n.atoms[i]), k) for i, k in enumerate(m) if k]
        parts += [(_poly_term(n, p), -k) for p, k in f.den.items()]
        ok = q > 0 and len(parts) + (q != 1) > 1
        ok = ok and all(not c.feasible(p <= 0) for p, _ in parts)
        if ok and q != 1:
            parts.append((z3.RealVal(str(q)), 1))
    if ok:
        r = z3.RealVal(0)
        for p, k in parts:
            r = r + k * _log_atom(p)
        return SNum(z3.simplify(r), x.nan)
    return SNum(_log_atom(e), x.nan)


def _log_atom(e):
    c = ctx()
    es = z3.simplify(e)
    if z3.is_rational_value(es) and ring.numeral(es) == 1:
        return z3.RealVal(0)
    # log(exp(a)) = a
    for a, E in c.memo.get("exps", []):
        if E.get_id() == e.get_id():
            return a
    k = ("log", _key(e))
    if k not in c.memo:
        L = z3.Real(c.name("log"))
        c.memo[k] = L
        c.memo.setdefault("logs", {})[L.get_id()] = e
        c.memo.setdefault("keepalive", []).append(L)
        c.add_fact((L > 0) == (e > 1))
        c.add_fact((L < 0) == (e < 1))
        for e2, L2 in c.memo.setdefault("loglist", []):
            c.add_fact((L > L2) == (e > e2))
            c.add_fact((L < L2) == (e < e2))
        c.memo["loglist"].append((e, L))
        c.abstracted = True
    return c.memo[k]


def log10(x):
    return log(x) / log(SNum(z3.RealVal(10)))


def log2(x):
    return log(x) / log(SNum(z3.RealVal(2)))


def power(b, p):
    b, p = _num(b), _num(p)
    if is_concrete(b) and is_concrete(p):
        return b**p
    if is_concrete(b):
        b = SNum(term(b)[0])
    if isinstance(p, SNum):
        ps = z3.simplify(p.e)
        if ring._isnumeral(ps):
            q = ring.numeral(ps)
            if q.denominator == 1:
                return b ** int(q)
            return b ** float(q)
    if ctx().branch(b.e <= 0):
        raise Unsupported("symbolic power of a non-positive base")
    return exp(p * log(b))


# ---------------------------------------------------------------- special functions
def opaque(name, *args, facts=None):
    """an unknown function: equal for equal arguments"""
    c = ctx()
    args = [SNum(term(a)[0]) if is_concrete(a) else a for a in map(_num, args)]
    k = (name,) + tuple(_key(_real(a.e)) for a in args)
    if k not in c.memo:
        v = c.memo[k] = z3.Real(c.name(name))
        c.memo.setdefault("keepalive", []).append(v)
        c.abstracted = True
        if facts is not None:
            facts(v, *args)
    return SNum(c.memo[k])


def erf(x):
    """odd function between -1 and 1"""
    x = _num(x)
    if is_concrete(x):
        return math.erf(x)
    e = _real(x.e)
    c = ctx()
    n, f = ring.canonical(e, c.relations)
    f = n.reduce(f)
    if not f.num:
        return SNum(z3.RealVal(0), x.nan)
    t = _terms(e)
    lead = min(t, key=lambda a: str(a[0]))[2]
    s = -1 if lead < 0 else 1

    def facts(v, a):
        c.add_fact(z3.And(v > -1, v < 1))
        c.add_fact((v > 0) == (a.e > 0))
        c.add_fact((v < 0) == (a.e < 0))

    r = opaque("erf", SNum(e) * s, facts=facts) * s
    return SNum(r.e, x.nan)


def erfc(x):
    x = _num(x)
    if is_concrete(x):
        return math.erfc(x)
    return 1 - erf(x)
