"""Ring normaliser: proves equalities of rational functions modulo rewrite relations.

A z3 real/int term is converted to num/den with num, den in Q[atoms]; atoms are the
maximal non-arithmetic subterms.  Relations  atom^deg -> rational function  (trig,
square roots) are applied to the numerator; the equality is proved when the
numerator vanishes (denominators are non-zero on every path: SNum forks on it).
"""
from fractions import Fraction

import z3
from sympy import QQ
from sympy.polys.rings import ring as _mkring


class TooBig(Exception):
    pass


MAXTERMS = 20000


class Frac:
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}


def _isnumeral(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def numeral(e):
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


ARITH = {
    z3.Z3_OP_ADD,
    z3.Z3_OP_SUB,
    z3.Z3_OP_UMINUS,
    z3.Z3_OP_MUL,
    z3.Z3_OP_DIV,
    z3.Z3_OP_TO_REAL,
    z3.Z3_OP_POWER,
}


def _arith_kind(e):
    if not z3.is_app(e):
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_POWER:
        if not (_isnumeral(e.arg(1)) and numeral(e.arg(1)).denominator == 1):
            return None
    return k if k in ARITH else None


def atoms_of(exprs):
    """Atoms in first-seen order: list of z3 terms"""
    seen, out, akeys = set(), [], set()
    stack = list(reversed(exprs))
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if _isnumeral(e):
            continue
        if _arith_kind(e) is not None:
            for c in reversed(e.children()):
                stack.append(c)
        else:
            out.append(e)
    return out


class Norm:
    """Normaliser for a set of terms, given relations [(atom, deg, replacement term)]"""

    def __init__(self, exprs, relations=()):
        relations = list(relations)
        todo = list(exprs)
        ats = atoms_of(todo)
        ids = {a.get_id() for a in ats}
        # close under relations
        used = []
        changed = True
        remaining = relations
        while changed:
            changed = False
            rest = []
            for r in remaining:
                if r[0].get_id() in ids:
                    used.append(r)
                    new = [a for a in atoms_of([r[2]]) if a.get_id() not in ids]
                    ats.extend(new)
                    ids.update(a.get_id() for a in new)
                    changed = True
                else:
                    rest.append(r)
            remaining = rest
        order = {id(r): i for i, r in enumerate(relations)}
        used.sort(key=lambda r: -order[id(r)])  # latest first
        self.atoms = ats
        self.index = {a.get_id(): i for i, a in enumerate(ats)}
        names = ["x{}".format(i) for i in range(len(ats))] or ["x0"]
        self.R = _mkring(names, QQ)[0]
        self.gens = self.R.gens
        self.memo = {}
        self.relations = [(self.index[a.get_id()], d, t) for a, d, t in used]

    def frac(self, e):
        stack = [e]
        memo = self.memo
        while stack:
            e_ = stack[-1]
            i = e_.get_id()
            if i in memo:
                stack.pop()
                continue
            if _isnumeral(e_):
                q = numeral(e_)
                memo[i] = Frac(self.R(QQ(q.numerator, q.denominator)))
                stack.pop()
                continue
            k = _arith_kind(e_)
            if k is None:
                memo[i] = Frac(self.gens[self.index[i]])
                stack.pop()
                continue
            ch = e_.children()
            missing = [c for c in ch if c.get_id() not in memo]
            if missing:
                stack.extend(missing)
                continue
            v = [memo[c.get_id()] for c in ch]
            if k == z3.Z3_OP_ADD:
                r = v[0]
                for x in v[1:]:
                    r = self.add(r, x)
            elif k == z3.Z3_OP_SUB:
                r = v[0]
                for x in v[1:]:
                    r = self.add(r, Frac(-x.num, x.den))
            elif k == z3.Z3_OP_UMINUS:
                r = Frac(-v[0].num, v[0].den)
            elif k == z3.Z3_OP_MUL:
                r = v[0]
                for x in v[1:]:
                    r = self.mul(r, x)
            elif k == z3.Z3_OP_DIV:
                r = self.mul(v[0], self.inv(v[1]))
            elif k == z3.Z3_OP_TO_REAL:
                r = v[0]
            else:
                n = int(numeral(ch[1]))
                b = v[0] if n >= 0 else self.inv(v[0])
                r = Frac(self.R(1))
                for _ in range(abs(n)):
                    r = self.mul(r, b)
            if len(r.num) > MAXTERMS:
                raise TooBig()
            memo[i] = r
            stack.pop()
        return memo[e.get_id()]

    def add(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den == b.den:
            n = a.num + b.num
            return Frac(n, a.den if n else {})
        den = dict(a.den)
        for p, k in b.den.items():
            den[p] = max(den.get(p, 0), k)
        n1, n2 = a.num, b.num
        for p, k in den.items():
            if k > a.den.get(p, 0):
                n1 = n1 * p ** (k - a.den.get(p, 0))
            if k > b.den.get(p, 0):
                n2 = n2 * p ** (k - b.den.get(p, 0))
            if len(n1) > MAXTERMS or len(n2) > MAXTERMS:
                raise TooBig()
        return self.cancel(Frac(n1 + n2, den))

    def mul(self, a, b):
        if not a.num or not b.num:
            return Frac(self.R(0))
        if len(a.num) * len(b.num) > 50 * MAXTERMS:
            raise TooBig()
        den = dict(a.den)
        for p, k in b.den.items():
            den[p] = den.get(p, 0) + k
        n1, n2 = a.num, b.num
        # cheap cancellation: whole factors
        for n, other in ((n1, 0), (n2, 1)):
            if len(n) > 0 and not n.is_ground:
                lc = n.LC
                m = n.quo_ground(lc) if lc != 1 else n
                if m in den:
                    den[m] -= 1
                    if not den[m]:
                        del den[m]
                    if other == 0:
                        n1 = self.R(lc)
                    else:
                        n2 = self.R(lc)
        return self.cancel(Frac(n1 * n2, den))

    def cancel(self, f):
        """remove monomial factors and small exact factors"""
        if not f.num or not f.den:
            return Frac(f.num, {} if not f.num else f.den)
        num, den = f.num, dict(f.den)
        if len(num) > 2000:
            return f
        for p in list(den):
            while p in den:
                if len(p) > 1 and len(num) < len(p):
                    break
                q, r = num.div(p)
                if r:
                    break
                num = q
                den[p] -= 1
                if not den[p]:
                    del den[p]
        return Frac(num, den)

    def inv(self, a):
        if not a.num:
            raise ZeroDivisionError("ring inverse of zero")
        num = self.R(1)
        for p, k in a.den.items():
            num = num * p**k
        lc = a.num.LC
        den = {}
        n = a.num.quo_ground(lc) if lc != 1 else a.num
        num = num.quo_ground(lc)
        if not n.is_ground:
            if len(n) == 1:
                # monomial: split in generators
                exps = next(iter(n.keys()))
                for g, k in zip(self.gens, exps):
                    if k:
                        den[g] = k
            else:
                den[n] = 1
        return Frac(num, den)

    def reduce(self, f):
        for gi, deg, t in self.relations:
            if not f.num:
                return f
            if max((m[gi] for m in f.num.keys()), default=0) < deg:
                continue
            rep = self.frac(t)
            parts = {}
            for m, c in f.num.items():
                j, i = divmod(m[gi], deg)
                mm = list(m)
                mm[gi] = i
                d = parts.setdefault(j, {})
                mm = tuple(mm)
                d[mm] = d.get(mm, 0) + c
            out = Frac(self.R(0))
            pw = Frac(self.R(1))
            last = 0
            for j in sorted(parts):
                for _ in range(j - last):
                    pw = self.mul(pw, rep)
                last = j
                p = self.R.from_dict({k: v for k, v in parts[j].items() if v})
                out = self.add(out, self.mul(Frac(p), pw))
            den = dict(out.den)
            for p, k in f.den.items():
                den[p] = den.get(p, 0) + k
            f = Frac(out.num, den)
            if len(f.num) > MAXTERMS:
                raise TooBig()
        return f

    def iszero(self, e):
        f = self.frac(e)
        for _ in range(6):
            if not f.num:
                return True
            g = self.reduce(f)
            if g.num == f.num:
                break
            f = g
        return not f.num


def real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def prove_equal(a, b, relations=()):
    d = real(a) - real(b)
    try:
        return Norm([d], relations).iszero(d)
    except (TooBig, ZeroDivisionError):
        return False


def _inexact(exprs):
    seen, stack = set(), list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if _isnumeral(e):
            if numeral(e).denominator > 10**9:
                return True
        else:
            stack.extend(e.children())
    return False


RTOL = Fraction(1, 10**11)


# rounding residue of a cancelled monomial, relative to the largest coefficient
RESIDUE = Fraction(1, 10**14)


def prove_close(a, b, relations=()):
    """Equality of rational functions whose constants are decimal floats:
    every coefficient agrees to 1e-11 relative (a missing or extra
    monomial only when its coefficient is a rounding residue)"""
    a, b = real(a), real(b)
    if not _inexact([a, b]):
        return False
    try:
        n = Norm([a, b], relations)
        A, B = n.frac(a), n.frac(b)
        for _ in range(4):
            A, B = n.reduce(A), n.reduce(B)
        left, right = A.num, B.num
        for p, k in B.den.items():
            left = left * p**k
        for p, k in A.den.items():
            right = right * p**k
        L, Rr = Frac(left), Frac(right)
        for _ in range(4):
            L, Rr = n.reduce(L), n.reduce(Rr)
        if L.den != Rr.den:
            return False

        def fr(v):
            return Fraction(int(v.numerator), int(v.denominator))

        biggest = max([abs(fr(v)) for q in (L.num, Rr.num) for v in q.values()], default=0)
        for m in set(L.num.keys()) | set(Rr.num.keys()):
            v, w = fr(L.num.get(m, 0)), fr(Rr.num.get(m, 0))
            if abs(v - w) > RTOL * max(abs(v), abs(w)) and abs(v - w) > RESIDUE * biggest:
                return False
        return True
    except (TooBig, ZeroDivisionError):
        return False


def canonical(e, relations=()):
    """(atoms, num dict monomial->Fraction, den factors) for keying"""
    n = Norm([e], relations)
    f = n.frac(e)
    return n, f
