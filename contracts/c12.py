"""C12 multilayers"""
import sys

import numpy as np
from dv.engine import contract, bind
from dv import funcs
import math

ML = bind("spectrocrunch.materials.multilayer:")
EB = bind("spectrocrunch.materials.elementbase:")
CP = bind("spectrocrunch.materials.compound:")
MX = bind("spectrocrunch.materials.mixture:")
EL = bind("spectrocrunch.materials.element:")
from spectrocrunch.materials import types

FL, FM = "materials/multilayer.py:Layer.", "materials/multilayer.py:Multilayer."
MODC = ("spectrocrunch.materials.compound", "spectrocrunch.materials.mixture", "spectrocrunch.materials.stoichiometry", "spectrocrunch.materials.multilayer")

PROPERTY = {
    "title": "Absorbance, areal density and refinement of a stack of layers",
    "statement": "The absorbance of a multilayer is the sum over its layers of mass attenuation coefficient times density times path length (thickness over the cosine of the incoming or outgoing angle), averaged with the source weights when given, and its transmission is exp(-absorbance). "
    "The attenuation accumulated between any two depths (inside, before or after the sample) is the integral of the linear attenuation along the path; areal densities and mass fractions add up over the layers and agree with those of the mixed layers. "
    "Refining thicknesses, densities or compositions from the absorbance of a stack recovers the stack, leaving fixed layers untouched.",
    "over": ["inputs"],
    "for_all": "all densities, thicknesses, attenuation coefficients, angles, depths and weights; stacks of up to four layers",
    "why": "Tests compare a fixed three-layer sample on a grid of depths and never refine with fixed layers, weights or an offset.",
    "files": ["materials/multilayer.py", "materials/elementbase.py", "math/utils.py"],
    "mechanism": [
        ("absorbance", "materials/multilayer.py: Layer.absorbance, Multilayer.absorbance; materials/elementbase.py: ElementBase.absorbance"),
        ("depth profile", "materials/multilayer.py: Multilayer._cache_layerinfo, _zlayer, _cache_attenuationinfo, _cum_attenuation, _transmission"),
        ("refinement", "materials/multilayer.py: Multilayer._refinerhod, _refine_linear, refinecomposition"),
    ],
}
META = {
    "level": "proof",
    "explanation": "attenuation coefficients, densities, thicknesses, angles, depths and weights are symbolic; the number of layers is enumerated (1 to 4). Refinement is proved against the contract of the solver (a consistent system of full rank has one solution) and run with the real solver.",
    "trusted": ["mass attenuation coefficients of a material are an arbitrary positive function of energy (C11 relates them to the elements)", "numpy.digitize on increasing bins", "least-squares solvers return the exact solution of a consistent full-rank system", "pandas label lookup"],
    "assumptions": ["positive thickness and density"],
}

ENERGY = [5.0, 7.5, 6.0]


class Geometry:
    """angles seen by the multilayer"""

    reflection = True

    def __init__(self, cosin, cosout):
        self.cosnormin, self.cosnormout = cosin, cosout


class Material(EB.ElementBase):
    """arbitrary positive cross section for each energy"""

    def __init__(self, c, tag, w=None):
        self.c, self.tag = c, tag
        self.name = tag
        self.density = c.pos(tag + ".rho", 0.5, 8)
        self.w = w

    def mu(self, E):
        return self.c.pos("%s.mu%g" % (self.tag, E), 0.1, 50)

    def mass_att_coeff(self, E, decomposed=False, **kwargs):
        if isinstance(E, (list, np.ndarray)) and np.ndim(E):
            return self.c.obj(*[self.mu(e) for e in E])
        return self.mu(float(E))

    def elemental_massfractions(self):
        return self.w


def stack(c, n, thick=(1e-3, 0.5)):
    mats = [Material(c, "m%d" % i) for i in range(n)]
    t = [c.pos("t%d" % i, *thick) for i in range(n)]
    g = Geometry(c.real("cosin", 0.05, 1), c.real("cosout", 0.05, 1))
    if c.symbolic:
        c.assume(g.cosnormin > 0)
    return ML.Multilayer(material=list(mats), thickness=list(t), geometry=g), mats, t, g


def wmean(vals, w):
    return sum(v * x for v, x in zip(vals, w)) / sum(w)


@contract("C12", functions=[FL + "absorbance", FM + "absorbance", FM + "transmission", FL + "xraythicknessin", FL + "xraythicknessout", "materials/elementbase.py:ElementBase.absorbance", "math/utils.py:weightedsum"], builtins=("spectrocrunch.math.utils",))
def absorbance(c):
    """sum over the layers of mu rho t / cos"""
    n = c.choice("layers", [1, 2, 3])
    S, mats, t, g = stack(c, n)
    out = c.choice("out", [False, True])
    how = c.choice("energy", ["scalar", "array", "weights"])
    cos = g.cosnormout if out else g.cosnormin
    E = {"scalar": ENERGY[0]}.get(how, np.array(ENERGY))
    kw = {"out": out}
    per = []
    for m, x in zip(mats, t):
        f = x / cos * m.density
        per.append(m.mu(ENERGY[0]) * f if how == "scalar" else [m.mu(e) * f for e in ENERGY])
    if how == "weights":
        w = [c.pos("w%d" % i, 0.1, 3) for i in range(3)]
        kw["weights"] = c.obj(*w)
        per = [wmean(p, w) for p in per]
        tot = sum(per)
    elif how == "scalar":
        tot = sum(per)
    else:
        tot = [sum(p[k] for p in per) for k in range(3)]
    lst = lambda x: list(x) if how == "array" else x
    c.eq("absorbance", lst(S.absorbance(E, **kw)), tot)
    c.eq("per layer", [lst(x) for x in S.absorbance(E, decomposed=True, **kw)], per)
    ex = funcs.exp if c.symbolic else math.exp
    c.eq("transmission", lst(S.transmission(E, **kw)), [ex(-x) for x in tot] if how == "array" else ex(-tot), atol=1e-300)
    c.eq("path in", list(S.xraythicknessin), [x / g.cosnormin for x in t])
    c.eq("path out", list(S.xraythicknessout), [x / g.cosnormout for x in t])
    # the path length is set back
    L = S[n - 1]
    p = c.pos("path", 0.01, 1)
    if out:
        L.xraythicknessout = p
        c.eq("set path out", [L.thickness, L.xraythicknessout], [p * g.cosnormout, p])
    else:
        L.xraythicknessin = p
        c.eq("set path in", [L.thickness, L.xraythicknessin], [p * g.cosnormin, p])


def clamp(v, hi):
    if v <= 0:
        return 0 * v
    if v > hi:
        return hi
    return v


def integral(mats, t, z, E):
    """attenuation from the surface to depth z"""
    r, top = 0, 0
    for m, x in zip(mats, t):
        r = r + m.mu(E) * m.density * clamp(z - top, x)
        top = top + x
    return r


@contract("C12", functions=[FM + x for x in ("_cache_layerinfo", "_zlayer", "_cache_attenuationinfo", "_cum_attenuation")], split=3)
def cumulative(c):
    """attenuation from the surface to a depth is the integral of the linear attenuation"""
    n = c.choice("layers", [1, 2, 3, 4])
    S, mats, t, g = stack(c, n)
    g.reflection = c.choice("reflection", [True, False])
    E = np.array(ENERGY[: c.choice("energies", [1, 2])])
    z = c.any("z", -0.3, 1.5)
    with S.cachectx("layerinfo"):
        with S.cachectx("attenuationinfo", E):
            info = S.getcache("layerinfo")
            tops = [sum(t[:i]) for i in range(n + 1)]
            c.eq("interfaces", list(info["cumul_thickness"]), tops)
            c.eq("exit", info["zexit"], 0 if g.reflection else tops[-1])
            a = S._cum_attenuation(z, E)
            c.eq("array", list(a), [integral(mats, t, z, e) for e in E])
            c.eq("scalar", S._cum_attenuation(z, E[0]), integral(mats, t, z, E[0]))


@contract("C12", functions=[FM + "_transmission", FM + "_cum_attenuation"])
def path_transmission(c):
    """transmission between two depths"""
    n = c.choice("layers", [1, 2, 3])
    S, mats, t, g = stack(c, n)
    E = np.array(ENERGY[:2])
    za, zb = c.any("za", -0.1, 1), c.any("zb", -0.1, 1)
    cos = c.real("cos", 0.2, 1)
    ex = funcs.exp if c.symbolic else math.exp
    arg = [-(integral(mats, t, zb, e) - integral(mats, t, za, e)) / cos for e in E]
    if not c.symbolic:
        c.assume(all(abs(x) < 300 for x in arg))
    want = [ex(x) for x in arg]
    with S.cachectx("layerinfo"):
        with S.cachectx("attenuationinfo", E):
            c.eq("transmission", list(S._transmission(za, zb, cos, E)), want, atol=0)
            c.eq("single", S._transmission(za, zb, cos, E[1]), want[1], atol=0)


@contract("C12", functions=[FM + "_cum_attenuation", FM + "_transmission"], mode="bounded", bound="random stacks of 1 to 4 layers and 6 depths", samples=100)
def depth_arrays(c):
    """several depths at once"""
    n = c.int("n", 1, 4)
    S, mats, t, g = stack(c, n, thick=(0.01, 0.3))
    E = np.array(ENERGY)
    z = np.array([c.real("z%d" % i, -0.1, 1) for i in range(5)] + [t[0]])
    cos = c.real("cos", 0.2, 1)
    with S.cachectx("layerinfo"):
        with S.cachectx("attenuationinfo", E):
            c.eq("depths", S._cum_attenuation(z, E), np.array([[integral(mats, t, x, e) for e in E] for x in z], dtype=float))
            c.eq("depths, one energy", S._cum_attenuation(z, E[1]), np.array([integral(mats, t, x, E[1]) for x in z], dtype=float))
            z2 = z[::-1].copy()
            want = np.array([[math.exp(-(integral(mats, t, y, e) - integral(mats, t, x, e)) / cos) for e in E] for x, y in zip(z, z2)])
            c.eq("transmission", S._transmission(z, z2, np.full(6, cos), E), want)


@contract("C12", functions=[FL + "arealdensity", FM + "arealdensity", FM + "elemental_massfractions"], builtins=MODC)
def areal(c):
    """areal densities add up"""
    els = [["Fe"], ["Fe", "O"], ["O", "Ca"]]
    n = c.choice("layers", [1, 2, 3])
    S, mats, t, g = stack(c, n)
    want = {}
    for i, m in enumerate(mats):
        m.w = {e: c.pos("w%d%s" % (i, e), 0.1, 1) for e in els[i]}
        for e, v in m.w.items():
            want[e] = want.get(e, 0) + v * m.density * t[i]
    c.eq("areal density", S.arealdensity(), want)
    tot = sum(want.values())
    c.eq("mass fractions", S.elemental_massfractions(), {e: v / tot for e, v in want.items()})
    c.eq("layer", S[0].arealdensity(), {e: v * mats[0].density * t[0] for e, v in mats[0].w.items()})


@contract("C12", functions=[FM + "mixlayers", FM + "arealdensity", FM + "elemental_massfractions", FM + "elemental_molefractions"], builtins=MODC)
def mixed(c):
    """the mixed layers have the composition of the stack"""
    comps = [["Fe"], ["Fe", "O"], ["O", "Ca"]]
    n = c.choice("layers", [1, 2, 3])
    mats, t = [], []
    amount = {}
    for i in range(n):
        x = [c.pos("x%d%s" % (i, e), 0.1, 3) for e in comps[i]]
        mats.append(CP.Compound(comps[i], x, types.fraction.mole, density=c.pos("rho%d" % i, 0.5, 8), name="c%d" % i))
        t.append(c.pos("t%d" % i, 0.01, 1))
        M = sum(v * EL.Element(e).MM for e, v in zip(comps[i], x))
        for e, v in zip(comps[i], x):
            amount[e] = amount.get(e, 0) + mats[i].density * t[i] * v / M
    S = ML.Multilayer(material=list(mats), thickness=list(t), geometry=Geometry(1, 1))
    num = lambda d: {str(k): v for k, v in d.items()}
    mix = S.mixlayers()
    mass = S.elemental_massfractions()
    c.eq("mass fractions", num(mix.elemental_massfractions()), num(mass))
    m = sum(r.density * x for r, x in zip(mats, t))
    c.eq("density", mix.density, m / sum(t))
    s = sum(amount.values())
    c.eq("mole fractions", {e: v * s for e, v in num(S.elemental_molefractions()).items()}, amount)


class Solve:
    """stand-in of the solvers: the unique solution of a consistent full-rank system"""

    def __init__(self, c, truth):
        self.c, self.truth, self.used = c, truth, 0

    def __call__(self, A, y, *args, **kw):
        c = self.c
        self.used += 1
        p = list(self.truth)
        m, k = A.shape
        if k == len(p) + 1:
            p = p + [self.offset]
        c.holds("unknowns", k == len(p))
        for i in range(m):
            c.eq("equation", sum(A[i][j] * p[j] for j in range(k)), y[i])
        for b in args[:2]:
            c.holds("bounds", np.ndim(b) == 0 or np.shape(b) == (k,))
        return c.obj(*p)


class Patch:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        mod = ML.fit1d
        self.saved = {k: getattr(mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(mod, k, v)

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(ML.fit1d, k, v)


FIXED = [[False], [False, False], [True, False], [False, True, False]]


@contract("C12", functions=[FM + x for x in ("refinethickness", "refinedensity", "_refinerhod", "_refine_linear", "fixediter", "freeiter")], samples=200)
def refine(c):
    """refinement of the absorbance of a stack recovers the stack"""
    fixed = c.choice("fixed", FIXED)
    n = len(fixed)
    constant = c.choice("constant", [False, True])
    constraint = c.choice("constraint", [True, False])
    attr = c.choice("refine", ["thickness", "density"])
    S, mats, t, g = stack(c, n, thick=(0.01, 0.3))
    S.fixlayers([i for i in range(n) if fixed[i]])
    E = np.array([5.0, 5.5, 6.0, 6.5, 7.0])
    y = S.absorbance(E)
    off = 0
    if constant:
        off = c.any("offset", -1, 1)
        y = y + off
    rho = [m.density for m in mats]
    free = [i for i in range(n) if not fixed[i]]
    truth = [rho[i] * t[i] / g.cosnormin for i in free]
    if not c.symbolic:
        A = np.array([mats[i].mass_att_coeff(E) for i in free] + ([np.ones(5)] if constant else [])).T
        c.assume(np.linalg.svd(A)[1][-1] > 1)
    # start from another stack
    for i in free:
        s = c.pos("start%d" % i, 0.2, 3)
        if attr == "thickness":
            S[i].thickness = s
        else:
            mats[i].density = s
    go = S.refinethickness if attr == "thickness" else S.refinedensity
    if c.symbolic:
        c.logging()
        solve = Solve(c, truth)
        solve.offset = off
        with Patch(lstsq=solve, lstsq_nonnegative=solve, lstsq_bound=solve):
            go(E, y, constant=constant, constraint=constraint)
    else:
        go(E, y, constant=constant, constraint=constraint)
    c.eq("thickness", list(S.thickness), t, rtol=1e-4, atol=1e-6)
    c.eq("density", list(S.density), rho, rtol=1e-4, atol=1e-6)


@contract("C12", functions=[FM + "refinethickness", FM + "refinedensity", FM + "_refinerhod", "math/utils.py:weightedsum"], builtins=("spectrocrunch.math.utils",))
def refine_weights(c):
    """refinement of one free layer from the weighted absorbance"""
    fixed = c.choice("fixed", [[False], [True, False], [True, False, True]])
    n = len(fixed)
    attr = c.choice("refine", ["thickness", "density"])
    S, mats, t, g = stack(c, n, thick=(0.01, 0.3))
    S.fixlayers([i for i in range(n) if fixed[i]])
    E = np.array(ENERGY)
    w = c.obj(*[c.pos("w%d" % i, 0.1, 3) for i in range(3)])
    y = S.absorbance(E, weights=w)
    rho = [m.density for m in mats]
    i = fixed.index(False)
    s = c.pos("start", 0.2, 3)
    c.logging()
    if attr == "thickness":
        S[i].thickness = s
        S.refinethickness(E, y, weights=w)
    else:
        mats[i].density = s
        S.refinedensity(E, y, weights=w)
    c.eq("thickness", list(S.thickness), t, rtol=1e-4, atol=1e-6)
    c.eq("density", list(S.density), rho, rtol=1e-4, atol=1e-6)


@contract("C12", functions=[FM + "refinecomposition", "materials/multielementbase.py:MultiElementBase.csdict_parse"], mode="bounded", bound="random mass fractions, densities and thicknesses of three real materials", samples=30)
def refine_composition(c):
    """composition and density (or thickness) recovered from the absorbance of real materials"""
    els = c.choice("elements", [["Fe", "O"], ["Ca", "S"], ["O", "Pb"]])
    fixthickness = c.choice("fixthickness", [True, False])
    withfixed = c.choice("fixed layer", [False, True])
    E = np.linspace(4.2, 18, 25)
    w = c.real("w", 0.1, 0.9)
    C = CP.Compound(els, [w, 1 - w], types.fraction.mass, density=c.real("rho", 0.5, 8), name="c")
    mats, t = [C], [c.real("t0", 1e-4, 5e-3)]
    if withfixed:
        mats.append(CP.Compound(["Si"], [1], types.fraction.mole, density=c.real("rho1", 0.5, 8), name="f"))
        t.append(c.real("t1", 1e-4, 5e-3))
    S = ML.Multilayer(material=mats, thickness=t, fixed=[False, True][: len(t)], geometry=Geometry(c.real("cosin", 0.2, 1), 0.7))
    y = S.absorbance(E)
    rho = C.density
    C.change_fractions({EL.Element(e): 0.5 for e in els}, types.fraction.mass)
    if fixthickness:
        C.density = c.real("start", 0.5, 8)
    else:
        S[0].thickness = c.real("start", 1e-4, 5e-3)
    S.refinecomposition(E, y, fixthickness=fixthickness)
    got = {str(k): v for k, v in S[0].massfractions().items()}
    c.eq("composition", got, {els[0]: w, els[1]: 1 - w}, rtol=1e-4, atol=1e-4)
    c.eq("density", list(S.density), [rho] + [m.density for m in mats[1:]], rtol=1e-4)
    c.eq("thickness", list(S.thickness), t, rtol=1e-4)
