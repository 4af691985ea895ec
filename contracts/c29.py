"""C29 fluorescence and scattering rates of multilayers"""
import math
import types

import numpy as np
import scipy.integrate
import scipy.special
from dv import funcs
from dv.engine import contract, bind
from dv.shim import Replace
from contracts.c12 import clamp

ML = bind("spectrocrunch.materials.multilayer:")
EB = bind("spectrocrunch.materials.elementbase:")
EL = bind("spectrocrunch.materials.element:")
XS = bind("spectrocrunch.materials.xrayspectrum:")
UT = bind("spectrocrunch.materials.utils:")
CA = bind("spectrocrunch.utils.cache:")

FM = "materials/multilayer.py:Multilayer."


PROPERTY = {
    "title": "Fluorescence and scattering rates of a multilayer",
    "statement": "The primary rate of every fluorescence, Compton and Rayleigh line is solid angle / cos(in) times the sum over the layers of its interaction probability times the depth integral of the transmission of the source to that depth and of the line to the surface it leaves by (reflection or transmission geometry), times source weight and filter and detector efficiency. "
    "The analytical and the numerical method describe the same integral, for every source and source line; weights are normalized per source. "
    "Rates depend on the current stack, geometry and energies only, never on earlier or interrupted calculations.",
    "over": ["inputs", "histories"],
    "for_all": "all thicknesses, attenuation coefficients, angles, probabilities, efficiencies and weights; stacks of up to three layers",
    "why": "Tests compute one single-layer and one three-layer sample, far from the angles where the attenuation on the way in and out cancels.",
    "files": ["materials/multilayer.py", "materials/utils.py", "utils/cache.py"],
    "mechanism": [
        ("depth integral", "materials/multilayer.py: Multilayer._primary_rates, _primary_rates_numerical"),
        ("attenuation and weights", "materials/multilayer.py: Multilayer._attenuated_rates, _rates_calc; materials/utils.py: reshape_spectrum_lines"),
        ("temporary results", "utils/cache.py: Cache.cachectx"),
    ],
}
META = {
    "level": "proof",
    "explanation": "thicknesses, densities, attenuation coefficients, cosines, solid angle, interaction probabilities, efficiencies and weights are symbolic; number of layers, lines and source energies are enumerated. (exp(x)-1)/x is an unknown function R(x) with R(x)x=exp(x)-1.",
    "trusted": ["cross sections of the materials and efficiency of the geometry are arbitrary functions (C11, C13, C30)", "scipy.integrate.quad returns the integral of the function it is given", "scipy.special.exprel", "pandas label lookup"],
    "assumptions": ["positive thickness and density"],
}


def lines():
    """fluorescence lines of which the first is common to all materials"""
    return [XS.FluoZLine(EL.Element("Fe"), XS.FluoLine("KL3")), XS.FluoZLine(EL.Element("Ca"), XS.FluoLine("KL3"))]


class Spectrum(object):
    def __init__(self, d):
        self.probabilities = d.items()


class Material(EB.ElementBase):
    """arbitrary attenuation and interaction probabilities"""

    def __init__(self, c, tag, nlines):
        self.c, self.name, self.nlines = c, tag, nlines
        self.density = c.pos(tag + ".rho", 0.5, 8)
        self.asked = []

    def mu(self, E):
        return self.c.pos("%s.mu%.6g" % (self.name, E), 0.1, 50)

    def mass_att_coeff(self, E, decomposed=False, **kwargs):
        if isinstance(E, (list, np.ndarray)) and np.ndim(E):
            return self.c.obj(*[self.mu(e) for e in E])
        return self.mu(float(E))

    def prob(self, line, E):
        if isinstance(line, XS.FluoZLine) and line not in lines()[: self.nlines]:
            return 0
        return self.c.pos("%s.p.%s.%.6g" % (self.name, line, E), 0.01, 1)

    def xrayspectrum(self, E, emin=0, emax=None, **kwargs):
        E = list(E)
        self.asked.append((E, emin, emax))
        A = np.array(E)
        out = [XS.RayleighLine(A), XS.ComptonLine(A)] + lines()[: self.nlines]
        return Spectrum({k: self.c.obj(*[self.prob(k, e) for e in E]) for k in out})


class Geometry(object):
    """angles, solid angle and efficiency seen by the multilayer"""

    def __init__(self, c, reflection, same, polar):
        self.c, self.reflection, self.polar = c, reflection, polar
        self.cosnormin = c.pos("cosin", 0.1, 1)
        out = self.cosnormin if same else c.pos("cosout", 0.1, 1)
        self.cosout = out
        self.cosnormout = -out if reflection else out
        self.solidangle = c.pos("solidangle", 0.01, 3)
        self.fail = False

    def xrayspectrumkwargs(self):
        return {"polar": self.polar, "azimuth": 0.3}

    def source(self, E):
        return self.c.pos("T0.%.6g" % E, 0.1, 1)

    def detected(self, E, attenuation):
        f = self.c.pos("T1.%.6g" % E, 0.1, 1)
        if attenuation:
            f = f * self.c.pos("A.%.6g" % E, 0.1, 1)
        return f

    def efficiency(self, source, det, withdetectorattenuation=True):
        if self.fail:
            raise InterruptedError("interrupted")
        source, det = np.atleast_1d(source), np.atleast_1d(det)
        return self.c.mat([[self.source(a) * self.detected(b, withdetectorattenuation) for b in det] for a in source])


def exprel(x):
    """(exp(x)-1)/x"""
    if x < 0 or x > 0:
        return funcs.opaque("exprel", x)
    return 1


def exprels(x):
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = exprel(x[i])
        return out
    return exprel(x)


def F_(c):
    if c.symbolic:
        return types.SimpleNamespace(exp=funcs.exp, exprel=exprel)
    return types.SimpleNamespace(exp=math.exp, exprel=lambda x: float(scipy.special.exprel(float(x))))


def path(mats, t, E, z):
    """attenuation from the surface to a depth"""
    r, top = 0, 0
    for m, x in zip(mats, t):
        r = r + m.mu(E) * m.density * clamp(z - top, x)
        top = top + x
    return r


def energies(line, E0, polar):
    """energies of a line, one for each source energy"""
    if isinstance(line, XS.FluoZLine):
        return [line.energy()] * len(E0)
    if isinstance(line, XS.RayleighLine):
        return list(E0)
    return [e / (1 + e * (1 - math.cos(polar)) / 510.998950) for e in E0]


def rate(c, mats, t, g, line, E0, E1):
    """ph/phsource generated and leaving the sample (depth integral per layer)"""
    f = F_(c)
    above = lambda E, k: sum(m.mu(E) * m.density * x for m, x in list(zip(mats, t))[:k])
    tot = 0
    for k, (m, x) in enumerate(zip(mats, t)):
        m0 = m.mu(E0) * m.density / g.cosnormin
        m1 = m.mu(E1) * m.density / g.cosout
        into = above(E0, k) / g.cosnormin
        if g.reflection:
            out, arg = above(E1, k) / g.cosout, -m1 * x - m0 * x
        else:
            out, arg = above(E1, len(t)) / g.cosout - above(E1, k) / g.cosout, m1 * x - m0 * x
            if arg > 0:  # relative to the lower side of the layer
                into, out, arg = into + m0 * x, out - m1 * x, -arg
        tot = tot + m.prob(line, E0) * x * f.exp(-into - out) * f.exprel(arg)
    return tot * g.solidangle / g.cosnormin


def sample(c, n, nlines, same=False, polar=1.2):
    mats = [Material(c, "m%d" % i, nlines if i == 0 else min(nlines, 1)) for i in range(n)]
    t = [c.pos("t%d" % i, 1e-3, 0.3) for i in range(n)]
    g = Geometry(c, c.choice("reflection", [True, False]), same, polar)
    return ML.Multilayer(material=list(mats), thickness=list(t), geometry=g), mats, t, g


def special(c):
    return Replace(c, [(scipy.special, "exprel", exprels), (ML.Layer, "__str__", lambda self: "layer")])


def every(nlines):
    return [XS.RayleighLine(1.0), XS.ComptonLine(1.0)] + lines()[:nlines]


@contract("C29", functions=[FM + x for x in ("xrayspectrum", "_rates_calc", "_primary_rates", "_attenuated_rates", "_rates_to_spectrum", "_cache_interactioninfo", "_cache_attenuationinfo", "_cache_layerinfo")] + ["materials/utils.py:reshape_spectrum_lines"], split=3)
def primary(c):
    """rates of all lines of a stack"""
    n = c.choice("layers", [1, 2, 3])
    nlines = c.choice("lines", [1, 2, 0])
    same = c.choice("same angles", [False, True])
    S, mats, t, g = sample(c, n, nlines, same)
    E0 = c.choice("sources", [[9.0], [8.5, 9.0]])
    if c.symbolic and not g.reflection:
        # which side of a layer contributes most is open for every line and layer
        c.assume(len(E0) == 1 and n < 3 and (nlines < 2 if n == 1 else not same))
        if n == 2:
            for k, m in enumerate(mats):
                side = c.choice("side%d" % k, [1, -1])
                for line in every(nlines)[1 if same else 0 :]:
                    c.positive((m.mu(energies(line, E0, g.polar)[0]) / g.cosout - m.mu(E0[0]) / g.cosnormin) * side)
    attenuation = c.choice("detector", [True, False])
    if c.symbolic:
        c.assume(attenuation or n == 1 and nlines == 1)
    w = [c.pos("w%d" % i, 0.1, 3) for i in range(len(E0))]
    with special(c):
        s = S.xrayspectrum(np.array(E0), emin=0.5, weights=c.obj(*w), withdetectorresponse=attenuation)
    c.holds("lines", set(map(str, s)) == set(map(str, every(nlines))))
    for line in every(nlines):
        got = s[line]
        for i, (a, b) in enumerate(zip(E0, energies(line, E0, g.polar))):
            want = rate(c, mats, t, g, line, a, b) * g.source(a) * g.detected(b, attenuation) * w[i] / sum(w)
            c.eq(str(line).split("-")[-1], got[i], want, atol=1e-14)
    c.holds("limits", all(m.asked == [(E0, 0.5, max(E0))] for m in mats))


@contract("C29", functions=[FM + x for x in ("xrayspectrum", "_rates_calc", "_primary_rates", "_attenuated_rates", "_rates_to_spectrum", "_primary_rates_numerical")] + ["materials/utils.py:reshape_spectrum_lines"], mode="bounded", bound="random stacks of 1 to 3 layers, up to 2 sources of up to 2 lines", samples=60)
def several_sources(c):
    """every source has its own energies and weights, whatever the method"""
    n = c.choice("layers", [1, 2, 3])
    S, mats, t, g = sample(c, n, 2, c.choice("same angles", [False, True]))
    E0 = c.choice("sources", [9.0, [9.0], [8.5, 9.0], [[8.5, 9.0]], [[8.5, 9.0], [8.6, 9.5]], [[9.0], [8.5]]])
    shape = np.shape(E0)
    method = c.choice("method", ["analytical", "analytical", "numerical"])
    scattering = c.choice("scattering", [True, False])
    emax = c.choice("emax", [None, 12.0])
    E2 = np.reshape(np.array(E0, dtype=float), (1, -1)) if len(shape) < 2 else np.array(E0, dtype=float)
    weights = None
    w = [[1.0] * E2.shape[1]] * E2.shape[0]
    if c.choice("weights", [True, False]):
        w = [[c.pos("w%d.%d" % (i, j), 0.1, 3) for j in range(E2.shape[1])] for i in range(E2.shape[0])]
        weights = np.reshape(np.array(w), shape) if shape else w[0][0]
    if method == "numerical":
        # depth profiles which quad resolves
        used = sorted(set(e for row in E2 for line in every(2) for e in list(row) + energies(line, row, g.polar)))
        c.assume(max(sum(m.mu(e) * m.density * x for m, x in zip(mats, t)) for e in used) < 20 * min(g.cosnormin, g.cosout))
    r = S.xrayspectrum(E0 if not shape else np.array(E0), emin=0.5, emax=emax, weights=weights, method=method, scattering=scattering)
    c.holds("one spectrum for one source", isinstance(r, list) == (len(shape) == 2))
    out = r if isinstance(r, list) else [r]
    c.holds("number of spectra", len(out) == E2.shape[0])
    todo = [x for x in every(2) if scattering or isinstance(x, XS.FluoZLine)]
    for i, s in enumerate(out):
        c.holds("lines", set(map(str, s)) == set(map(str, todo)))
        for line in todo:
            want = []
            for j, (a, b) in enumerate(zip(E2[i], energies(line, E2[i], g.polar))):
                v = rate(c, mats, t, g, line, float(a), float(b))
                want.append(v * g.source(a) * g.detected(b, True) * w[i][j] / sum(w[i]))
            c.eq("rates", list(np.atleast_1d(s[line])), want, rtol=1e-5, atol=(1e-7 if method == "numerical" else 1e-14) * g.solidangle / g.cosnormin)
        if emax is not None:
            c.holds("limits", list(s.xlim) == [0.5, emax])


@contract("C29", functions=[FM + "_primary_rates_numerical", FM + "_transmission", FM + "_prob_interaction", FM + "_prob_interaction_transmission", FM + "_cum_attenuation"], split=2)
def numerical(c):
    """the numerical method integrates the same depth profile"""
    n = c.choice("layers", [1, 2])
    S, mats, t, g = sample(c, n, 1)
    f = F_(c)
    E0 = [9.0]
    k = c.choice("layer", list(range(2)))
    c.assume(k < n)
    u = c.real("depth", 0.05, 0.95)
    z = sum(t[:k]) + u * t[k]
    calls = []

    def quad(path, za, zb, **kw):
        calls.append((za, zb, path(z)))
        v = c.pos("integral%d" % len(calls), 0.1, 1)
        return v, 0

    with Replace(c, [(ML.Layer, "__str__", lambda self: "layer")]), mock(scipy.integrate, "quad", quad):
        s = S.xrayspectrum(np.array(E0), emin=0.5, method="numerical")
    c.holds("one integral per line", len(calls) == 3)
    total = sum(t)
    for a, b, _ in calls:
        c.eq("whole sample", [a, b], [0 * total, total])
    above = lambda E: sum(m.mu(E) * m.density * x for m, x in zip(mats[:k], t[:k])) + mats[k].mu(E) * mats[k].density * u * t[k]
    whole = lambda E: sum(m.mu(E) * m.density * x for m, x in zip(mats, t))
    for i, line in enumerate(s):
        e = energies(line, E0, g.polar)[0]
        out = above(e) if g.reflection else whole(e) - above(e)
        want = mats[k].prob(line, E0[0]) * f.exp(-above(E0[0]) / g.cosnormin - out / g.cosout)
        c.eq("integrand", calls[i][2], want, atol=1e-14)
        eff = g.source(E0[0]) * g.detected(e, True)
        c.eq("rate", s[line][0], c.pos("integral%d" % (i + 1), 0.1, 1) * g.solidangle / g.cosnormin * eff)


def mock(mod, name, f):
    from unittest import mock as m

    return m.patch.object(mod, name, f)


@contract("C29", functions=["utils/cache.py:Cache.cachectx", "utils/cache.py:Cache.getcache", "utils/cache.py:withcache", FM + "xrayspectrum"], builtins=())
def history(c):
    """earlier calculations, interrupted or not, leave no trace"""
    S, mats, t, g = sample(c, 2, 1)
    c.assume(g.reflection or not c.symbolic)
    before = c.choice("before", ["nothing", "finished", "interrupted"])
    E0 = [9.0]
    with special(c):
        if before != "nothing":
            g.fail = before == "interrupted"
            try:
                S.xrayspectrum(np.array([8.7, 9.3]), emin=0.5)
            except InterruptedError:
                pass
            g.fail = False
        # another sample and geometry
        for i in range(2):
            t[i] = c.pos("new t%d" % i, 1e-3, 0.3)
            S[i].thickness = t[i]
            mats[i].density = c.pos("new rho%d" % i, 0.5, 8)
        g.cosnormin = c.pos("new cosin", 0.1, 1)
        g.solidangle = c.pos("new solidangle", 0.1, 1)
        s = S.xrayspectrum(np.array(E0), emin=0.5)
    for line in every(1):
        e = energies(line, E0, g.polar)[0]
        want = rate(c, mats, t, g, line, E0[0], e) * g.source(E0[0]) * g.detected(e, True)
        c.eq("rate", s[line][0], want, atol=1e-14)


class Counter(object):
    """what is calculated, and how often"""

    def __init__(self, c):
        self.v, self.n = c.any("value", -3, 3), 0

    def make(self, cls):
        me = self

        class Cached(cls):
            def _cache_value(self):
                me.n += 1
                return me.v

            def get(self):
                return self.getcache("value")

        Cached.shared = CA.withcache("value")(lambda self, fail=False: (self.get(), self.get(), 1 // (not fail)))
        return Cached


@contract("C29", functions=["utils/cache.py:Cache.cachectx", "utils/cache.py:Cache.getcache", "utils/cache.py:withcache", "utils/cache.py:Cache._generate_cache"])
def cache(c):
    """a temporary result is calculated once in its context and forgotten afterwards"""
    k = Counter(c)
    o = k.make(CA.Cache)(force=c.choice("only in context", [False, True]))
    first = k.v
    with o.cachectx("value"):
        c.eq("in the context", o.get(), first)
        k.v = c.any("changed", -3, 3)
        c.eq("kept in the context", o.get(), first)
        with o.cachectx("value"):
            c.eq("nested context", o.get(), first)
        c.eq("after a nested context", o.get(), first)
        try:
            o.shared(fail=True)
        except ZeroDivisionError:
            pass
        c.eq("after a failure inside", o.get(), first)
    c.eq("calculated once", k.n, 1)
    try:
        o.shared(fail=True)
    except ZeroDivisionError:
        pass
    c.eq("calculated again", k.n, 2)
    k.v = c.any("changed again", -3, 3)
    c.eq("forgotten", list(o.shared())[:2], [k.v, k.v])
    c.eq("once per context", k.n, 3)
    with o.cachectx("value"):
        c.eq("new context", o.get(), k.v)
    if o.force:
        c.raises("outside of the context", RuntimeError, o.get)
    else:
        c.eq("outside of the context", o.get(), k.v)
    c.raises("unknown", (RuntimeError, AttributeError), lambda: o.getcache("other"))
