"""C05 uncertainty propagation"""
import math
import operator
import numpy as np
import uncertainties
import uncertainties.core
from uncertainties.unumpy import core as ucore
from dv import funcs, shim
from dv.engine import contract, bind
from dv.shim import Replace

NP = bind("spectrocrunch.math.noisepropagation:")
AD = bind("spectrocrunch.detectors.area:")
LE = bind("spectrocrunch.materials.lenses:")
SC = bind("spectrocrunch.materials.scintillators:")
ML = bind("spectrocrunch.materials.multilayer:")
CN = bind("spectrocrunch.simulation.calcnoise:")
from spectrocrunch.utils import units

F = "math/noisepropagation.py:"

PROPERTY = {
    "title": "Photon noise is propagated with the exact mean and variance, and back",
    "statement": "Expectation and variance of repeated and compound processes follow their definitions (E=EN*EX, VAR=VARN*EX^2+EN*VARX; selecting Poisson photons with a yes/no process gives Poisson photons), and every reversed process recovers the mean and variance of the incoming variable. "
    "Samples, scintillators, lenses and area detectors apply their absorption, gain, offset and noise in that way, to one number, to every photon count of an array and for every energy alike; without uncertainties they give the expectation, and propagating a full-field measurement backward recovers the mean and variance of the incoming photons. "
    "Transmission from dark-corrected data and flat images is normalized to the number of frames and exposure time of each.",
    "over": ["inputs"],
    "for_all": "all means, variances, probabilities, gains, offsets, exposure times and numbers of frames",
    "why": "Tests use one set of numbers per formula; the full-field tests are skipped without the optional optics package and only compare mean values.",
    "files": ["math/noisepropagation.py", "detectors/area.py", "materials/lenses.py", "materials/scintillators.py", "materials/multilayer.py", "simulation/calcnoise.py"],
    "mechanism": [
        ("moments and their inverses", "math/noisepropagation.py: compound, repeat, reverse_*"),
        ("propagation through components", "propagate in detectors/area.py, materials/lenses.py, scintillators.py, multilayer.py"),
        ("full-field measurement", "simulation/calcnoise.py: id21_ffsetup"),
    ],
}
META = {
    "level": "proof",
    "explanation": "means, standard deviations, probabilities and gains are unbounded symbolic reals; the uncertainties package itself is executed symbolically.",
    "trusted": ["uncertainties.unumpy.nominal_values and std_devs return the mean and standard deviation of each element"],
    "assumptions": ["positive means and standard deviations, probabilities between 0 and 1"],
}


def operators():
    """the operators of the package are wrapped methods of float: wrap those of Python instead"""
    cls, wrap = uncertainties.core.AffineScalarFunc, uncertainties.core.wrap
    one, neg = (lambda x, y: 1.0), (lambda x, y: -1.0)
    for name, f, dx, dy in (
        ("add", operator.add, one, one),
        ("sub", operator.sub, one, neg),
        ("mul", operator.mul, lambda x, y: y, lambda x, y: x),
        ("truediv", operator.truediv, lambda x, y: 1 / y, lambda x, y: -x / (y * y)),
    ):
        yield cls, "__%s__" % name, wrap(f, [dx, dy])
        yield cls, "__r%s__" % name, wrap(lambda y, x, f=f: f(x, y), [lambda y, x, d=dy: d(x, y), lambda y, x, d=dx: d(x, y)])
    yield cls, "__neg__", wrap(operator.neg, [lambda x: -1.0])
    yield cls, "__pos__", wrap(lambda x: x, [lambda x: 1.0])


def uncertain(c):
    """run the uncertainties package with symbolic numbers"""
    conv = lambda f: np.vectorize(f, otypes=[object])
    return Replace(
        c,
        [
            (uncertainties.core, "sqrt", shim.MATH.sqrt),
            (uncertainties.core, "isfinite", lambda x: True if isinstance(x, shim.SNum) else math.isfinite(x)),
            (uncertainties.core, "float", shim.FloatStub),
            *operators(),
            (ucore, "to_nominal_values", conv(uncertainties.core.nominal_value)),
            (ucore, "to_std_devs", conv(uncertainties.core.std_dev)),
        ],
    )


def sqrt(c, x):
    return funcs.sqrt(x) if c.symbolic else math.sqrt(x)


def rv(c, name, lo=2, hi=20):
    """positive random variable"""
    E, S = c.pos(name, lo, hi), c.pos("s" + name, 0.1, 1)
    return NP.randomvariable(E, S), E, S * S


def probability(c, name):
    """any number between 0 and 1, from any odds"""
    odds = c.pos(name, 0.1, 9)
    return odds / (1 + odds)


def moments(c, name, X, E, V):
    c.eq(name + " mean", NP.E(X), E)
    c.eq(name + " variance", NP.VAR(X), V)


RV = [F + x for x in ("randomvariable", "E", "S", "VAR")]


@contract("C05", functions=RV + [F + x for x in ("SNR", "NSR", "RVAR", "poisson", "bernouilli")])
def moments_of_variables(c):
    """mean, variance and ratios of random variables, numbers, arrays and quantities"""
    with uncertain(c):
        X, E, V = rv(c, "x")
        Y, E2, V2 = rv(c, "y")
        moments(c, "variable", X, E, V)
        c.eq("std", NP.S(X), sqrt(c, V))
        c.eq("signal to noise", [NP.SNR(X) * NP.S(X), NP.NSR(X) * E, NP.RVAR(X) * E * E], [E, NP.S(X), V])
        moments(c, "number", E, E, 0)
        A = NP.randomvariable(c.obj(E, E2), c.obj(NP.S(X), NP.S(Y)))
        moments(c, "array", A, c.obj(E, E2), c.obj(V, V2))
        moments(c, "list", [X, Y, E2], c.obj(E, E2, E2), c.obj(V, V2, 0 * V))
        q = units.Quantity(X, "mm")
        c.eq("quantity", [NP.E(q).to("um").magnitude, NP.S(q).to("um").magnitude], [1000 * E, 1000 * NP.S(X)])
        p = probability(c, "p")
        moments(c, "yes/no", NP.bernouilli(p), p, p * (1 - p))
        moments(c, "counts", NP.poisson(E), E, E)
        moments(c, "array of counts", NP.poisson(c.obj(E, E2)), c.obj(E, E2), c.obj(E, E2))
        moments(c, "array of yes/no", NP.bernouilli(c.obj(p, 1 - p)), c.obj(p, 1 - p), c.obj(p * (1 - p), p * (1 - p)))


@contract("C05", functions=RV + [F + "repeat", F + "compound"])
def repeating(c):
    """sum of a fixed number of independent copies"""
    with uncertain(c):
        X, E, V = rv(c, "x")
        n = c.pos("n", 1, 20)
        Y = NP.repeat(n, X)
        moments(c, "repeat", Y, n * E, n * V)
        moments(c, "undo", NP.repeat(n, Y, forward=False), E, V)
        moments(c, "repeat array", NP.repeat(n, NP.randomvariable(c.obj(E, 2 * E), c.obj(NP.S(X), NP.S(X)))), c.obj(n * E, 2 * n * E), c.obj(n * V, n * V))
        moments(c, "compound", NP.compound(n, X), n * E, n * V)
        c.eq("signal to noise", NP.SNR(Y) ** 2, n * NP.SNR(X) ** 2)


@contract("C05", functions=RV + [F + "compound"])
def compounding(c):
    """sum of a random number of independent copies"""
    with uncertain(c):
        N, EN, VN = rv(c, "N", 10, 100)
        X, EX, VX = rv(c, "X")
        Y = NP.compound(N, X)
        moments(c, "compound", Y, EN * EX, VN * EX * EX + VX * EN)
        moments(c, "undo", NP.compound(Y, X, forward=False), EN, VN)
        M, EM, VM = rv(c, "M", 10, 100)
        A = NP.compound(NP.randomvariable(c.obj(EN, EM), c.obj(NP.S(N), NP.S(M))), X)
        moments(c, "array", A, c.obj(EN * EX, EM * EX), c.obj(VN * EX * EX + VX * EN, VM * EX * EX + VX * EM))
        k = c.pos("k", 1, 10)
        moments(c, "certain gain", NP.compound(N, k), k * EN, k * k * VN)


@contract("C05", functions=RV + [F + "compound", F + "bernouilli", F + "poisson"])
def selecting(c):
    """yes/no processes"""
    with uncertain(c):
        p = probability(c, "p")
        q = probability(c, "q")
        EN = c.pos("N", 10, 100)
        moments(c, "selected photons", NP.compound(NP.poisson(EN), NP.bernouilli(p)), p * EN, p * EN)
        N, EN, VN = rv(c, "M", 10, 100)
        Y = NP.compound(NP.compound(N, NP.bernouilli(p)), NP.bernouilli(q))
        Z = NP.compound(N, NP.bernouilli(p * q))
        moments(c, "successive", Y, NP.E(Z), NP.VAR(Z))
        moments(c, "fixed number", NP.compound(EN, NP.bernouilli(p)), EN * p, EN * p * (1 - p))


@contract("C05", functions=RV + [F + x for x in ("reverse_add", "reverse_sub", "reverse_mult", "reverse_div", "reverse_log")])
def reversing(c):
    """recover one of two independent variables"""
    with uncertain(c):
        X, EX, VX = rv(c, "X")
        Y, EY, VY = rv(c, "Y")
        Y2 = NP.randomvariable(EY, NP.S(Y))
        Z = X + Y
        moments(c, "sum", Z, EX + EY, VX + VY)
        moments(c, "from sum", NP.reverse_add(Z, Y2), EX, VX)
        Z = X - Y
        moments(c, "from difference", NP.reverse_sub(Z, Y2), EX, VX)
        Z = X * Y
        moments(c, "product", Z, EX * EY, VX * EY * EY + VY * EX * EX)
        moments(c, "from product", NP.reverse_mult(Z, Y2), EX, VX)
        Z = X / Y
        moments(c, "from ratio", NP.reverse_div(Z, Y2), EX, VX)
        k = c.pos("k", 1, 10)
        moments(c, "from sum with number", NP.reverse_add(X + k, k), EX, VX)
        moments(c, "from product with number", NP.reverse_mult(X * k, k), EX, VX)


class Sample(ML.Multilayer if hasattr(ML, "Multilayer") else object):
    """sample with an arbitrary transmission for every energy (own contract: C12)"""

    case = None

    def __init__(self):
        pass

    def transmission(self, energy, **kw):
        return per_energy(self.case, "T", energy, lambda n: probability(self.case, n))


def per_energy(c, name, energy, new):
    e = np.asarray(energy, dtype=float)
    out = np.empty(e.shape, dtype=object)
    for k, v in np.ndenumerate(e):
        out[k] = new("%s%g" % (name, v))
    if not c.symbolic:
        out = out.astype(float)
    else:
        out = out.view(shim.SArr)
    return out[()] if out.ndim == 0 else out


class Scint(SC.Scintillator if hasattr(SC, "Scintillator") else object):
    """scintillator with an arbitrary absorption for every energy"""

    case = None

    def absorption(self, energy):
        return per_energy(self.case, "A", energy, lambda n: probability(self.case, n))


class Glass(object):
    def __init__(self, c):
        self.c = c

    def linear_attenuation_coefficient(self, lines):
        return [self.c.pos("mu%d" % i, 0.01, 0.1) for i in range(len(lines))]


class Light(object):
    """visible light spectrum"""

    def __init__(self, c):
        self.lines = [1.0, 2.0]
        a, b = c.pos("ratio0", 0.1, 1), c.pos("ratio1", 0.1, 1)
        self.ratios = c.obj(a / (a + b), b / (a + b))
        self.qe = c.pos("qe", 0.1, 0.9)

    def sample(self, fromlut):
        return units.Quantity(self.qe, "dimensionless")


def exp(c, x):
    return funcs.exp(x) if c.symbolic else math.exp(x)


class Optics(LE.Lens if hasattr(LE, "Lens") else object):
    """lens with an arbitrary transmission (own contract)"""

    case = None

    def transmission(self, visspectrum):
        return probability(self.case, "TL")

    def lightyield(self, nrefrac, source="point"):
        return self.case.pos("yield", 0.01, 0.2)


def with_case(cls, c, *args, **kw):
    cls.case = c
    o = cls(*args, **kw)
    return o


def component(c, kind):
    """component, arguments, and its moments: mean, variance and energy -> mean, variance"""
    if kind == "sample":
        o = with_case(Sample, c)
        get = lambda e: (probability(c, "T%g" % e), 1)

        def out(m, v, e):
            p = get(e)[0]
            return p * m, p * p * v + p * (1 - p) * m

        return o, lambda N, E, **kw: o.propagate(N, E, **kw), out
    if kind == "scintillator":
        g = c.pos("nvis", 10, 40)
        o = with_case(Scint, c, thickness=1, nvisperkeV=g)

        def out(m, v, e):
            p = probability(c, "A%g" % e)
            m, v = p * m, p * p * v + p * (1 - p) * m
            return g * e * m, (g * e) ** 2 * v + g * e * m

        return o, lambda N, E, **kw: o.propagate(N, E, **kw), out
    if kind == "lens":
        o = with_case(Optics, c)

        def out(m, v, e):
            p, y = probability(c, "TL"), c.pos("yield", 0.01, 0.2)
            m, v = p * m, p * p * v + p * (1 - p) * m
            return y * m, y * y * v + y * m

        return o, lambda N, E, **kw: o.propagate(N, None, nrefrac=1.8, **kw), out
    light = Light(c)
    off, conv = c.pos("offset", 1, 100), c.pos("etoDU", 1, 3)
    dark, read = c.pos("dark", 1, 10), c.pos("read", 0.1, 2)
    t, n = c.pos("t", 0.1, 2), c.pos("nframe", 1, 10)
    o = AD.AreaDetector(etoDU=conv, qe=None, DUoffset=off, darkcurrent=dark, readoutnoise=read)

    def out(m, v, e):
        q = light.qe
        m, v = q * m, q * q * v + q * m
        # the dark current is scaled with the exposure time
        m, v = m + dark * t, v + dark * t * t + read * read
        return n * (conv * m + off), n * conv * conv * v

    return o, lambda N, E, **kw: o.propagate(N, light, tframe=t, nframe=n, **kw), out


KINDS = ["sample", "scintillator", "lens", "detector"]
PROP = ["materials/multilayer.py:Multilayer.propagate", "materials/scintillators.py:Scintillator.propagate", "materials/lenses.py:Lens.propagate", "detectors/area.py:AreaDetector.propagate", "simulation/classfactory.py:SimulClass.propagate_broadcast"]


@contract("C05", functions=PROP + RV, split=4)
def through_component(c):
    """one number of photons, with and without uncertainty, forward and backward"""
    kind = c.choice("kind", KINDS)
    with uncertain(c):
        o, go, out = component(c, kind)
        N, m, v = rv(c, "N", 50, 500)
        Y = go(N, 5.0)
        em, ev = out(m, v, 5.0)
        moments(c, kind, Y, em, ev)
        moments(c, kind + " back", go(Y, 5.0, forward=False), m, v)
        c.eq(kind + " without noise", go(m, 5.0), em)
        c.eq(kind + " without noise back", go(em, 5.0, forward=False), m)


@contract("C05", functions=PROP + RV, split=4)
def through_component_arrays(c):
    """arrays of photon counts and energies"""
    kind = c.choice("kind", KINDS)
    shape = c.choice("shape", ["counts", "energies", "both", "matrix"])
    with uncertain(c):
        o, go, out = component(c, kind)
        N, m, v = rv(c, "N", 50, 500)
        M, m2, v2 = rv(c, "M", 50, 500)
        single = kind in ("lens", "detector")
        energies = 5.0 if shape == "counts" else np.array([5.0, 7.0])
        elist = [5.0] if shape == "counts" or single else [5.0, 7.0]
        nlist = [(m, v)] if shape == "energies" else [(m, v), (m2, v2)]
        if shape == "energies":
            if single:
                X, x = c.obj(N), c.obj(m)
            else:
                X, x = N, m
        else:
            X, x = np.array([N, M]), c.obj(m, m2)
            if shape == "matrix":
                X, x = np.array([X] * len(elist)), np.array([x] * len(elist))
        Y = go(X, energies)
        ref = [[out(a, b, e) for a, b in nlist] for e in elist]
        c.eq("shape", list(np.shape(Y)), [len(elist), len(nlist)])
        EY, VY = NP.E(Y), NP.VAR(Y)
        for i in range(len(elist)):
            for j in range(len(nlist)):
                c.eq("mean", EY[i][j], ref[i][j][0])
                c.eq("variance", VY[i][j], ref[i][j][1])
        B = go(Y, energies, forward=False)
        EB, VB = NP.E(B), NP.VAR(B)
        y = go(x, energies)
        b = go(y, energies, forward=False)
        c.eq("shapes", [list(np.shape(z)) for z in (B, y, b)], [[len(elist), len(nlist)]] * 3)
        for i in range(len(elist)):
            for j in range(len(nlist)):
                c.eq("mean back", EB[i][j], nlist[j][0])
                c.eq("variance back", VB[i][j], nlist[j][1])
                c.eq("without noise", y[i][j], ref[i][j][0])
                c.eq("without noise back", b[i][j], nlist[j][0])


LENS = ["materials/lenses.py:Lens.transmission", "materials/lenses.py:Lens.lightyield"]


@contract("C05", functions=LENS)
def lens_efficiency(c):
    """light transmitted by the glass and collected from point and extended sources"""
    m0, m1 = c.pos("mu0", 0.01, 0.1), c.pos("mu1", 0.01, 0.1)
    r0, r1 = c.pos("r0", 0.1, 1), c.pos("r1", 0.1, 1)
    d, M, s, cor = c.pos("d", 1, 10), c.pos("M", 2, 20), probability(c, "NA"), c.pos("cor", 0.1, 1)

    class Block(object):
        def linear_attenuation_coefficient(self, lines):
            return [m0, m1]

    class Lines(object):
        lines = [1.0, 2.0]
        ratios = c.obj(r0, r1)

    o = LE.Lens(magnification=M, NA=s, thickness=d, material=Block(), lightyieldcor=cor)
    c.eq("transmission", o.transmission(Lines()), r0 * exp(c, -m0 * d) + r1 * exp(c, -m1 * d))
    k2 = s * s / (1 - s * s)  # tan(asin(NA))^2
    c.eq("point source", o.lightyield(1.8) * (4 * (M + 1) ** 2), cor * k2 * M * M)
    c.eq("extended source", o.lightyield(1.8, source="lambertian") * ((M + 1) ** 2 + k2 * M * M), cor * k2 * M * M)


CALC = "simulation/calcnoise.py:"


@contract("C05", functions=RV + [CALC + "transmission"])
def normalized_transmission(c):
    """dark and flat correction with different exposure times and numbers of frames"""
    with uncertain(c):
        I, I0 = c.pos("I", 1, 10), c.pos("I0", 10, 100)
        d, d0 = c.pos("d", 1, 10), c.pos("d0", 1, 10)
        t, t0 = c.pos("t", 0.1, 2), c.pos("t0", 0.1, 2)
        n, n0, nd = (c.choice(k, [2, 3]) for k in ("n", "n0", "nd"))
        kw = {"tframe_data": t, "nframe_data": n, "tframe_flat": t0, "nframe_flat": n0}
        D, D0 = nd * d, nd * d0
        N, N0 = n * (I * t + d), n0 * (I0 * t0 + d0)
        T = CN.transmission(N, N0, D=D, D0=D0, nframe_dark=nd, **kw)
        c.eq("numbers", T * I0, I)
        c.eq("without dark images", CN.transmission(n * I * t, n0 * I0 * t0, nframe_dark=0, **kw) * I0, I)
        v, v0, w, w0 = (c.pos("s" + k, 0.1, 1) for k in ("I", "I0", "d", "d0"))
        X = CN.transmission(*(NP.randomvariable(a, b) for a, b in ((N, v), (N0, v0))), D=NP.randomvariable(D, w), D0=NP.randomvariable(D0, w0), nframe_dark=nd, **kw)
        c.eq("mean", NP.E(X) * I0, I)
        num = (v * v + (w * n / nd) ** 2) / (n * t) ** 2
        den = (v0 * v0 + (w0 * n0 / nd) ** 2) / (n0 * t0) ** 2
        c.eq("variance", NP.VAR(X) * I0**4, num * I0**2 + den * I**2)


class Stage(object):
    """component with an arbitrary gain (for every energy) and offset (for every exposure time and number of frames): its own contract is above"""

    def __init__(self, c, name):
        self.c, self.name = c, name

    def propagate(self, N, E=None, nrefrac=1, tframe=1, nframe=1, forward=True, **kw):
        c, name = self.c, self.name
        gain = c.pos("g" + name, 0.5, 2)
        if E is not LIGHT:
            gain = per_energy(c, "e" + name, E, lambda n: c.pos(n, 0.5, 2)) * gain
        off = c.pos("o" + name, 0.5, 2) * tframe + c.pos("f" + name, 0.5, 2) * nframe + nrefrac
        if np.ndim(N) == 2 and np.ndim(gain):
            gain = np.array([gain] * np.shape(N)[1]).T
        return gain * N + off if forward else (N - off) / gain


class Light2(object):
    pass


LIGHT = Light2()


class Setup(CN.id21_ffsetup if hasattr(CN, "id21_ffsetup") else object):
    """full-field setup of arbitrary components"""

    def __init__(self, c):
        self.sample = Stage(c, "sample")
        self.oscint = Stage(c, "scint")
        self.olens = Stage(c, "lens")
        self.odetector = Stage(c, "det")
        self.oscint.visspectrum = LIGHT
        self.oscint.get_nrefrac = lambda: 1.8


SETUP = [CALC + "id21_ffsetup.propagate"]


@contract("C05", functions=SETUP)
def full_field(c):
    """the setup is the sequence of its components, forward and backward"""
    samplein = c.choice("samplein", [False, True])
    shape = c.choice("shape", ["one", "matrix"])
    o = Setup(c)
    t, n = c.pos("t", 0.1, 2), c.pos("nframe", 1, 10)
    N, E = c.pos("N", 500, 5000), 5.0
    if shape == "matrix":
        N, E = c.obj(N, c.pos("N2", 500, 5000), N + 1, c.pos("N3", 500, 5000)).reshape((2, 2)), [5.0, 7.0]
    X = o.sample.propagate(N, E) if samplein else N
    X = o.oscint.propagate(X, E)
    X = o.olens.propagate(X, LIGHT, nrefrac=1.8)
    X = o.odetector.propagate(X, LIGHT, tframe=t, nframe=n)
    Y = o.propagate(N, E, t, n, samplein=samplein)
    c.eq("sequence", Y, X)
    c.eq("back", o.propagate(Y, E, t, n, samplein=samplein, forward=False), N)


@contract("C05", functions=SETUP + [CALC + "id21_ffsetup." + x for x in ("flatfromflux", "fluxfromflat", "photontoDU", "measurement")] + RV)
def full_field_images(c):
    """flat images, flux and the images of a measurement"""
    noise = c.choice("noise", [False, True])
    with uncertain(c):
        o = Setup(c)
        t, t0, n, n0 = c.pos("t", 0.1, 2), c.pos("t0", 0.1, 2), c.pos("n", 1, 10), c.pos("n0", 1, 10)
        nd = c.choice("nd", [0, 3])
        flux = c.pos("flux", 500, 5000)
        data, flat, dark, dark0 = o.measurement(flux, 5.0, tframe_data=t, nframe_data=n, tframe_flat=t0, nframe_flat=n0, nframe_dark=nd, withnoise=noise)
        var = NP.poisson if noise else (lambda x: x)
        X, X0 = (o.propagate(var(flux * a), 5.0, a, b, samplein=s) for a, b, s in ((t, n, True), (t0, n0, False)))
        moments(c, "data", data, NP.E(X), NP.VAR(X))
        moments(c, "flat", flat, NP.E(X0), NP.VAR(X0))
        for name, x, a in (("dark", dark, t), ("dark of flat", dark0, t0)):
            z = o.odetector.propagate(0, LIGHT, tframe=a, nframe=nd) if nd else 0
            c.eq(name, NP.E(x), z)
        if not noise:
            c.eq("flat image", o.flatfromflux(flux * t0, 5.0, t0, n0), flat)
            c.eq("flux", o.fluxfromflat(flat, 5.0, t0, n0), flux)


@contract("C05", functions=[CALC + "id21_ffsetup.getnframes"], builtins=("spectrocrunch.simulation.calcnoise",))
def frames_in_time(c):
    """at least one data image and one flat image before and after"""
    total, td, tf, frac = c.pos("total", 1, 100), c.pos("td", 0.5, 2), c.pos("tf", 0.5, 2), probability(c, "frac")
    n, n0 = CN.id21_ffsetup.getnframes(total, td, tf, frac)
    c.holds("at least one", n >= 1 and n0 >= 2 and n0 % 2 == 0)
    if n > 1:
        c.le("data time", abs(n * td - total * (1 - frac)), td / 2)
    else:
        c.le("data time one", total * (1 - frac), td * 3 / 2)
    if n0 > 2:
        c.le("flat time", abs(n0 * tf - total * frac), tf)
    else:
        c.le("flat time one", total * frac, tf * 3)


@contract("C05", functions=SETUP + PROP + RV, mode="bounded", samples=40, bound="40 random setups")
def full_field_components(c):
    """the setup with real components: moments are recovered"""
    light = Light(c)
    o = Setup(c)
    o.sample, o.oscint, o.olens, o.odetector = (component(c, k)[0] for k in KINDS)
    o.oscint.visspectrum, o.oscint.get_nrefrac = light, lambda: 1.8
    t, n = c.pos("t", 0.1, 2), c.pos("nframe", 1, 10)
    N, m, v = rv(c, "N", 500, 5000)
    M, m2, v2 = rv(c, "M", 500, 5000)
    for X, E, em, ev in ((N, 5.0, m, v), (np.array([N, M]), 5.0, [[m, m2]], [[v, v2]]), (np.array([N, M]), [5.0, 7.0], [[m, m2]] * 2, [[v, v2]] * 2)):
        samplein = c.choice("samplein", [False, True])
        Y = o.propagate(X, E, t, n, samplein=samplein)
        B = o.propagate(Y, E, t, n, samplein=samplein, forward=False)
        c.eq("mean", NP.E(B), em, rtol=1e-6)
        c.eq("variance", NP.VAR(B), ev, rtol=1e-4)
