"""C08 diode response and photon flux"""
import math

import numpy as np
from dv.engine import contract, bind
from dv import funcs
from dv.shim import Replace

DI = bind("spectrocrunch.detectors.diode:")
XO = bind("spectrocrunch.optics.xray:")
from spectrocrunch.utils import units
from spectrocrunch.patch.pint import ureg

F, FN, FO = "detectors/diode.py:PNdiode.", "detectors/diode.py:NonCalibratedPNdiode.", "detectors/diode.py:Oscillator."
MODS = ("spectrocrunch.detectors.diode",)

PROPERTY = {
    "title": "Diode response and photon flux convert into each other exactly",
    "statement": "Conversions between sample flux, diode current, voltage, count rate and counts follow I = Cs*flux + dark, V = Rout*I, cps = Fmax/Vmax*V + F0 and counts = cps*time (all of them, in both directions and in any unit), and the flux normalisation operator is flux*time over reference flux*time. "
    "The charge per sample photon Cs is the weighted sum over the lines of transmission, rate, photon energy, attenuation in the diode and 1/Ehole, over the weighted transmission of the source lines to the sample; the line weights at the sample are those of the source times that transmission, normalised. "
    "Calibrating (dark current, oscillator offset, gain, charge per photon) makes the diode reproduce the response it was calibrated with.",
    "over": ["inputs"],
    "for_all": "all gains, oscillator settings, dark currents, spectra of up to three lines, filters, fluxes, times",
    "why": "Tests convert a few fluxes of one monochromatic line with zero dark current and zero offset back and forth with one fixed gain.",
    "files": ["detectors/diode.py", "detectors/base.py", "math/linop.py", "optics/base.py", "utils/lut.py"],
    "mechanism": [
        ("conversion operators", "detectors/diode.py: PNdiode.op_*, fluxop, responsetoflux, xrfnormop; Oscillator.op_voltagetocps"),
        ("charge per sample photon", "detectors/diode.py: PNdiode._chargepersamplephoton, _detection_rates, _source_transmission, samplelineweights"),
        ("calibration", "detectors/diode.py: calibratedark, calibrateF0, gainfromresponse, NonCalibratedPNdiode.calibrate, _calibrate_chargepersamplephoton"),
    ],
}
META = {
    "level": "proof",
    "explanation": "gain, oscillator, dark current, Ehole, attenuation coefficients, thicknesses, weights, fluxes and times are unbounded symbolic reals; the number of lines and filters is enumerated.",
    "trusted": ["pint unit conversion is multiplication by a constant", "a secondary target or material is any object with a transmission, a spectrum or attenuation coefficients", "scipy.optimize.fsolve returns a root or reports failure"],
    "assumptions": ["non-zero gain and oscillator range, positive weights"],
}

ECHARGE = ureg.Quantity(1, "elementary_charge").to("coulomb").magnitude


def mag(q, u):
    return q.to(u).magnitude


def flat(x):
    """list of the values of a number or array"""
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    return [x]


def exp(c, x):
    return funcs.exp(x) if c.symbolic else math.exp(x)


class Mat(object):
    """any material: arbitrary attenuation coefficient for each energy"""

    name = "mat"

    def __init__(self, c, tag):
        self.c, self.tag = c, tag
        self.density = c.pos("rho" + tag, 0.5, 3)

    def mu(self, E):
        return self.c.pos("mu%s%g" % (self.tag, E), 0.1, 2)

    def mass_att_coeff(self, energy):
        out = np.empty(np.shape(energy), dtype=object)
        for k, e in np.ndenumerate(np.asarray(energy)):
            out[k] = self.mu(e)
        if not self.c.symbolic:
            out = out.astype(float)
        return out[()] if out.ndim == 0 else out

    def absorbance(self, energy, thickness):
        return self.mass_att_coeff(energy) * (thickness * self.density)


class Spectrum(dict):
    def spectrum(self):
        return list(self.items())


class Target(object):
    """any secondary target: transmission of each source line and rates of the lines it emits"""

    LINES = [4.5, 5.25]

    def __init__(self, c):
        self.c = c
        self.calls = []

    def T(self, E):
        return self.c.pos("T%g" % E, 0.1, 1)

    def rate(self, E, l):
        return self.c.pos("Y%g_%g" % (E, l), 0.01, 1)

    def transmission(self, energy):
        out = np.empty(np.shape(energy), dtype=object)
        for k, e in np.ndenumerate(np.asarray(energy)):
            out[k] = self.T(e)
        return out if self.c.symbolic else out.astype(float)

    def xrayspectrum(self, energy, weights=None, withdetectorresponse=True, **kw):
        self.calls.append(withdetectorresponse)
        out = []
        for en, we in zip(np.atleast_2d(energy), np.atleast_2d(weights)):
            out.append(Spectrum((l, sum(w * self.rate(e, l) for e, w in zip(en, we))) for l in self.LINES))
        return out


class Setup(object):
    """diode with arbitrary settings"""

    def __init__(self, c, cls=None, gain="V/A", before=False, target=False, filters=(), optics=(), unit=False, **kw):
        self.c = c
        self.Fmax, self.F0, self.Vmax = c.pos("Fmax", 1, 10), c.real("F0", 0, 3), c.pos("Vmax", 0.5, 5)
        self.g, self.D = c.pos("gain", 0.5, 5), c.real("dark", 0, 2)
        self.ehole, self.t = c.pos("ehole", 1, 5), c.pos("thick", 0.1, 1)
        self.mat = Mat(c, "det")
        att = {"Detector": {"material": self.mat, "thickness": self.t}}
        self.before = {}
        self.after = {}
        for name in filters:
            m, x = Mat(c, name), c.pos("t" + name, 0.1, 1)
            att[name] = {"material": m, "thickness": x}
            (self.before if name.lower().startswith("beamfilter") else self.after)[name] = (m, x)
        self.target = Target(c) if target else None
        self.optics = [XO.factory("KB") for _ in optics]
        self.isbefore = before
        # analog range of the ammeter (by default that of the oscillator)
        own = c.pos("Vown", 0.5, 5) if gain == "A" and c.choice("own range", [True, False]) else None
        Vmax = units.Quantity(own, "V") if own is not None else None
        osc = DI.Oscillator(Fmax=units.Quantity(self.Fmax, "Hz"), F0=units.Quantity(self.F0, "Hz"), Vmax=units.Quantity(self.Vmax, "V"))
        self.d = (cls or DI.PNdiode)(gain=units.Quantity(self.g, gain), Vmax=Vmax, darkcurrent=units.Quantity(self.D, "A"), oscillator=osc, attenuators=att, ehole=units.Quantity(self.ehole, "eV"), beforesample=before, secondarytarget=self.target, optics=self.optics, **kw)
        self.V2F = self.Fmax / self.Vmax
        if own is not None:
            self.Vmax = own
        self.Rout = self.g if gain == "V/A" else self.Vmax / self.g

    def detatt(self, E):
        return 1 - exp(self.c, -self.mat.mu(E) * self.mat.density * self.t)

    def filt(self, E, which):
        return exp(self.c, -sum((m.mu(E) * m.density * x for m, x in which.values()), 0 * self.t))

    def charge(self, E):
        """electrons per photon hitting the diode"""
        return self.detatt(E) * E * 1000 / self.ehole

    def Ts(self, E):
        """transmission between the sample and the source"""
        if not self.isbefore:
            return 1
        r = self.filt(E, self.before)
        if self.target:
            return r * self.target.T(E)
        return r * self.filt(E, self.after) * exp(self.c, -self.mat.mu(E) * self.mat.density * self.t)

    def Cs(self, energy, w):
        """electrons per photon at the sample"""
        w = [x / sum(w) for x in w]
        if self.target:
            num = sum(x * self.target.rate(E, l) * self.charge(l) for x, E in zip(w, energy) for l in Target.LINES)
        else:
            num = sum(x * self.filt(E, self.before) * self.filt(E, self.after) * self.charge(E) for x, E in zip(w, energy))
        return num / sum(x * self.Ts(E) for x, E in zip(w, energy))


class Known(DI.PNdiode):
    """diode with an arbitrary charge per sample photon (contract of _chargepersamplephoton)"""

    known = None

    def _chargepersamplephoton(self, energy, weights=None, keepdims=False):
        return units.Quantity(self.known, "coulomb")


ENERGY = [7.0, 8.5, 5.0]


def lines(c, n):
    if n == 1:
        return 7.0, [7.0], None, [1]
    E = ENERGY[:n]
    w = [c.pos("w%d" % i, 0.2, 2) for i in range(n)]
    return np.array(E), E, c.obj(*w), w


@contract("C08", functions=[FO + "op_voltagetocps", FO + "op_cpstovoltage"] + [F + n for n in "Rout Imax op_currenttovoltage op_voltagetocurrent op_currenttocps op_cpstocurrent op_countstocurrent op_voltagetocps op_cpstovoltage op_countstovoltage op_countstocps currenttocps cpstocurrent countstocurrent voltagetocps cpstovoltage countstocps countstovoltage currenttovoltage".split()])
def electronics(c):
    """current, voltage, count rate and counts"""
    gain = c.choice("gain", ["V/A", "A"])
    S = Setup(c, gain=gain)
    d = S.d
    I, V, n, t = c.real("I", 0, 5), c.real("V", 0, 5), c.real("n", 0, 9), c.pos("t", 0.1, 3)
    c.eq("Rout", mag(d.Rout, "V/A"), S.Rout)
    c.eq("Imax", mag(d.Imax, "A"), S.Vmax / S.Rout)
    c.eq("I->V", mag(d.currenttovoltage(I), "V"), S.Rout * I)
    c.eq("V->cps", mag(d.voltagetocps(V), "Hz"), S.V2F * V + S.F0)
    c.eq("I->cps", mag(d.currenttocps(I), "Hz"), S.V2F * S.Rout * I + S.F0)
    c.eq("cps->V", S.V2F * mag(d.cpstovoltage(n), "V") + S.F0, n)
    c.eq("cps->I", S.V2F * S.Rout * mag(d.cpstocurrent(n), "A") + S.F0, n)
    c.eq("counts->cps", mag(d.countstocps(t, n), "Hz") * t, n)
    c.eq("counts->V", (S.V2F * mag(d.countstovoltage(t, n), "V") + S.F0) * t, n)
    c.eq("counts->I", (S.V2F * S.Rout * mag(d.countstocurrent(t, n), "A") + S.F0) * t, n)
    c.eq("V->I", mag(d.op_voltagetocurrent()(units.Quantity(V, "V")), "A") * S.Rout, V)
    # other units
    c.eq("mV", mag(d.voltagetocps(units.Quantity(V * 1000, "mV")), "kHz") * 1000, S.V2F * V + S.F0)


@contract("C08", functions=[F + "gain", F + "Rout", F + "Imax"])
def gain_setting(c):
    """setting the output resistance or the current range, whatever the gain stands for"""
    gain = c.choice("gain", ["V/A", "A"])
    S = Setup(c, gain=gain)
    d = S.d
    x = c.pos("x", 0.5, 5)
    how = c.choice("set", ["Rout", "Imax", "gain"])
    if how == "Rout":
        d.Rout = units.Quantity(x, "V/A")
        R = x
    elif how == "Imax":
        d.Imax = units.Quantity(x, "A")
        R = S.Vmax / x
    else:
        d.gain = x
        R = x if gain == "V/A" else S.Vmax / x
    c.eq("Rout", mag(d.Rout, "V/A"), R)
    c.eq("Imax", mag(d.Imax, "A") * R, S.Vmax)
    c.eq("gain", mag(d.gain, gain), R if gain == "V/A" else S.Vmax / R)
    I = c.real("I", 0, 5)
    c.eq("voltage", mag(d.currenttovoltage(I), "V"), R * I)


FLUX = [F + n for n in "op_fluxtocurrent op_currenttoflux op_cpstoflux op_fluxtocps op_countstoflux op_voltagetoflux op_fluxtovoltage fluxtocurrent currenttoflux cpstoflux countstoflux fluxtocps voltagetoflux fluxtovoltage fluxop responsetoflux".split()]


@contract("C08", functions=FLUX, assumes=["PNdiode._chargepersamplephoton (own contract)"])
def flux(c):
    """flux and response for an arbitrary charge per sample photon"""
    S = Setup(c, cls=Known, gain=c.choice("gain", ["V/A", "A"]))
    d = S.d
    Cs = d.known = c.pos("Cs", 0.5, 5)
    f, n, t = c.real("flux", 0, 5), c.real("n", 0, 9), c.pos("t", 0.1, 3)
    cur = lambda q: Cs * q + S.D
    cps = lambda q: S.V2F * S.Rout * cur(q) + S.F0
    c.eq("flux->I", mag(d.fluxtocurrent(7.0, f), "A"), cur(f))
    c.eq("flux->V", mag(d.fluxtovoltage(7.0, f), "V"), S.Rout * cur(f))
    c.eq("flux->cps", mag(d.fluxtocps(7.0, f), "Hz"), cps(f))
    c.eq("I->flux", cur(mag(d.currenttoflux(7.0, n), "Hz")), n)
    c.eq("V->flux", S.Rout * cur(mag(d.voltagetoflux(7.0, n), "Hz")), n)
    c.eq("cps->flux", cps(mag(d.cpstoflux(7.0, n), "Hz")), n)
    c.eq("counts->flux", cps(mag(d.countstoflux(7.0, t, n), "Hz")) * t, n)


@contract("C08", functions=FLUX, assumes=["PNdiode._chargepersamplephoton (own contract)"])
def response(c):
    """the unit of the response (or the exposure time) selects the conversion"""
    S = Setup(c, cls=Known, gain=c.choice("gain", ["V/A", "A"]))
    d = S.d
    Cs = d.known = c.pos("Cs", 0.5, 5)
    n, t = c.real("n", 0, 9), c.pos("t", 0.1, 3)
    cur = lambda q: Cs * q + S.D
    cps = lambda q: S.V2F * S.Rout * cur(q) + S.F0
    kind, f = c.choice("unit", [(None, 1), ("Hz", 1), ("kHz", 1000), ("A", 1), ("mA", 0.001), ("V", 1), ("dimensionless", 1)])
    timed = kind == "dimensionless" or (kind is None and c.choice("counts", [False, True]))
    r = n if kind is None else units.Quantity(n, kind)
    kw = {"time": t} if timed or c.choice("time", [False, kind is not None]) else {}
    if kind in ("A", "mA"):
        ref = cur
    elif kind == "V":
        ref = lambda q: S.Rout * cur(q)
    elif timed:
        ref = lambda q: cps(q) * t
    else:
        ref = cps
    c.eq("responsetoflux", ref(mag(d.responsetoflux(7.0, r, **kw), "Hz")), n * f)
    op = d.fluxop(7.0, r, **kw)
    x = units.Quantity(n, kind or ("dimensionless" if timed else "Hz"))
    c.eq("fluxop", ref(mag(op(x), "Hz")), n * f)
    c.raises("counts without time", RuntimeError, lambda: d.responsetoflux(7.0, units.Quantity(n, "dimensionless")))
    c.raises("counts without time (operator)", RuntimeError, lambda: d.fluxop(7.0, units.Quantity(n, "dimensionless")))


@contract("C08", functions=[F + "xrfnormop"], assumes=["PNdiode._chargepersamplephoton (own contract)"])
def normalisation(c):
    """norm = flux*time/(reference flux*reference time)"""
    S = Setup(c, cls=Known)
    d = S.d
    Cs = d.known = c.pos("Cs", 0.5, 5)
    Fref, t, tref, f = c.pos("Fref", 1, 5), c.pos("t", 0.1, 3), c.pos("tref", 0.1, 3), c.real("flux", 0, 5)
    given = c.choice("referencetime", [True, False])
    op, fr, tr = d.xrfnormop(7.0, t, units.Quantity(Fref, "Hz"), referencetime=tref if given else None)
    counts = (S.V2F * S.Rout * (Cs * f + S.D) + S.F0) * t
    c.eq("Fref", fr, Fref)
    c.eq("tref", tr, tref if given else t)
    # referencetime not given: normalise to the exposure time
    c.eq("norm", op(counts) * Fref * (tref if given else t), f * t)


@contract("C08", functions=[F + "xrfnormop"], mode="bounded", samples=60, bound="random settings")
def normalisation_counts(c):
    """a reference in counts stands for the flux (two significant digits) that gives these counts"""
    S = Setup(c, cls=Known)
    d = S.d
    Cs = d.known = c.pos("Cs", 0.5, 5)
    t, f = c.pos("t", 0.1, 3), c.real("flux", 0.2, 5)
    n = lambda q: (S.V2F * S.Rout * (Cs * q + S.D) + S.F0) * t
    op, fr, tr = d.xrfnormop(7.0, t, units.Quantity(n(f), "dimensionless"))
    fr = flat(fr)[0]
    c.le("reference flux", abs(fr - f), 0.0501 * f)
    c.eq("two digits", fr, float("%.1e" % fr))
    c.eq("norm at reference", flat(op(n(fr)))[0], 1.0, rtol=1e-6)


ABS = [F + n for n in "_chargepersamplephoton _chargeperdiodephoton _detection_rates _source_transmission _transmission_optics spectral_responsivity _spectral_responsivity_infthick samplelineweights".split()]


def configuration(c, **kw):
    before = c.choice("before", [False, True])
    target = c.choice("target", [False, True])
    filters = c.choice("filters", [(), ("BeamFilter0",), ("Window", "beamfilter3")])
    return Setup(c, before=before, target=target, filters=filters, **kw)


@contract("C08", functions=ABS, split=2)
def charge(c):
    """charge per sample photon of a spectrum"""
    S = configuration(c)
    n = c.choice("lines", [1, 2])
    E, el, W, w = lines(c, n)
    Cs = S.Cs(el, w)
    f = c.real("flux", 0.5, 2)
    c.eq("current", flat(mag(S.d.fluxtocurrent(E, f, weights=W), "A")), [Cs * ECHARGE * f + S.D], rtol=1e-7)
    S.d.darkcurrent = 0
    c.eq("charge", flat(mag(S.d.fluxtocurrent(E, f, weights=W), "A") / ECHARGE), [Cs * f], rtol=1e-7)
    if S.target:
        c.holds("bare rates of the target", all(x is False for x in S.target.calls))


@contract("C08", functions=ABS)
def lineweights(c):
    """weights of the source lines at the sample"""
    S = configuration(c)
    n = c.choice("lines", [1, 2])
    E, el, W, w = lines(c, n)
    keep = None if W is None else list(W)
    got = flat(S.d.samplelineweights(E, weights=W))
    num = [x * S.Ts(e) for x, e in zip(w, el)]
    c.eq("weights", [g * sum(num) for g in got], num)
    c.eq("input kept", None if W is None else list(W), keep)


@contract("C08", functions=ABS + ["detectors/diode.py:PNdiode.op_fluxtocurrent", "materials/utils.py:reshape_spectrum_lines"], split=2)
def sources(c):
    """two sources of two lines at once, three lines, unnormalised weights or none"""
    S = Setup(c, before=c.choice("before", [False, True]), target=c.choice("target", [False, True]), filters=("BeamFilter1", "Window"))
    S.d.darkcurrent = 0
    how = c.choice("spectrum", ["two", "three", "equal", "array of one"])
    f = c.pos("flux", 0.5, 2)
    if how == "two":
        w = [[c.pos("w%d%d" % (i, j), 0.2, 2) for j in range(2)] for i in range(2)]
        el = [[7.0, 8.5], [8.5, 5.0]]
        E, W = np.array(el), c.mat(w)
    else:
        n = {"three": 3, "equal": 2, "array of one": 1}[how]
        el = [ENERGY[:n]]
        w = [[c.pos("w%d" % i, 0.2, 2) for i in range(n)]] if how == "three" else [[1] * n]
        E, W = (np.array(el[0]) if how == "three" else el[0]), (c.obj(*w[0]) if how == "three" else None)
    got = flat(mag(S.d.fluxtocurrent(E, f, weights=W), "A") / ECHARGE)
    c.eq("charge", got, [S.Cs(e, x) * f for e, x in zip(el, w)], rtol=1e-7)
    num = [[x * S.Ts(e) for x, e in zip(a, b)] for a, b in zip(w, el)]
    got = flat(S.d.samplelineweights(E, weights=W))
    c.eq("weights at the sample", [g * t for g, t in zip(got, [sum(a) for a in num for _ in a])], [x for a in num for x in a])


@contract("C08", functions=["optics/base.py:Optics.transmission", "optics/base.py:Optics.set_transmission", F + "_transmission_optics", F + "_source_transmission"])
def optics(c):
    """each optical element multiplies the transmission to the sample"""
    S = Setup(c, before=True, optics=("kb", "kb"))
    a, b = c.pos("Ta", 0.1, 1), c.pos("Tb", 0.1, 1)
    S.optics[0].set_transmission(7.0, a)
    S.optics[1].set_transmission(7.0, b)
    c.eq("transmission", flat(S.optics[0].transmission(7.0)), [a])
    f = c.pos("flux", 0.5, 2)
    S.d.darkcurrent = 0
    c.eq("charge", [x * a * b for x in flat(mag(S.d.fluxtocurrent(7.0, f), "A"))], [S.Cs([7.0], [1]) * f * ECHARGE], rtol=1e-7)


@contract("C08", functions=[F + "calibratedark", F + "darkcurrent"], builtins=MODS)
def dark(c):
    """the dark current is the one that gives the measured response without flux (not below zero)"""
    c.logging()
    S = Setup(c, gain=c.choice("gain", ["V/A", "A"]))
    d = S.d
    t, n = c.pos("t", 0.1, 3), c.real("n", 0, 9)
    how = c.choice("unit", ["Hz", "counts", "A", None])
    if how == "counts":
        d.calibratedark(n, time=t)
        I = (n / t - S.F0) / (S.V2F * S.Rout)
    elif how == "A":
        d.calibratedark(units.Quantity(n, "A"))
        I = n
    else:
        d.calibratedark(n if how is None else units.Quantity(n, how))
        I = (n - S.F0) / (S.V2F * S.Rout)
    got = mag(d.darkcurrent, "A")
    c.eq("dark", got, I if I >= 0 else 0, atol=1e-12)


@contract("C08", functions=[F + "calibrateF0", FO + "F0"], builtins=MODS)
def offset(c):
    """the oscillator offset is the one that gives the measured response for the dark current (not below zero)"""
    c.logging()
    S = Setup(c, gain=c.choice("gain", ["V/A", "A"]))
    d = S.d
    t, n = c.pos("t", 0.1, 3), c.real("n", 0, 30)
    if c.choice("counts", [False, True]):
        d.calibrateF0(n, time=t)
        F0 = n / t - S.V2F * S.Rout * S.D
    else:
        d.calibrateF0(units.Quantity(n, "Hz"))
        F0 = n - S.V2F * S.Rout * S.D
    c.eq("F0", mag(d.oscillator.F0, "Hz"), F0 if F0 >= 0 else 0, atol=1e-10)
    c.eq("dark current kept", mag(d.darkcurrent, "A"), S.D)


@contract("C08", functions=[F + "gainfromresponse"], assumes=["PNdiode._chargepersamplephoton (own contract)"])
def gainguess(c):
    """the gain that gives the measured response for a known flux, current or voltage"""
    gain = c.choice("gain", ["V/A", "A"])
    S = Setup(c, cls=Known, gain=gain)
    d = S.d
    d.known = c.pos("Cs", 0.5, 5)
    true = c.pos("true", 0.5, 5)
    R = true if gain == "V/A" else S.Vmax / true
    f, t = c.pos("flux", 0.5, 5), c.pos("t", 0.1, 3)
    I = d.known * f + S.D
    after = S.V2F * R * I + S.F0
    kw = {}
    if c.choice("counts", [False, True]):
        after, kw["time"] = after * t, t
    kind = c.choice("before", ["Hz", "A", "V"])
    before = {"Hz": f, "A": I, "V": S.Rout * I}[kind]
    got = d.gainfromresponse(c.obj(after), units.Quantity(c.obj(before), kind), energy=7.0, **kw)
    c.holds("found", got is not None)
    c.eq("gain", mag(got, gain), true)


def linear(c, d, S, Cs, dark, unit, n):
    """n points of flux and noiseless response"""
    x = [c.pos("x%d" % i, 0.5 + i, 1 + i) for i in range(n)]
    for i in range(n - 1):
        c.assume(x[i] < x[i + 1])
    y = [Cs * v + dark for v in x]
    if unit == "Hz":
        y = [S.V2F * S.Rout * v + S.F0 for v in y]
    return c.obj(*x), units.Quantity(c.obj(*y), unit)


@contract("C08", functions=[FN + "calibrate", F + "_calibrate_chargepersamplephoton"], mode="bounded", samples=80, bound="random settings, 1-3 lines")
def calibrate(c):
    """after calibration the diode reproduces the flux and response it was calibrated with"""
    how = c.choice("option", ["simple", "solidangle", "optics", "thickness"])
    unit = c.choice("unit", ["Hz", "A"])
    S = Setup(c, cls=DI.NonCalibratedPNdiode, before=how == "optics", target=how == "solidangle", filters=("BeamFilter0",), optics=("kb",) if how == "optics" else (), simplecalibration=how == "simple")
    d = S.d
    S.Rout = S.Rout * 1e7
    d.Rout = units.Quantity(S.Rout, "V/A")
    n = 1 if how == "optics" else c.choice("lines", [1, 2, 3])
    E, el, W, w = lines(c, n)
    scale = ECHARGE * S.Cs(el, w)
    fixdark = c.choice("fixdark", [False, True])
    npts = c.choice("points", [1, 2, 5])
    D = c.real("D", 0, 2) * scale * 1e9
    if fixdark or npts == 1:
        d.darkcurrent = D
    if how == "solidangle":
        class Geometry(object):
            solidangle = 1.0
        d.geometry = Geometry()
        base = S.target.rate
        S.target.rate = lambda E, l: base(E, l) * d.geometry.solidangle
    ratio = c.pos("ratio", 0.3, 0.9) if how == "thickness" else c.pos("ratio", 0.5, 2)
    if how == "optics":
        d.optics[0].set_transmission(7.0, 0.9)
        # transmission enters in the denominator
        ratio = 1 / 0.9 / c.pos("T", 0.55, 1.05)
    if how == "thickness":
        S.t = S.t * c.pos("t2", 0.8, 1.25)  # exact thickness
        c.assume(all(S.detatt(e) < 0.8 for e in el))  # the solver only finds a nearby root
        Cs = S.Cs(el, w) * ECHARGE
    else:
        Cs = scale * ratio
    xs = np.array([c.pos("x%d" % i, 1 + i, 1.6 + i) * 1e9 for i in range(npts)])
    I = Cs * xs + D
    R = units.Quantity(S.V2F * S.Rout * I + S.F0, "Hz") if unit == "Hz" else units.Quantity(I, "A")
    d.calibrate(R, units.Quantity(xs, "Hz"), E, weights=W, caliboption=how if how != "simple" else "optics", fixdark=fixdark)
    back = mag(d.responsetoflux(E, R, weights=W), "Hz")
    c.eq("flux", flat(back), list(xs), rtol=1e-3)
    c.eq("dark", mag(d.darkcurrent, "A"), D, rtol=1e-5, atol=1e-6 * scale * 1e9)


class Geometry(object):
    solidangle = 1.0


class Responsive(DI.NonCalibratedPNdiode):
    """diode with an arbitrary positive spectral responsivity (own contract)"""

    case = None

    def spectral_responsivity(self, energy):
        out = np.empty(np.shape(energy), dtype=object)
        for k, e in np.ndenumerate(np.asarray(energy)):
            out[k] = self.case.pos("R%g" % e, 0.1, 1)
        if not self.case.symbolic:
            out = out.astype(float)
        return units.Quantity(out, "A/W")


def interp1d(x, y, **kw):
    """linear interpolation: the values at the nodes"""

    def f(v):
        out = np.empty(np.shape(v), dtype=object)
        for k, e in np.ndenumerate(np.asarray(v)):
            out[k] = y[[float(i) for i in x].index(float(e))]
        return out

    return f


@contract("C08", functions=[FN + "calibrate", F + "_calibrate_chargepersamplephoton"], builtins=MODS, assumes=["PNdiode.spectral_responsivity (own contract)", "scipy interp1d returns the values at the nodes", "fit1d.linfit and linfit_zerointercept return the line through collinear points (C21)"])
def calibration(c):
    """calibration of the charge per photon with the flux at the sample"""
    c.logging()
    how = c.choice("option", ["simple", "solidangle"])
    unit = c.choice("unit", ["Hz", "A"])
    S = Setup(c, cls=Responsive, target=how == "solidangle", filters=("BeamFilter0",), simplecalibration=how == "simple")
    d = S.d
    d.case = c
    n = c.choice("lines", [1, 2])
    E, el, W, w = lines(c, n)
    if how == "solidangle":
        g = d.geometry = Geometry()
        S.target.rate = lambda E, l: c.pos("Y%g_%g" % (E, l), 0.01, 1) * g.solidangle
    fixdark = c.choice("fixdark", [False, True])
    npts = c.choice("points", [1, 2])
    xs = [c.pos("x%d" % i, 1 + i, 1.6 + i) for i in range(npts)]
    if npts == 2:
        c.assume(xs[0] < xs[1])
    Cs, D = c.pos("Cs", 0.5, 3), c.real("D", 0, 2)
    if fixdark or npts == 1:
        d.darkcurrent = D
    I = [Cs * x + D for x in xs]
    R = c.obj(*[S.V2F * S.Rout * i + S.F0 for i in I]) if unit == "Hz" else c.obj(*I)

    if c.choice("previous", [False, True]):
        # an earlier calibration of the same lines is forgotten
        dark, old = d.darkcurrent, c.pos("old", 0.5, 3)
        d.darkcurrent = 0
        d.calibrate(units.Quantity(c.obj(old), "A"), units.Quantity(c.obj(1.0), "Hz"), E, weights=W, caliboption="solidangle") if n == 1 else None
        d.darkcurrent = dark

    def check(x, y, D):
        c.eq("fit points", [list(x), list(y)], [xs, [Cs * v + D for v in xs]])

    def linfit(x, y, **k):
        check(x, y, D)
        return [Cs, D]

    def zero(x, y, **k):
        check(x, y, 0)
        return Cs

    with Replace(c, [(DI.fit1d, "linfit", linfit), (DI.fit1d, "linfit_zerointercept", zero), (DI.lut.interpolate, "interp1d", interp1d)]):
        d.calibrate(units.Quantity(R, unit), units.Quantity(c.obj(*xs), "Hz"), E, weights=W, caliboption="solidangle", fixdark=fixdark)
    c.eq("dark", mag(d.darkcurrent, "A"), D, atol=1e-6)
    f = c.real("flux", 0, 2)
    c.eq("current", flat(mag(d.fluxtocurrent(E, f, weights=W), "A")), [Cs * f + D], rtol=1e-6, atol=1e-6)


@contract("C08", functions=["detectors/diode.py:CalibratedPNdiode." + n for n in ("spectral_responsivity", "_init_response")], mode="bounded", samples=60, bound="random tables of 2-6 energies")
def measured(c):
    """measured responsivity: interpolated inside the measured range, physical model outside"""
    n = c.choice("n", [2, 3, 6])
    E = np.array([5 + i + c.real("e%d" % i, 0, 0.9) for i in range(n)])
    r = np.array([c.pos("r%d" % i, 0.1, 0.3) for i in range(n)])
    mat = Mat(c, "det")
    mat.mass_att_coeff = lambda energy: 50.0 / np.asarray(energy)
    thick, ehole = c.pos("thick", 0.005, 0.05), c.pos("ehole", 3, 4)
    d = DI.CalibratedPNdiode(energy=E, response=units.Quantity(r, "A/W"), model=False, fitresponse=False, ehole=units.Quantity(ehole, "eV"), gain=units.Quantity(1, "V/A"), darkcurrent=0, attenuators={"Detector": {"material": mat, "thickness": thick}})
    model = lambda e: (1 - math.exp(-50.0 / e * mat.density * thick)) / ehole
    k = c.int("k", 0, n - 2)
    u = c.real("u", 0, 1)
    x = E[k] + u * (E[k + 1] - E[k])
    pts = [x, E[0] - 1, E[-1] + 0.5, E[k + 1]]
    exp = [r[k] + u * (r[k + 1] - r[k]), model(pts[1]), model(pts[2]), r[k + 1]]
    for e, v in zip(pts, exp):
        c.eq("scalar", float(mag(d.spectral_responsivity(e), "A/W")), v, rtol=1e-7)
    c.eq("array", flat(mag(d.spectral_responsivity(np.array(pts)), "A/W")), exp, rtol=1e-7)
    m = DI.CalibratedPNdiode(energy=E, response=units.Quantity(r, "A/W"), model=True, fitresponse=False, ehole=units.Quantity(ehole, "eV"), gain=units.Quantity(1, "V/A"), darkcurrent=0, attenuators={"Detector": {"material": mat, "thickness": thick}})
    c.eq("model", flat(mag(m.spectral_responsivity(np.array(pts)), "A/W")), [model(e) for e in pts], rtol=1e-7)
