"""C30 line spectra: energies, cross sections, rates and profiles"""
import math
import types
from unittest import mock

import numpy as np
from dv import funcs
from dv.engine import contract, bind

EB = bind("spectrocrunch.materials.elementbase:")
EL = bind("spectrocrunch.materials.element:")
XS = bind("spectrocrunch.materials.xrayspectrum:")
XL = bind("spectrocrunch.patch.xraylib:")
PI = bind("spectrocrunch.patch.pint:")

FX = "materials/xrayspectrum.py:"
FS = FX + "Spectrum."
FE = "materials/element.py:Element."

PROPERTY = {
    "title": "Line spectra: energies, cross sections, rates and profiles",
    "statement": "Compton scattered lines have energy E/(1+E(1-cos(angle))/mc2), Rayleigh lines that of the source; the fluorescence cross section of an element is the sum over its selected shells of ionization cross section, fluorescence yield and radiative rates of the selected lines, and differential cross sections are per steradian: /4pi for fluorescence, r_e^2.N_A/M times polarization factor times F(q)^2 (Rayleigh) or S(q) (Compton). "
    "Lines, rates, probabilities, groups, dictionaries and power of a spectrum describe the same values summed over sources; adding spectra adds line by line without changing the added ones; source weights are normalized. "
    "Line, group and sum spectra are the areas times the detector profiles at the line energies (times flux.time and bin width on request), on the channels of the detector calibration.",
    "over": ["inputs"],
    "for_all": "all source energies, angles, cross sections, yields, rates, areas, profiles, densities, weights and detector calibrations; up to 3 fluorescence lines and 2 source lines",
    "why": "Tests only check a spectrum as a whole for single elements and never compare the grouped, summed and tabulated views.",
    "files": ["materials/xrayspectrum.py", "materials/element.py", "materials/elementbase.py"],
    "mechanism": [
        ("line energies", "materials/xrayspectrum.py: ComptonLine, RayleighLine, FluoZLine"),
        ("cross sections", "materials/element.py: Element.fluorescence_cross_section, diff_rayleigh_cross_section, diff_compton_cross_section"),
        ("views of a spectrum", "materials/xrayspectrum.py: Spectrum.lines, linegroups, lineinfo, groupspectra, sumspectrum, __add__"),
    ],
}
META = {
    "level": "proof",
    "explanation": "values of the lines, cross sections, form factors, yields, rates, profiles, density, weights and calibration are symbolic; energies of fluorescence lines come from xraylib.",
    "trusted": ["xraylib tables are arbitrary functions, except energies and names of lines", "detector line profiles are arbitrary functions (C28)", "physical constants of pint (bounded check)"],
    "assumptions": [],
}

MC2 = 510.998950
LINES = [("Fe", "KL3"), ("Fe", "KM3"), ("Ca", "KL3"), ("Fe", "KL2")]
GROUP = {"KL3": "KA", "KL2": "KA", "KM3": "KB"}


def fluo(k):
    return XS.FluoZLine(EL.Element(LINES[k][0]), XS.FluoLine(LINES[k][1]))


def compton(E, polar):
    return E / (1 + E * (1 - math.cos(polar)) / MC2)


class Detector(object):
    """any line profile and calibration"""

    def __init__(self, c, gain=None, zero=None):
        self.c = c
        self.mcagain = c.pos("gain", 0.004, 0.1) if gain is None else gain
        self.mcazero = c.real("zero", -0.5, 0.5) if zero is None else zero
        self.widths = []

    def p(self, i, e):
        return self.c.pos("P%d.%.6g" % (i, e), 0.01, 1)

    def lineprofile(self, x, u, linewidth=0, **kwargs):
        self.widths.append(linewidth)
        return self.c.mat([[self.p(i, float(e)) for e in np.atleast_1d(u)] for i in range(len(x))])


class Geometry(object):
    def __init__(self, c, polar, **kw):
        self.detector = Detector(c, **kw)
        self.polar = polar

    def xrayspectrumkwargs(self):
        return {"polar": self.polar, "azimuth": 0.3}


def spectrum(c, nlines, E0, type="rate", tag="", geometry=None, polar=1.2):
    """spectrum with its values"""
    # angles of the geometry, if any, come first
    S = XS.Spectrum(geomkwargs={"polar": polar if geometry is None else 0.4, "azimuth": 0.3})
    S.geometry = geometry
    S.type = getattr(S.TYPES, type)
    S.density = c.pos("rho" + tag, 0.5, 8)
    want = {}
    A = np.array(E0)
    for k in list(range(nlines)) + ["Rayleigh", "Compton"]:
        line = fluo(k) if isinstance(k, int) else getattr(XS, k + "Line")(A)
        want[k] = [c.pos("v%s.%s.%d" % (tag, k, i), 0.01, 1) for i in range(len(E0))]
        S[line] = c.obj(*want[k])
    return S, want


def energy(k, e, polar=1.2):
    if isinstance(k, int):
        return fluo(k).energy()
    return compton(e, polar) if k == "Compton" else e


def key(line):
    """index of a line"""
    if isinstance(line, XS.FluoZLine):
        return LINES.index((str(line.element), str(line.line)))
    return str(line)


def multiplier(type, rho):
    return {"rate": 1, "crosssection": rho / (4 * math.pi), "diffcrosssection": rho}[type]


def arr(v):
    return list(np.atleast_1d(v))


@contract("C30", functions=[FX + x for x in ("ComptonLine.energy", "ComptonLine.scatteringangle", "RayleighLine.energy", "ScatteringLine.split", "Line.energy")])
def scattering_lines(c):
    """energy after scattering and back"""
    E = c.pos("E", 1, 100)
    polar = c.real("polar", 0, math.pi, lo_open=True, margin=1e-2)
    line = XS.ComptonLine(E)
    co = funcs.cos(polar) if c.symbolic else math.cos(polar)
    got = line.energy(polar=polar)
    c.eq("Compton", got * (1 + E * (1 - co) / MC2), E, rtol=1e-7)
    c.le("loss", got, E)
    c.eq("forward", line.energy(polar=0), E)
    c.eq("no angle", line.energy(), E)
    c.eq("Rayleigh", XS.RayleighLine(E).energy(polar=polar), E)
    c.eq("line", XS.Line(E).energy(polar=polar), E)
    es = [c.pos("E%d" % i, 1, 100) for i in range(2)]
    m = XS.ComptonLine(c.obj(*es))
    c.holds("sources", m.nenergy == 2 and line.nenergy == 1)
    got = m.energy(polar=polar)
    for i in range(2):
        c.eq("each source", got[i] * (1 + es[i] * (1 - co) / MC2), es[i], rtol=1e-7)
    for cls in (XS.RayleighLine, XS.ComptonLine):
        parts = cls(c.obj(*es)).split()
        c.holds("parts", len(parts) == 2 and all(isinstance(p, cls) for p in parts))
        c.eq("split", [p.energy() for p in parts], es)
        c.eq("single", [p.energy() for p in cls(E).split()], [E])


@contract("C30", functions=[FX + "ComptonLine.scatteringangle"], mode="bounded", bound="random energies and angles")
def scattering_angle(c):
    E = c.pos("E", 1, 100)
    polar = c.real("polar", 0, math.pi)
    line = XS.ComptonLine(E)
    c.eq("inverse", line.scatteringangle(line.energy(polar=polar)), polar, rtol=1e-6, atol=1e-5)


@contract("C30", functions=[FS + x for x in ("line_multiplier", "items_converted", "probabilities", "probabilities_dict", "rates", "rates_dict", "lines", "spectrum", "linegroups", "getitem_converted", "__getitem__")])
def content(c):
    """every view has the same values"""
    type = c.choice("type", ["rate", "crosssection", "diffcrosssection"])
    nlines = c.choice("lines", [3, 0, 1])
    E0 = c.choice("sources", [[9.0], [8.5, 9.0]])
    geometry = c.choice("geometry", [None, Geometry(c, 1.2, gain=0.01, zero=0.0)])
    S, want = spectrum(c, nlines, E0, type, geometry=geometry)
    m = multiplier(type, S.density)
    if type == "rate":
        view, other = (lambda: S.rates_dict), (lambda: list(S.probabilities))
    else:
        view, other = (lambda: S.probabilities_dict), (lambda: list(S.rates))
    c.raises("other type", RuntimeError, other)
    got = {key(k): v for k, v in view().items()}
    c.holds("all lines", set(got) == set(want))
    for k in want:
        c.eq("converted", arr(got[k]), [v * m for v in want[k]])
    for k in S:
        c.eq("item", arr(S.getitem_converted(k, convert=True)), [v * m for v in want[key(k)]])
        c.eq("item as is", arr(S.getitem_converted(k)), want[key(k)])
    c.eq("multiplier", S.line_multiplier(convert=True), m)
    c.eq("not converted", S.line_multiplier(convert=False), 1)
    # summed over the sources, scattering apart
    sort = c.choice("sort", [True, False])
    flat = [(k, energy(k, e), S_, v) for k in want for e, v, S_ in ([(None, sum(want[k]), None)] if isinstance(k, int) else zip(E0, want[k], E0))]
    lines = [(key(k), k, v) for k, v in S.lines(sort=sort)]
    c.holds("lines", len(lines) == len(flat))
    for k, e, e0, v in flat:
        w = [x for a, l, x in lines if a == k and (e0 is None or abs(l.energy() - e0) < 1e-9)]
        c.holds("once", len(w) == 1)
        c.eq("line", w[0], v * m)
    pairs = list(S.spectrum(sort=sort))
    c.holds("spectrum", len(pairs) == len(flat))
    for k, e, e0, v in flat:
        at = [x for a, x in pairs if abs(a - e) < 1e-6]
        c.eq("rate at energy", sum(at), sum(v2 * m for _, e2, _, v2 in flat if abs(e2 - e) < 1e-6))
    d = S.spectrum_dict
    for k, e, e0, v in flat:
        c.eq("tabulated", sum(d[x] for x in d if abs(x - e) < 1e-6), sum(v2 * m for _, e2, _, v2 in flat if abs(e2 - e) < 1e-6))
    convert = c.choice("convert", [True, False])
    groups = S.linegroups(convert=convert)
    f = m if convert else 1
    for g, ls in groups.items():
        for l, v in ls.items():
            k = key(l)
            if isinstance(k, int):
                c.holds("group", g == "%s-%s" % (LINES[k][0], GROUP[LINES[k][1]]))
                c.eq("grouped", v, sum(want[k]) * f)
            else:
                c.holds("group", g == k)
                c.eq("grouped", arr(v), [x * f for x in want[k]])
    c.holds("no line lost", sorted(str(key(l)) for ls in groups.values() for l in ls) == sorted(map(str, want)))
    c.eq("sources", list(S.energysource), E0)
    c.holds("number of sources", S.nsource == len(E0))


@contract("C30", functions=[FS + "power", FS + "spectrum", FS + "__getitem__"])
def power(c):
    """power of the beam; values which depend on the geometry"""
    E0 = c.choice("sources", [[9.0], [8.5, 9.0]])
    S, want = spectrum(c, 2, E0, geometry=c.choice("geometry", [None, Geometry(c, 1.2, gain=0.01, zero=0.0)]))
    flux = c.pos("flux", 1, 1e9)
    p = S.power(flux)
    tot = sum(energy(k, e) * v for k in want for e, v in zip(E0, want[k]))
    c.eq("power", p.to("keV/s").magnitude, tot * flux)
    S.geometry = None
    S.geomkwargs = {"polar": 1.2, "azimuth": 0.3}
    asked = []

    def value(polar=None, azimuth=None):
        asked.append((polar, azimuth))
        return c.obj(*want[0])

    S[fluo(2)] = value
    c.eq("callable", arr(S[fluo(2)]), want[0])
    c.holds("angles", asked[-1] == (1.2, 0.3))
    S.geometry = Geometry(c, 0.7, gain=0.01, zero=0.0)
    c.eq("callable", arr(S[fluo(2)]), want[0])
    c.holds("angles of the geometry", asked[-1] == (0.7, 0.3))
    S.type = S.TYPES.crosssection
    c.raises("no rates", RuntimeError, lambda: S.power(flux))


@contract("C30", functions=[FS + "__add__", FS + "__iadd__", FS + "apply_weights", FS + "sum_sources"])
def combine(c):
    """sums of spectra, weights and sums of sources"""
    E0 = [8.5, 9.0]
    A, a = spectrum(c, 2, E0, tag="a")
    B, b = spectrum(c, 3, E0, tag="b")
    C, d = spectrum(c, 1, E0, tag="c")
    how = c.choice("how", ["+", "+="])
    if how == "+":
        R = A + B + C
    else:
        R = XS.Spectrum()
        R.type = A.type
        for x in (A, B, C):
            R += x
    for k in R:
        i = key(k)
        c.eq("sum", arr(R[k]), [sum(w[i][j] for w in (a, b, d) if i in w) for j in range(2)])
    c.holds("all lines", set(map(key, R)) == set(b))
    for X, w in ((A, a), (B, b), (C, d)):
        for k in X:
            c.eq("added spectra", arr(X[k]), w[key(k)])
        c.holds("lines", set(map(key, X)) == set(w))
    B.type = B.TYPES.crosssection
    c.raises("other type", ValueError, lambda: A + B)
    # weights of the sources
    w = [c.pos("w%d" % i, 0.1, 3) for i in range(2)]
    extra = fluo(3)
    alone = c.pos("alone", 0.1, 1)
    A[extra] = alone
    A.apply_weights(c.obj(*w))
    for k in A:
        if key(k) == 3:
            c.eq("other number of sources", arr(A[k]), [alone])
        else:
            c.eq("weighted", arr(A[k]), [x * y / sum(w) for x, y in zip(a[key(k)], w)])
    C.apply_weights(None)
    for k in C:
        c.eq("no weights", arr(C[k]), d[key(k)])
    C.sum_sources()
    for k in C:
        i = key(k)
        c.eq("sum of sources", arr(C[k]), [sum(d[i])] if isinstance(i, int) else d[i])


@contract("C30", functions=[FS + x for x in ("linespectra", "groupspectra", "sumspectrum", "_linespectra", "lineinfo", "peakprofiles", "scaleprofiles", "profile_multiplier")], split=2, max_paths=6000)
def profiles(c):
    """measured spectra: per line, per group and in total"""
    view = c.choice("view", ["line", "group", "sum"])
    nlines = c.choice("lines", [2, 0, 1])
    E0 = c.choice("sources", [[9.0], [8.5, 9.0]])
    type = c.choice("type", ["rate", "crosssection"])
    polar = 1.2
    geom = Geometry(c, polar, gain=0.5, zero=0.1)
    if c.symbolic:
        c.assume(nlines < 2 or len(E0) == 1)
    S, want = spectrum(c, nlines, E0, type, geometry=geom)
    S.xlim = [6.9, 8.2]
    convert = c.choice("convert", [True, False])
    opts = c.choice("options", [{}, {"fluxtime": 1}, {"histogram": 1}, {"fluxtime": 1, "histogram": 1}])
    if c.symbolic:
        c.assume(convert or not opts)
    f = multiplier(type, S.density) if convert else 1
    kw = {}
    if "fluxtime" in opts:
        kw["fluxtime"] = c.pos("fluxtime", 1, 1e6)
        f = f * kw["fluxtime"]
    if "histogram" in opts:
        kw["histogram"] = True
        f = f * geom.detector.mcagain
    voigt = c.choice("voigt", [False, True])
    x, y, *rest = getattr(S, {"line": "linespectra", "group": "groupspectra", "sum": "sumspectrum"}[view])(convert=convert, voigt=voigt, **kw)
    a, b = round((6.9 - 0.1) / 0.5), round((8.2 - 0.1) / 0.5)
    c.eq("energies", list(x), [0.1 + 0.5 * i for i in range(a, b + 1)], atol=1e-12)
    n = len(x)
    flat = {}
    for k in want:
        if isinstance(k, int):
            flat[str(fluo(k))] = ("%s-%s" % (LINES[k][0], GROUP[LINES[k][1]]), energy(k, None), sum(want[k]))
        else:
            for i, e in enumerate(E0):
                flat["%s%d" % (k, i)] = (k, energy(k, e), want[k][i])
    p = geom.detector.p

    def profile(i, names):
        return sum(flat[s][2] * f * p(i, flat[s][1]) for s in names)

    if view == "sum":
        c.holds("shape", y.shape == (n,))
        for i in range(n):
            c.eq("total", y[i], profile(i, flat))
        return
    info = rest[-1]
    if view == "line":
        cols = [[s] for s in info]
        found = info
    else:
        cols = [list(v) for v in info.values()]
        found = {s: l for v in info.values() for s, l in v.items()}
        c.holds("members", all(flat[s][0] == g for g, v in info.items() for s in v))
    c.holds("shape", y.shape == (n, len(cols)))
    c.holds("every line", sorted(s for v in cols for s in v) == sorted(flat))
    for j, names in enumerate(cols):
        for i in range(n):
            c.eq("profile", y[i, j], profile(i, names))
    for s, l in found.items():
        c.holds("group name", l["group"] == flat[s][0])
        c.eq("line energy", arr(l["energy"]), [flat[s][1]], rtol=1e-6)
        c.eq("area", l["area"], flat[s][2] * f)
    for g in set(v[0] for v in flat.values()):
        marked = [s for s, l in found.items() if l["label"] is not None and flat[s][0] == g]
        c.holds("one label per group", len(marked) == 1)
        for s in flat:
            if flat[s][0] == g:
                c.le("highest line", flat[s][2], flat[marked[0]][2])


@contract("C30", functions=[FS + x for x in ("energytochannel", "channellimits", "energylimits", "mcachannels", "mcaenergies")])
def channels(c):
    """energies and channels of the detector"""
    geom = Geometry(c, 1.2)
    S = XS.Spectrum(geometry=geom)
    g, z = geom.detector.mcagain, geom.detector.mcazero
    e = [c.any("e%d" % i, 0, 20) for i in range(2)]
    ch = S.energytochannel(c.obj(*e))
    for i in range(2):
        n = ch[i]
        c.le("channel", 0, n)
        c.le("nearest above", (e[i] - z) / g - n, 0.5 + 1e-9)
        if n > 0:
            c.le("nearest below", n - (e[i] - z) / g, 0.5 + 1e-9)
    c.eq("scalar", S.energytochannel(e[0]), ch[0])
    S.xlim = c.obj(*e)
    lim = S.energylimits
    for i in range(2):
        c.eq("limits", lim[i], z + g * ch[i])
    D = XS.Spectrum(xlim=[1.0, 1.02])
    c.eq("without detector", list(D.mcaenergies()), [1 + 0.005 * i for i in range(5)], atol=1e-9)


class Tables(object):
    """arbitrary tables instead of those of xraylib"""

    def __init__(self, c):
        self.c = c
        self.q = []
        self.stack = None

    def rate(self, Z, code):
        return self.c.pos("rate.%d.%d" % (Z, code), 0.01, 0.5)

    def fluoyield(self, Z, code):
        return self.c.pos("yield.%d.%d" % (Z, code), 0.1, 0.9)

    def photo(self, Z, code, E):
        return self.c.pos("tau.%d.%d.%.6g" % (Z, code, E), 1, 100)

    def value(self, name, i):
        """of the i-th energy or momentum transfer"""
        return self.c.pos("%s.%d" % (name, i), 0.1, 20)

    def table(self, name):
        def f(Z, x):
            if not np.ndim(x):
                self.q.append((name, [x]))
                return self.value(name, 0)
            self.q.append((name, list(x)))
            return self.c.mat([[self.value(name, i) for i in range(len(x))]])

        return f

    def __enter__(self):
        import contextlib

        self.stack = contextlib.ExitStack()
        for name, f in (("RadRate", self.rate), ("FluorYield", self.fluoyield), ("CS_Photo_Partial", self.photo)):
            self.stack.enter_context(mock.patch.object(XL, name, f))
        for name in ("CS_Rayl", "CS_Compt", "FF_Rayl", "SF_Compt", "Fi", "Fii"):
            self.stack.enter_context(mock.patch.object(XL, name, self.table(name)))
            self.stack.enter_context(mock.patch.object(XL.xraylib_np, name, self.table(name)))
        return self

    def __exit__(self, *a):
        self.stack.close()


@contract("C30", functions=[FE + x for x in ("fluorescence_cross_section", "fluorescence_cross_section_lines", "diff_fluorescence_cross_section", "partial_mass_abs_coeff", "_CS_Photo_Partial_DB")] + [FX + x for x in ("Shell.partial_fluoyield", "Shell.radrate", "Shell.fluoyield", "Shell.partial_photo", "FluoLine.radrate")])
def fluorescence(c):
    """cross sections of the selected shells and lines"""
    e = EL.Element("Fe")
    shells, lines = c.choice("selection", [(["K"], ["KL3"]), (["K", "L3"], ["KL3", "KM3", "L3M5"]), (["K"], None), (["K", "L1"], ["KM3"]), (None, None)])
    E0 = c.choice("energies", [9.0, [9.0], [8.5, 9.0]])
    E = np.array(E0) if isinstance(E0, list) else E0
    es = E0 if isinstance(E0, list) else [E0]
    c.holds("nothing selected", np.all(np.array(e.fluorescence_cross_section(E)) == 0) and not e.fluorescence_cross_section_lines(E))
    with Tables(c) as T:
        if shells is not None:
            e.markabsorber(shells=shells, fluolines=lines)
        got = e.fluorescence_cross_section(E)
        each = e.fluorescence_cross_section_lines(E)
        diff = e.diff_fluorescence_cross_section(E)
        ion = e.partial_mass_abs_coeff(E)
        codes = {s: XS.Shell(s).code for s in shells or []}
        tau = {s: [T.photo(26, codes[s], x) for x in es] for s in codes}
        fy = {s: T.fluoyield(26, codes[s]) for s in codes}
        if lines is not None:
            rr = {l: T.rate(26, XS.FluoLine(l).code) for l in lines}
    c.holds("scalar", (np.ndim(got) == 0) == (np.ndim(E) == 0) and (np.ndim(ion) == 0) == (np.ndim(E) == 0))
    c.eq("ionization", arr(ion), [sum(tau[s][i] for s in codes) for i in range(len(es))])
    if lines is None:
        # all the lines of the shell
        c.eq("cross section", arr(got), [sum(tau[s][i] * fy[s] for s in codes) for i in range(len(es))])
        return
    of = lambda l: [s for s in codes if l.startswith(s)]
    c.eq("cross section", arr(got), [sum(tau[s][i] * fy[s] * rr[l] for l in lines for s in of(l)) for i in range(len(es))])
    c.holds("lines", set(str(k.line) for k in each) == set(l for l in lines if of(l)) == set(str(k.line) for k in diff))
    for k, v in each.items():
        l = str(k.line)
        (s,) = of(l)
        c.eq("line", arr(v), [t * fy[s] * rr[l] for t in tau[s]])
    for k, v in diff.items():
        l = str(k.line)
        (s,) = of(l)
        c.eq("line per steradian", [x * (4 * math.pi) for x in arr(v)], [t * fy[s] * rr[l] for t in tau[s]])


HC = 12.398419843320026  # keV.Angstrom


def factor():
    """r_e^2.N_A (cm^2/mol)"""
    return (1 * PI.ureg.classical_electron_radius**2 * PI.ureg.particles_per_mol).to("cm^2/mol").magnitude


@contract("C30", functions=["patch/pint.py"], mode="bounded", bound="constants", samples=1)
def constants(c):
    c.eq("electrons per mole", factor(), 2.8179403205e-13**2 * 6.02214076e23, rtol=1e-7)


class Source(object):
    """any polarization factor"""

    def __init__(self, c):
        self.c = c
        self.asked = []

    def thomson_K(self, azimuth, polar):
        self.asked.append(("thomson", azimuth, polar, None))
        return self.c.pos("Kt", 0.1, 1)

    def compton_K(self, E):
        def K(azimuth, polar):
            self.asked.append(("compton", azimuth, polar, E))
            return self.c.obj(*[self.c.pos("Kc%d" % i, 0.1, 1) for i in range(len(E))])

        return K


@contract("C30", functions=[FE + x for x in ("diff_rayleigh_cross_section", "diff_compton_cross_section", "scatfact_classic_real", "scatfact_real", "scatfact_imag", "scattering_cross_section", "rayleigh_cross_section", "compton_cross_section")] + ["materials/csutils.py:eval"])
def scattering(c):
    """scattering cross sections and form factors"""
    e = EL.Element("Fe")
    n = c.choice("energies", [1, 2])
    es = [c.pos("E%d" % i, 5, 30) for i in range(n)]
    E = c.obj(*es)
    M = c.pos("M", 1, 200)
    e.MM = M
    src = Source(c)
    az = c.any("azimuth", -3, 3)
    po = c.real("polar", 0, math.pi, margin=1e-3)
    si = funcs.sin(po / 2) if c.symbolic else math.sin(po / 2)
    f = factor()
    with Tables(c) as T:
        R = e.diff_rayleigh_cross_section(E, source=src)
        C = e.diff_compton_cross_section(E, source=src)
        for name, g, tab, k in (("thomson", R, "FF_Rayl", 2), ("compton", C, "SF_Compt", 1)):
            src.asked[:] = []
            T.q[:] = []
            got = g(az, po)
            (a,), ((t, q),) = src.asked, T.q
            c.holds("tables", a[0] == name and t == tab)
            c.eq("direction", list(a[1:3]), [az, po])
            if name == "compton":
                c.eq("energies", list(a[3]), es)
            for i in range(n):
                c.eq("momentum transfer", q[i] * HC, si * es[i], rtol=1e-6, atol=1e-12)
                K = c.pos("Kt", 0.1, 1) if name == "thomson" else c.pos("Kc%d" % i, 0.1, 1)
                c.eq("differential", arr(got)[i] * M, f * K * T.value(tab, i) ** k, rtol=1e-6)
        T.q[:] = []
        c.eq("form factor", arr(e.scatfact_classic_real(E, theta=po)), [T.value("FF_Rayl", i) for i in range(n)])
        for i in range(n):
            c.eq("momentum transfer", T.q[0][1][i] * HC, si * es[i], rtol=1e-6, atol=1e-12)
        c.eq("forward", e.scatfact_classic_real(E), 26)
        c.eq("real part", arr(e.scatfact_real(E)), [26 + T.value("Fi", i) for i in range(n)])
        c.eq("real part off axis", arr(e.scatfact_real(E, theta=po)), [T.value("FF_Rayl", i) + T.value("Fi", i) for i in range(n)])
        c.eq("imaginary part", arr(e.scatfact_imag(E)), [T.value("Fii", i) for i in range(n)])
        r, k = e.rayleigh_cross_section(E), e.compton_cross_section(E)
        c.eq("Rayleigh", arr(r), [T.value("CS_Rayl", i) for i in range(n)])
        c.eq("Compton", arr(k), [T.value("CS_Compt", i) for i in range(n)])
        c.eq("scattering", arr(e.scattering_cross_section(E)), [T.value("CS_Rayl", i) + T.value("CS_Compt", i) for i in range(n)])
        for name, x in T.q[-4:]:
            c.eq("at the energies", x, es)


@contract("C30", functions=["materials/elementbase.py:ElementBase.xrayspectrum", FE + "markabsorber", FE + "shellfactory", FX + "Shell.factory", FX + "FluoLine.factory", FS + "apply_weights"])
def element_spectrum(c):
    """spectrum of an element"""
    e = EL.Element("Fe")
    rho = e.density
    E0 = c.choice("sources", [[9.0], [8.5, 9.0], [7.0]])
    emin, emax = c.choice("limits", [(0, None), (6.395, None), (0.5, 7.2), (0.72, 6.9)])
    source = Source(c) if c.choice("source", [True, False]) else None
    w = [c.pos("w%d" % i, 0.1, 3) for i in range(len(E0))] if c.choice("weights", [True, False]) else None
    with Tables(c) as T:
        S = e.xrayspectrum(np.array(E0), source=source, emin=emin, emax=emax, weights=None if w is None else c.obj(*w), polar=0.9, azimuth=0.2)
        hi = max(E0) if emax is None else emax
        lines = set()
        for name in SHELLS:
            if emin <= XL.EdgeEnergy(26, XS.Shell(name).code) <= hi:
                for l in every_line():
                    if l.name.startswith(name) and l.energy(26) > 0 and emin <= l.energy(26) <= hi:
                        lines.add(str(l))
        c.holds("lines", set(str(k.line) for k in S if isinstance(k, XS.FluoZLine)) == lines)
        c.holds("scattering", sorted(str(k) for k in S if not isinstance(k, XS.FluoZLine)) == ["Compton", "Rayleigh"])
        c.holds("type", S.type == (S.TYPES.crosssection if source is None else S.TYPES.diffcrosssection))
        c.eq("density", S.density, rho)
        c.holds("limits", list(S.xlim) == [emin, hi])
        share = [1] * len(E0) if w is None else [x / sum(w) for x in w]
        m = 1 if source is None else 4 * math.pi
        f = factor() / EL.Element("Fe").MM
        for k in S:
            v = arr(S[k])
            for i, x in enumerate(E0):
                if isinstance(k, XS.FluoZLine):
                    s = [n for n in SHELLS if str(k.line).startswith(n)][0]
                    want = T.photo(26, XS.Shell(s).code, x) * T.fluoyield(26, XS.Shell(s).code) * T.rate(26, k.line.code) * share[i]
                    c.eq("fluorescence", v[i] * m, want)
                elif source is None:
                    c.eq("scattered", v[i], T.value({"Rayleigh": "CS_Rayl", "Compton": "CS_Compt"}[str(k)], i) * share[i])
                elif str(k) == "Rayleigh":
                    c.eq("scattered", v[i], f * c.pos("Kt", 0.1, 1) * T.value("FF_Rayl", i) ** 2 * share[i], rtol=1e-6)
                else:
                    c.eq("scattered", v[i], f * c.pos("Kc%d" % i, 0.1, 1) * T.value("SF_Compt", i) * share[i], rtol=1e-6)
    if source is not None:
        c.holds("angles", bool(source.asked) and all(a[1:3] == (0.2, 0.9) for a in source.asked))


SHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]
ALL = []


def every_line():
    if not ALL:
        ALL.extend(l for l in XS.FluoLine.all_lines() if any(l.name.startswith(s) for s in SHELLS))
    return ALL
