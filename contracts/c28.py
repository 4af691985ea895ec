"""C28 energy response of XRF detectors"""
import math
import types
import numpy as np
import scipy.special
from dv import funcs
from dv.engine import contract, bind
from dv.shim import Replace

X = bind("spectrocrunch.detectors.xrf:")
F = "detectors/xrf.py:XRFDetector."
B = ("spectrocrunch.detectors.xrf",)

PROPERTY = {
    "title": "XRF detector response: resolution and normalized line shapes",
    "statement": "The Gaussian variance of a detector is noise^2/(8ln2)+fano*Ehole*energy, the Voigt width follows from it and FWHM and variance convert into each other. "
    "The profile of a line is the sum of a peak (Gaussian or Voigt), short and long tail and step, each enabled one with the area of its fraction (peak on the whole axis, tails and step on positive energies) or, with PyMca parameters, with its area or height relative to the peak; heights are the profile at the line energy and every line is independent of the others. "
    "Fractions and broadening convert to PyMca ratios and slopes and back at the conversion energy without loss, also when written to and read from a PyMca configuration.",
    "over": ["inputs"],
    "for_all": "all detector parameters, line energies, line widths and shape parameters",
    "why": "Tests use one detector with a line at 10 keV and large widths, where normalization terms vanish.",
    "files": ["detectors/xrf.py"],
    "mechanism": [
        ("line profile", "detectors/xrf.py: XRFDetector.lineprofile"),
        ("normalization of the step and tails", "detectors/xrf.py: _snorm, _tnorm"),
        ("conversion between parametrizations", "detectors/xrf.py: _fcalc_ratios_single, _fcalc_fractions_single, convert"),
    ],
}
META = {
    "level": "proof",
    "explanation": "energies, variances, fractions, ratios and slopes are unbounded symbolic reals, for two lines and two energies (all combinations of components are enumerated).",
    "trusted": ["scipy.special.erf, erfc and wofz (unknown functions; erf is odd)", "pint unit conversion is multiplication by a constant"],
    "assumptions": ["energies, widths and broadening are positive"],
}


def F_(c):
    """functions of numbers"""
    if c.symbolic:
        return types.SimpleNamespace(exp=funcs.exp, sqrt=funcs.sqrt, erf=funcs.erf, erfc=funcs.erfc, voigt=lambda x, y: funcs.opaque("voigt", x * x, y))
    return types.SimpleNamespace(exp=math.exp, sqrt=math.sqrt, erf=math.erf, erfc=math.erfc, voigt=lambda x, y: scipy.special.wofz(complex(x, y)).real)


class Wofz(object):
    """Faddeeva function, of which only the real part is used"""

    def __init__(self, z):
        self.real = funcs.opaque("voigt", z.real * z.real, z.imag)


def elementwise(f):
    def g(x):
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = f(x[i])
            return out
        return f(x)

    return g


class WofzArray(object):
    """array of values of the Faddeeva function"""

    def __init__(self, z):
        self.real = elementwise(lambda v: Wofz(v).real)(z)


def special(c):
    return Replace(
        c,
        [
            (scipy.special, "erf", elementwise(funcs.erf)),
            (scipy.special, "erfc", elementwise(funcs.erfc)),
            (scipy.special, "wofz", lambda z: WofzArray(z) if isinstance(z, np.ndarray) else Wofz(z)),
        ],
    )


def detector(c, **kw):
    """detector with arbitrary resolution"""
    kw.update(mcazero=0, mcagain=0.005, mcanoise=c.pos("noise", 0.02, 0.3), mcafano=c.pos("fano", 0.05, 0.3), ehole=c.pos("ehole", 2, 5))
    return X.XRFDetector(**kw)


def varying(c, det, energies):
    """arbitrary variance for every energy: contract of gaussianVAR (proved in resolution)"""
    if not c.symbolic:
        return [det.gaussianVAR(e) for e in energies]
    var = [c.pos("var%d" % i) for i in range(len(energies))]

    def one(e):
        for k, v in zip(energies, var):
            if e is k:
                return v
        raise AssertionError("another energy")

    det.gaussianVAR = elementwise(one)
    return var


@contract("C28", functions=[F + x for x in ("FWHMtoVAR", "VARtoFWHM", "gaussianVAR", "gaussianFWHM", "voigtFWHM", "voigtVAR")], builtins=B)
def resolution(c):
    """detector resolution"""
    det = detector(c)
    e = c.pos("energy", 0.1, 20)
    k = 8 * math.log(2)
    var = det.gaussianVAR(e)
    noise, fano, ehole = det.mcanoise, det.mcafano, det.ehole.to("keV").magnitude
    c.eq("variance", var * k, noise**2 + fano * ehole * e * k)
    c.eq("ehole", det.ehole.to("eV").magnitude, ehole * 1000)
    w = det.gaussianFWHM(e)
    c.eq("fwhm", w * w, var * k)
    c.eq("inverse", [det.FWHMtoVAR(w), det.VARtoFWHM(det.FWHMtoVAR(noise))], [var, noise])
    lw = c.real("linewidth", 0, 0.1)
    v = det.voigtFWHM(e, linewidth=lw)
    d = v - 0.5346 * lw
    c.eq("voigt", d * d, 0.2166 * lw * lw + w * w)
    c.holds("wider", d >= 0)
    c.eq("voigt without natural width", det.voigtFWHM(e), w)
    c.eq("voigt variance", det.voigtVAR(e, linewidth=lw) * k, v * v)


def tail(d, b, s):
    """the same without overflow"""
    t = d / b + b / (2 * s)
    if t > 0:
        return math.exp(-d * d / (b * b)) * scipy.special.erfcx(t) / 2
    return math.exp(d / s + b * b / (4 * s * s)) * math.erfc(t) / 2


def shapes(c, x, u, var, slopes):
    """peak, tails and step at energy x for a line at u, not normalized; and their areas"""
    f = F_(c)
    sq = f.sqrt(2 * var)
    z = (x - u) / sq
    g = f.exp(-(x - u) * (x - u) / (2 * var))
    step = f.erfc(z) / 2
    tails = []
    for s in slopes:
        if c.symbolic:
            tails.append(f.exp((x - u) / s + var / (2 * s * s)) * f.erfc(z + sq / (2 * s)) / 2)
        else:
            tails.append(tail(x - u, sq, s))
    return g, tails, step


def areas(c, u, var, slopes):
    """integral of the peak, and of the tails and step on positive energies"""
    f = F_(c)
    sq = f.sqrt(2 * var)
    # lim_x->inf and at x=0 of the antiderivatives: b/2.(t.erfc(t)-exp(-t^2)/sqrt(pi)) with t = (x-u)/b
    area_step = -(-u * f.erfc(-u / sq) - sq * f.exp(-u * u / (2 * var)) / math.sqrt(math.pi)) / 2
    # s.tail + s/2.erf(t)
    at0 = shapes(c, 0, u, var, slopes)[1]
    area_tails = [s / 2 - s * t - s / 2 * f.erf(-u / sq) for s, t in zip(slopes, at0)]
    return f.sqrt(2 * math.pi * var), area_tails, area_step


def positive(v, *args):
    funcs.ctx().add_fact(v > 0)


def apply(f, *args):
    """f for all elements"""
    args = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in args])
    out = np.empty(args[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[a[i] for a in args])
    return out if out.ndim else out[()]


def area_step(c, det, u, var):
    if c.symbolic:
        return funcs.opaque("snorm", u, facts=positive)
    return areas(c, u, var, [])[2]


def area_tail(c, det, u, var, slope):
    if c.symbolic:
        return funcs.opaque("tnorm", u, slope, facts=positive)
    return areas(c, u, var, [slope])[1][0]


def normalization(c, det):
    """arbitrary areas for each line: contract of _snorm and _tnorm (proved in areas_of_components)"""
    if c.symbolic:
        det._snorm = lambda u, a, b, **kw: apply(lambda x: funcs.opaque("snorm", x, facts=positive), u)
        det._tnorm = lambda u, a, b, tr, **kw: apply(lambda x, t: funcs.opaque("tnorm", x, t, facts=positive), u, tr)


def norms_of(c, det, u, var, slopes):
    return F_(c).sqrt(2 * math.pi * var), [area_tail(c, det, u, var, s) for s in slopes], area_step(c, det, u, var)


@contract("C28", functions=[F + "_snorm", F + "_tnorm", F + "_gnorm"], builtins=B)
def areas_of_components(c):
    """integrals of the components"""
    snorm, tnorm, gnorm = (bind("spectrocrunch.detectors.xrf:XRFDetector." + k) for k in ("_snorm", "_tnorm", "_gnorm"))
    det = detector(c)
    u, var = c.pos("u", 0.1, 5), c.pos("var", 0.001, 0.01)
    slope = c.pos("slope", 0.05, 0.5)
    f = F_(c)
    a, b = 2 * var, f.sqrt(2 * var)
    g, t, s = areas(c, u, var, [slope])
    with special(c):
        c.eq("step", snorm(det, u, a, b), s, rtol=1e-7)
        c.eq("tail", tnorm(det, u, a, b, slope), t[0], rtol=1e-6)
        c.eq("peak", gnorm(det, a), g)


FLAGS = [(1, 1, 1, 1), (1, 0, 0, 0), (0, 1, 1, 1), (1, 1, 0, 1), (1, 0, 1, 0), (0, 0, 1, 1), (1, 0, 0, 1)]


def fractions(c):
    """fractions of the tails and step of which the peak is the remainder"""
    w = [c.pos(n, 0.01, 0.3) for n in ("wst", "wlt", "wstep")]
    c.assume(w[0] + w[1] + w[2] <= 1)
    return w


def values(y, i, j):
    return [k[i, j] for k in y]


LINE = [F + x for x in ("lineprofile", "_gnorm", "_snorm", "_tnorm", "wpeak", "all_fractions", "_fcalc_tail_slope_ratio")]


def lines(c, two=False):
    """energies and lines"""
    n = 1 if c.symbolic and not two else 2
    xs = [c.real("x%d" % i, 0.05, 5) for i in range(n)]
    us = [c.pos("u%d" % i, 0.2, 4) for i in range(n)]
    return xs, us


@contract("C28", functions=LINE, builtins=B, split=7)
def normalized_areas(c):
    """every component has the area of its fraction"""
    flags = c.choice("components", FLAGS)
    keys = ("bpeak", "bstail", "bltail", "bstep")
    p = dict(zip(keys, map(bool, flags)))
    w = fractions(c)
    tb = [c.pos(n, 0.5, 5) for n in ("stb", "ltb")]
    p.update(stailbroadening=tb[0], ltailbroadening=tb[1], stailfraction=w[0], ltailfraction=w[1], stepfraction=w[2])
    det = detector(c, shape_fixedarearatios=p)
    xs, us = lines(c)
    var = varying(c, det, us)
    f = F_(c)
    slopes = [[t * f.sqrt(v) for t in tb] for v in var]
    normalization(c, det)
    norms = [norms_of(c, det, *k) for k in zip(us, var, slopes)]
    with special(c):
        y = det.lineprofile(c.obj(*xs), c.obj(*us), decomposed=True)
        total = det.lineprofile(c.obj(*xs), c.obj(*us), normalized=True)
        h = det.lineprofile(c.obj(*xs), c.obj(*us), decomposed=True, onlyheight=True)
        for i, x in enumerate(xs):
            for j, u in enumerate(us):
                g, t, s = shapes(c, x, u, var[j], slopes[j])
                ga, ta, sa = norms[j]
                got = values(y, i, j)
                wp = 1 - w[0] - w[1] - w[2]
                want = [wp * g, w[0] * t[0], w[1] * t[1], w[2] * s]
                area = [ga] + ta + [sa]
                for k, name in enumerate(("peak", "short tail", "long tail", "step")):
                    c.eq(name, got[k] * area[k], want[k] if flags[k] else 0, atol=1e-9)
                c.eq("total", total[i, j], got[0] + got[1] + got[2] + got[3])
                if i == 0:
                    g, t, s = shapes(c, u, u, var[j], slopes[j])
                    want = [wp * g, w[0] * t[0], w[1] * t[1], w[2] * s]
                    for k, name in enumerate(("peak", "short tail", "long tail", "step")):
                        c.eq("height of the " + name, h[k][0, j] * area[k], want[k] if flags[k] else 0, atol=1e-9)


def pymca(c, flags):
    keys = ("bpeak", "bstail", "bltail", "bstep")
    p = dict(zip(keys, map(bool, flags)))
    r = [c.pos(n, 0.01, 0.3) for n in ("rst", "rlt", "rstep")]
    s = [c.pos(n, 0.05, 0.5) for n in ("sst", "slt")]
    p.update(stailslope_ratio=s[0], ltailslope_ratio=s[1], stailarea_ratio=r[0], ltailarea_ratio=r[1], stepheight_ratio=r[2])
    return p, r, s


@contract("C28", functions=LINE[:2], builtins=B, split=7)
def pymca_parameters(c):
    """areas and height relative to the peak"""
    flags = c.choice("components", FLAGS)
    p, r, slopes = pymca(c, flags)
    det = detector(c, shape_pymca=p)
    xs, us = lines(c)
    var = varying(c, det, us)
    f = F_(c)
    with special(c):
        y = det.lineprofile(c.obj(*xs), c.obj(*us), decomposed=True)
        h = det.lineprofile(c.obj(*xs), c.obj(*us), decomposed=True, onlyheight=True)
        for i, x in enumerate(xs):
            for j, u in enumerate(us):
                g, t, s = shapes(c, x, u, var[j], slopes)
                n = f.sqrt(2 * math.pi * var[j])
                got = values(y, i, j)
                want = [g / n, r[0] * t[0] / slopes[0], r[1] * t[1] / slopes[1], r[2] * s / n]
                c.eq("profile", got, [a if k else 0 for k, a in zip(flags, want)], atol=1e-9)
                if i == 0:
                    g, t, s = shapes(c, u, u, var[j], slopes)
                    want = [g / n, r[0] * t[0] / slopes[0], r[1] * t[1] / slopes[1], r[2] * s / n]
                    c.eq("height", values(h, 0, j), [a if k else 0 for k, a in zip(flags, want)], atol=1e-9)


@contract("C28", functions=LINE[:2], builtins=B)
def voigt(c):
    """peak with a natural line width"""
    fixed = c.choice("parameters", ["fractions", "pymca"])
    w = fractions(c)
    if fixed == "fractions":
        p = dict(bpeak=True, bstail=False, bltail=False, bstep=False, stailbroadening=1, ltailbroadening=2)
        p.update(zip(("stailfraction", "ltailfraction", "stepfraction"), w))
        det, wp = detector(c, shape_fixedarearatios=p), 1 - w[0] - w[1] - w[2]
    else:
        det, wp = detector(c), 1
    mixed = c.choice("one line without width", [True, False])
    xs, us = lines(c, two=mixed)
    lw = [c.pos("lw%d" % i, 0.001, 0.1) for i in range(len(us))]
    if mixed:
        lw[1] = 0
    var = varying(c, det, us)
    f = F_(c)
    with special(c):
        y = det.lineprofile(c.obj(*xs), c.obj(*us), linewidth=c.obj(*lw))
        for i, x in enumerate(xs):
            for j, u in enumerate(us):
                b = f.sqrt(2 * var[j])
                c.eq("peak", y[i, j] * f.sqrt(2 * math.pi * var[j]), wp * f.voigt((x - u) / b, lw[j] / 2 / b), atol=1e-9)


CONV = [F + x for x in ("convert", "ratios", "fractions", "stailbroadening", "ltailbroadening", "stailslope_ratio", "ltailslope_ratio", "_calc_ratios", "_calc_fractions", "_fcalc_ratios_single", "_fcalc_fractions_single")] + ["math/linalg.py:cramer"]


def convertible(c):
    """detector, energy, parameters and areas at this energy"""
    start = c.choice("from", ["fractions", "pymca"])
    u = c.pos("u", 0.3, 5)
    f = F_(c)
    if start == "fractions":
        w = fractions(c)
        c.assume(w[0] + w[1] + w[2] < 0.99)
        tb = [c.pos(n, 0.5, 5) for n in ("stb", "ltb")]
        p = dict(bpeak=True, bstail=True, bltail=True, bstep=True, stailbroadening=tb[0], ltailbroadening=tb[1], stailfraction=w[0], ltailfraction=w[1], stepfraction=w[2])
        det = detector(c, shape_fixedarearatios=p)
        var = varying(c, det, [u])[0]
        slopes = [t * f.sqrt(var) for t in tb]
        r = None
    else:
        p, r, slopes = pymca(c, (1, 1, 1, 1))
        det = detector(c, shape_pymca=p)
        var = varying(c, det, [u])[0]
        tb = [s / f.sqrt(var) for s in slopes]
        w = None
    normalization(c, det)
    return start, u, det, w, tb, r, slopes, norms_of(c, det, u, var, slopes)


@contract("C28", functions=CONV, builtins=B, split=2)
def parameters(c):
    """both parametrizations are the same profile at the conversion energy, and back"""
    start, u, det, w, tb, r, slopes, (ga, ta, sa) = convertible(c)
    with special(c):
        other = det.convert(shape_conversionenergy=u)
        c.eq("slopes", [other.stailslope_ratio, other.ltailslope_ratio], slopes)
        c.eq("broadening", [other.stailbroadening, other.ltailbroadening], tb)
        if start == "fractions":
            r = other.ratios
        else:
            w = other.fractions
        wp = 1 - w[0] - w[1] - w[2]
        c.eq("short tail", r[0] * wp * ta[0], w[0] * slopes[0], atol=1e-9)
        c.eq("long tail", r[1] * wp * ta[1], w[1] * slopes[1], atol=1e-9)
        c.eq("step", r[2] * wp * sa, w[2] * ga, atol=1e-9)
        c.eq("kind", [det.fixedarearatios, other.fixedarearatios], [start == "fractions", start != "fractions"])


@contract("C28", functions=CONV, builtins=B, split=2)
def parameters_back(c):
    """converting twice gives the original parameters"""
    start, u, det, w, tb, r, slopes, _ = convertible(c)
    with special(c):
        det.convert(shape_conversionenergy=u, inplace=True)
        det.convert(inplace=True)
        c.eq("parameters", list(det.fractions if start == "fractions" else det.ratios), w if start == "fractions" else r, atol=1e-9)
        c.eq("broadening", [det.stailbroadening, det.ltailbroadening], tb, atol=1e-9)
        c.eq("slopes", [det.stailslope_ratio, det.ltailslope_ratio], slopes, atol=1e-9)


@contract("C28", functions=LINE[:1], builtins=B)
def independent_lines(c):
    """the profile of each line and energy does not depend on the others"""
    flags = c.choice("components", [(1, 0, 0, 1), (1, 1, 0, 0)])
    if c.choice("parameters", ["fractions", "pymca"]) == "fractions":
        p = dict(zip(("bpeak", "bstail", "bltail", "bstep"), map(bool, flags)))
        p.update(zip(("stailfraction", "ltailfraction", "stepfraction"), fractions(c)))
        p.update(stailbroadening=c.pos("stb", 0.5, 5), ltailbroadening=c.pos("ltb", 0.5, 5))
        det = detector(c, shape_fixedarearatios=p)
    else:
        p, _, _ = pymca(c, flags)
        det = detector(c, shape_pymca=p)
    xs, us = lines(c, two=True)
    varying(c, det, us)
    normalization(c, det)
    with special(c):
        y = det.lineprofile(c.obj(*xs), c.obj(*us))
        c.eq("shape", list(y.shape), [2, 2])
        for i, x in enumerate(xs):
            for j, u in enumerate(us):
                c.eq("alone", y[i, j], det.lineprofile(c.obj(x), c.obj(u))[0, 0], atol=1e-12)


@contract("C28", functions=LINE[:1] + [F + x for x in ("_fcalc_fractions", "_fcalc_ratios", "_fcalc_fractions_single", "_fcalc_ratios_single")] + ["math/linalg.py:cramer"], builtins=B, split=2)
def other_normalization(c):
    """profiles which are normalized with PyMca parameters, or to the peak area with fractions"""
    fixed = c.choice("parameters", ["fractions", "pymca"])
    if fixed == "fractions":
        w = fractions(c)
        c.assume(w[0] + w[1] + w[2] < 0.99)
        tb = [c.pos(n, 0.5, 5) for n in ("stb", "ltb")]
        p = dict(bpeak=True, bstail=True, bltail=True, bstep=True, stailbroadening=tb[0], ltailbroadening=tb[1], stailfraction=w[0], ltailfraction=w[1], stepfraction=w[2])
        det = detector(c, shape_fixedarearatios=p)
    else:
        p, r, slopes = pymca(c, (1, 1, 1, 1))
        det = detector(c, shape_pymca=p)
    xs, us = lines(c)
    var = varying(c, det, us)
    f = F_(c)
    normalization(c, det)
    with special(c):
        y = det.lineprofile(c.obj(*xs), c.obj(*us), normalized=fixed == "pymca", decomposed=True)
        for i, x in enumerate(xs):
            for j, u in enumerate(us):
                if fixed == "fractions":
                    slopes = [t * f.sqrt(var[j]) for t in tb]
                g, t, s = shapes(c, x, u, var[j], slopes)
                ga, ta, sa = norms_of(c, det, u, var[j], slopes)
                # area fractions relative to the one of the peak
                if fixed == "fractions":
                    wp = 1 - w[0] - w[1] - w[2]
                    want = [g] + [w[k] * t[k] for k in range(2)] + [w[2] * s]
                    norm = [ga] + [wp * ta[k] for k in range(2)] + [wp * sa]
                else:
                    area = [r[k] * ta[k] / slopes[k] for k in range(2)] + [r[2] * sa / ga]
                    n = 1 + area[0] + area[1] + area[2]
                    want = [g / ga] + [r[k] * t[k] / slopes[k] for k in range(2)] + [r[2] * s / ga]
                    norm = [n] * 4
                got = values(y, i, j)
                for k, name in enumerate(("peak", "short tail", "long tail", "step")):
                    c.eq(name, got[k] * norm[k], want[k], atol=1e-9)


def config():
    return {k: {} for k in ("detector", "peakshape", "fit", "attenuators", "concentrations")}


def setup_of(c, u):
    """energies of which the highest is u"""
    emin, emax = c.pos("emin", 0.2, 2), c.pos("emax", 3, 15)
    return types.SimpleNamespace(energy=[u], emin=emin, emax=emax)


@contract("C28", functions=[F + "addtopymca", F + "loadfrompymca"] + CONV, builtins=B, split=2)
def configuration(c):
    """parameters in a PyMca configuration"""
    start, u, det, w, tb, r, slopes, (ga, ta, sa) = convertible(c)
    stale = c.choice("conversion energy", ["none", "same", "other"])
    with special(c):
        if stale == "same":
            det.shape_conversionenergy = u
        elif stale == "other":
            det.shape_conversionenergy = c.pos("other", 20, 30)
        setup, cfg = setup_of(c, u), config()
        det.activearea = 0.5
        det.channellimits = lambda setup: (0, 100)
        det.addtopymca(setup, cfg)
        peak = cfg["peakshape"]
        got = [peak["st_arearatio"], peak["lt_arearatio"], peak["step_heightratio"]]
        if start == "fractions":
            wp = 1 - w[0] - w[1] - w[2]
            c.eq("tails", [got[k] * wp * ta[k] for k in range(2)], [w[k] * slopes[k] for k in range(2)], atol=1e-9)
            c.eq("step", got[2] * wp * sa, w[2] * ga, atol=1e-9)
        else:
            c.eq("ratios", got, r)
        c.eq("slopes", [peak["st_sloperatio"], peak["lt_sloperatio"]], slopes)
        cal = cfg["detector"]
        c.eq("calibration", [cal["zero"], cal["gain"], cal["noise"]], [0, 0.005, det.mcanoise])
        c.eq("fano", cal["fano"] * 3.85, det.mcafano * det.ehole.to("eV").magnitude)


def empty(kind):
    """detector with other parameters"""
    kw = dict(mcazero=1, mcagain=1, mcanoise=1, mcafano=1, ehole=1)
    if kind == "fractions":
        p = dict(bpeak=True, bstail=False, bltail=False, bstep=False, stailbroadening=1, ltailbroadening=1, stailfraction=0, ltailfraction=0, stepfraction=0)
        return X.XRFDetector(shape_fixedarearatios=p, **kw)
    return X.XRFDetector(**kw)


@contract("C28", functions=[F + "addtopymca", F + "loadfrompymca"] + CONV, builtins=B, split=2)
def configuration_back(c):
    """reading a PyMca configuration restores the detector"""
    start, u, det, w, tb, r, slopes, _ = convertible(c)
    flags = c.choice("components", [(1, 0, 1), (0, 1, 0), (1, 1, 1), (0, 0, 0), (0, 0, 1)])
    with special(c):
        det.bstail, det.bltail, det.bstep = map(bool, flags)
        setup, cfg = setup_of(c, u), config()
        det.activearea = 0.5
        det.channellimits = lambda setup: (0, 100)
        det.addtopymca(setup, cfg)
        new = empty(start)
        new.activearea, new.ehole = 0.2, det.ehole
        if c.symbolic:
            new.gaussianVAR, new._snorm, new._tnorm = det.gaussianVAR, det._snorm, det._tnorm
        new.loadfrompymca(setup, cfg)
        c.eq("components", [bool(x) for x in (new.bstail, new.bltail, new.bstep)], [bool(x) for x in flags])
        c.eq("kind", new.fixedarearatios, start == "fractions")
        c.eq("area", new.activearea.to("cm^2").magnitude, 0.5)
        c.eq("calibration", [new.mcazero, new.mcagain, new.mcanoise, new.mcafano], [0, 0.005, det.mcanoise, det.mcafano])
        c.eq("parameters", list(new.fractions if start == "fractions" else new.ratios), w if start == "fractions" else r, atol=1e-9)
        c.eq("broadening", [new.stailbroadening, new.ltailbroadening], tb, atol=1e-9)
        c.eq("slopes", [new.stailslope_ratio, new.ltailslope_ratio], slopes, atol=1e-9)


@contract("C28", functions=[F + "lineprofile", F + "_snorm", F + "_tnorm"], mode="bounded", bound="Simpson integration of 20 random detectors, one line", samples=20)
def numerical_areas(c):
    """areas under the curves"""
    from scipy.integrate import simpson

    w = fractions(c)
    p = dict(bpeak=True, bstail=True, bltail=True, bstep=True, stailbroadening=c.pos("stb", 0.5, 5), ltailbroadening=c.pos("ltb", 0.5, 5))
    p.update(zip(("stailfraction", "ltailfraction", "stepfraction"), w))
    det = detector(c, shape_fixedarearatios=p)
    u = c.pos("u", 0.05, 5)
    wide = 20 * det.gaussianFWHM(u)
    x = np.linspace(u - wide, u + wide, 20001)
    c.eq("peak", simpson(det.lineprofile(x, [u], decomposed=True)[0][:, 0], x=x), 1 - sum(w), rtol=1e-6)
    x = np.linspace(0, u + wide, 20001)
    y = det.lineprofile(x, [u], decomposed=True)
    for name, k, want in (("short tail", 1, w[0]), ("long tail", 2, w[1]), ("step", 3, w[2])):
        c.eq(name, simpson(y[k][:, 0], x=x), want, rtol=1e-4)
