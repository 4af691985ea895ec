"""C13 detector geometry and attenuation"""
import math
import numpy as np
from dv.engine import contract, bind
from dv import funcs

D = bind("spectrocrunch.detectors.base:")
G = bind("spectrocrunch.geometries.base:")
X = bind("spectrocrunch.geometries.xrf:")
FA = bind("spectrocrunch.geometries.flatarea:")
from spectrocrunch.utils import units

B = "detectors/base.py:"
GB = "geometries/base.py:"
GX = "geometries/xrf.py:"

PROPERTY = {
    "title": "Detector solid angle, sample geometry and filter attenuation are exact",
    "statement": "The solid angle of a centric detector is 2*pi*(1-d/sqrt(r^2+d^2)) and distance, active area and solid angle are each recovered from the other two; a motor position converts to a distance and back, and calibrating makes the current position correspond to the given distance, in any length unit. "
    "The angles with the surface normal and the scattering angle follow from the angles with the surface. "
    "Beam filters act on the incoming beam and detector filters (including the atmosphere) on the outgoing one; adding, removing or listing filters of one kind never touches another filter, and transmission, attenuation and detector efficiency are exp(-sum of absorbances), 1 minus that, and their product for every pair of energies.",
    "over": ["inputs"],
    "for_all": "all distances, areas, solid angles, angles, positions, units, sets of filters and energies",
    "why": "Tests use a handful of distances of one geometry and only serialize the filter containers.",
    "files": ["detectors/base.py", "geometries/base.py", "geometries/xrf.py", "geometries/flatarea.py"],
    "mechanism": [
        ("solid angle formula and inverses", "detectors/base.py: CentricCone.solidangle_calc; geometries/base.py: Centric"),
        ("motor position to distance", "geometries/xrf.py: LinearMotor._distancecalc, XRFGeometry.distance"),
        ("filter classification and transmission", "detectors/base.py: Material"),
    ],
}
META = {
    "level": "proof",
    "explanation": "distances, areas, angles, thicknesses and attenuation coefficients are unbounded symbolic reals; the set of filters is enumerated up to 4 entries of every kind.",
    "trusted": ["pint unit conversion is multiplication by a constant", "a material is any object with a density, an absorbance and a mass attenuation coefficient"],
    "assumptions": ["distances and areas are positive"],
}


def sqrt(c, x):
    return funcs.sqrt(x) if c.symbolic else math.sqrt(x)


def exp(c, x):
    return funcs.exp(x) if c.symbolic else math.exp(x)


def mag(q, u):
    return q.to(u).magnitude


class Mat(object):
    """any material: an arbitrary mass attenuation coefficient for every energy"""

    def __init__(self, c, name, n):
        self.name = name
        self.density = c.pos("rho" + name, 0.1, 3)
        self.mu = [c.real("mu%s%d" % (name, i), 0.1, 1) for i in range(n)]

    def mass_att_coeff(self, energy):
        e = np.asarray(energy, dtype=int)
        out = np.empty(e.shape, dtype=object)
        for k, i in np.ndenumerate(e):
            out[k] = self.mu[int(i)]
        if not _issym(self.mu[0]):
            out = out.astype(float)
        return out[()] if out.ndim == 0 else out

    def absorbance(self, energy, thickness):
        return self.mass_att_coeff(energy) * (thickness * self.density)


def _issym(x):
    return not isinstance(x, (int, float))


class Dummy(object):
    pass


@contract("C13", functions=[B + "CentricCone.solidangle_calc"])
def solidangle_formula(c):
    """solid angle of an on-axis disk, in whatever units"""
    lu = c.choice("length", ["cm", "mm"])
    au = c.choice("area", ["cm^2", "mm^2"])
    d, A = c.pos("d", 0.5, 8), c.pos("A", 0.1, 3)
    f = {"cm": 1, "mm": 10}[lu]
    fa = {"cm^2": 1, "mm^2": 100}[au]
    sa = D.CentricCone.solidangle_calc(activearea=units.Quantity(A * fa, au), distance=units.Quantity(d * f, lu))
    c.eq("solid angle", sa, 2 * np.pi * (1 - d / sqrt(c, A / np.pi + d * d)))
    c.holds("0<sa<2pi", [sa > 0, sa < 2 * np.pi])


@contract("C13", functions=[B + "CentricCone.solidangle_calc"])
def solidangle_inverse(c):
    """distance from area and solid angle; area from distance and solid angle"""
    d, A = c.pos("d", 0.5, 8), c.pos("A", 0.1, 3)
    f = D.CentricCone.solidangle_calc
    qA, qd = units.Quantity(A, "cm^2"), units.Quantity(d, "cm")
    sa = f(activearea=qA, distance=qd)
    c.eq("area", mag(f(distance=qd, solidangle=sa), "cm^2"), A, rtol=1e-6)
    d2 = mag(f(activearea=qA, solidangle=sa), "cm")
    c.eq("distance", d2 * d2, d * d, rtol=1e-6)
    c.holds("distance sign", d2 > 0)


@contract("C13", functions=[B + "CentricCone.solidangle_calc"])
def solidangle_given(c):
    """distance and area giving a chosen solid angle"""
    d, A = c.pos("d", 0.5, 8), c.pos("A", 0.1, 3)
    sa = c.real("sa", 0.1, 6, lo_open=True)
    c.assume(sa < 2 * np.pi)
    f = D.CentricCone.solidangle_calc
    qA, qd = units.Quantity(A, "cm^2"), units.Quantity(d, "cm")
    t = 1 - sa / (2 * np.pi)
    A2 = mag(f(distance=qd, solidangle=sa), "cm^2")
    c.eq("cos^2 from area", t * t * (A2 / np.pi + d * d), d * d)
    d2 = mag(f(activearea=qA, solidangle=sa), "cm")
    c.eq("cos^2 from distance", t * t * (A / np.pi + d2 * d2), d2 * d2)
    c.raises("overdetermined", RuntimeError, lambda: f(activearea=qA, distance=qd, solidangle=sa))


def xdet(c, A, au="cm^2"):
    det = D.CentricCone(ehole=3.6, activearea=units.Quantity(A, au))
    return det


@contract("C13", functions=[GB + "Centric.solidangle", GB + "Centric.distance", GX + "XRFGeometry.distance", GX + "XRFGeometry.distance_rv", GX + "LinearMotor.__call__", GX + "LinearXRFGeometry.detectorposition"])
def geometry_solidangle(c):
    """setting the solid angle of a geometry changes the distance such that the solid angle is the requested one"""
    kind = c.choice("kind", ["centric", "xrf", "linear"])
    A = c.pos("A", 0.1, 3)
    sa = c.real("sa", 0.1, 6)
    c.assume(sa < 2 * np.pi)
    if kind == "centric":
        g = G.Centric(distance=4, detector=xdet(c, A))
    elif kind == "xrf":
        g = X.factory("XRFGeometry", distance=4, detector=xdet(c, A))
    else:
        z, p = c.real("zero", -5, 5), c.real("pos", -5, 5)
        sign = c.choice("sign", [1, -1])
        g = X.factory("LinearXRFGeometry", zerodistance=z, detectorposition=p, positionunits="mm", positionsign=sign, detector=xdet(c, A))
    d = c.pos("d", 0.5, 8)
    g.distance = d
    c.eq("distance", mag(g.distance, "cm"), d)
    c.eq("solid angle", g.solidangle, 2 * np.pi * (1 - d / sqrt(c, A / np.pi + d * d)))
    g.solidangle = sa
    d2 = mag(g.distance, "cm")
    t = 1 - sa / (2 * np.pi)
    c.eq("cos^2", t * t * (A / np.pi + d2 * d2), d2 * d2)
    c.holds("positive", d2 > 0)


@contract("C13", functions=[GX + "LinearMotor._distancecalc", GX + "LinearMotor.__call__", GX + "LinearMotor.calibrate_manually", GX + "XRFGeometry.calibrate_distance_manually", GX + "LinearXRFGeometry.detectorposition", GX + "LinearXRFGeometry.zerodistance"])
def linear_motor(c):
    """distance = sign*(position+zero), inverse, calibration"""
    u = c.choice("units", ["mm", "cm", "um"])
    sign = c.choice("sign", [1, -1])
    f = {"mm": 10, "cm": 1, "um": 10000}[u]
    z, p, d, d2 = c.real("zero", -5, 5), c.real("pos", -5, 5), c.real("d", 0.5, 5), c.real("d2", 0.5, 5)
    g = X.factory("LinearXRFGeometry", zerodistance=z * f, detectorposition=p * f, positionunits=u, positionsign=sign)
    c.eq("distance", mag(g.distance, "cm"), sign * (p + z))
    g.detectorposition = d * f
    c.eq("distance after move", mag(g.distance, "mm"), sign * (d + z) * 10)
    g.detectorposition = units.Quantity(p * 10, "mm")
    c.eq("position in its own units", g.detectorposition.magnitude, p * f)
    g.distance = d
    c.eq("distance set", mag(g.distance, "cm"), d)
    c.eq("position for distance", mag(g.detectorposition, "cm"), sign * d - z)
    g.distance = units.Quantity(d2 * 10, "mm")
    c.eq("distance set with units", mag(g.distance, "cm"), d2)
    p0 = g.detectorposition
    how = c.choice("calib", ["calibrate_manually", "calibrate_distance_manually"])
    getattr(g, how)(c.choice("quant", [d, units.Quantity(d * 10, "mm")]))
    c.eq("calibrated", mag(g.distance, "cm"), d)
    c.eq("position not moved", mag(g.detectorposition, "cm"), mag(p0, "cm"))
    # the calibration is kept at other positions
    g.detectorposition = units.Quantity(p, "cm")
    c.eq("after calibration", mag(g.distance, "cm"), d + sign * (p - mag(p0, "cm")))


@contract("C13", functions=[GB + "FlatSample.anglenormin", GB + "FlatSample.anglenormout", GB + "FlatSample.cosnormin", GB + "FlatSample.cosnormout", GB + "FlatSample.scatteringangle", GB + "FlatSample.reflection", GB + "FlatSample.xrayspectrumkwargs"])
def angles(c):
    """angles with the surface normal (pointing inwards) and the scattering angle"""
    kind = c.choice("kind", ["flat", "solid", "centric", "xrf"])
    ai, ao, az = c.real("ai", 1, 90), c.real("ao", -90, 90), c.real("az", 0, 360)
    kw = dict(anglein=ai, angleout=ao, detector_azimuth=az)
    g = {
        "flat": lambda: G.FlatSample(**kw),
        "solid": lambda: G.SolidAngle(solidangle=1, **kw),
        "centric": lambda: G.Centric(distance=2, **kw),
        "xrf": lambda: X.factory("LinearXRFGeometry", detectorposition=0, zerodistance=1, positionunits="mm", **kw),
    }[kind]()
    c.eq("normal in", g.anglenormin, 90 - ai)
    c.eq("normal out", g.anglenormout, 90 + ao)
    c.eq("scattering", g.scatteringangle, ai + ao)
    c.eq("polar", g.polar, ai + ao)
    cos = funcs.cos if c.symbolic else math.cos
    sin = funcs.sin if c.symbolic else math.sin
    rad = funcs.radians if c.symbolic else math.radians
    c.eq("cos in", g.cosnormin, sin(rad(ai)))
    c.eq("cos out", g.cosnormout, -sin(rad(ao)))
    c.holds("reflection", bool(g.reflection) == bool(ao > 0))
    kws = g.xrayspectrumkwargs()
    c.eq("kwargs", [kws["polar"], kws["azimuth"]], [rad(ai + ao), rad(az)])
    ni, no = c.real("ni", 0, 89), c.real("no", 0, 180)
    g.anglenormin = ni
    g.anglenormout = no
    c.eq("set normal in", [g.anglein, g.anglenormin], [90 - ni, ni])
    c.eq("set normal out", [g.angleout, g.anglenormout], [no - 90, no])


NAMES = ["BeamFilter0", "beamfilter3", "BeamFilterX", "Window", "Detector", "Atmosphere"]
BEAM = {"BeamFilter0", "beamfilter3"}


def filters(c, n=2, mask=None):
    det = D.SolidState(ehole=3.6)
    if mask is None:
        mask = c.choice("filters", list(range(0, 64)))
    mats = {}
    for i, nm in enumerate(NAMES):
        if mask & (1 << i):
            m = Mat(c, nm, n)
            th = c.pos("th" + nm, 0.01, 1)
            mats[nm] = (m, th)
            if nm in ("Detector", "Atmosphere", "Window"):
                det.addattenuator(nm, m, th)
            elif nm in BEAM:
                det.addbeamfilter(nm, m, th)
            else:
                det.adddetectorfilter(nm, m, th)
    return det, mats


@contract("C13", functions=[B + "Material.isbeamfilter", B + "Material.isdetectorfilter", B + "Material.beamfilters", B + "Material.detectorfilters", B + "Material.addbeamfilter", B + "Material.adddetectorfilter"], split=6)
def filter_kinds(c):
    """every filter is listed exactly once under the right kind"""
    det, mats = filters(c, 1)
    beam = {k for k in mats if k in BEAM}
    rest = {k for k in mats if k not in BEAM and k not in ("Detector", "Atmosphere")}
    atm = {k for k in mats if k == "Atmosphere"}

    def names(lst):
        out = []
        for a in lst:
            out.extend(k for k, v in mats.items() if v[0] is a["material"])
        return sorted(out)

    c.holds("beam filters", names(det.beamfilters()) == sorted(beam))
    c.holds("beam filters with atmosphere", names(det.beamfilters(include_atmosphere=True)) == sorted(beam | atm))
    c.holds("detector filters", names(det.detectorfilters()) == sorted(rest | atm))
    c.holds("detector filters without atmosphere", names(det.detectorfilters(include_atmosphere=False)) == sorted(rest))
    c.holds("has material", det.hasmaterial == ("Detector" in mats))
    c.raises("not a beam filter", ValueError, lambda: det.addbeamfilter("Window2", None, 1))
    c.raises("is a beam filter", ValueError, lambda: det.adddetectorfilter("BeamFilter7", None, 1))
    c.holds("nothing lost", sorted(det.attenuators) == sorted(mats))


@contract("C13", functions=[B + "Material.nextbeamfilter", B + "Material.addbeamfilter", B + "Material.addsamplecover", B + "Material.removebeamfilters", B + "Material.removedetectorfilters", B + "Material.removeattenuator"], split=6)
def filter_history(c):
    """adding unnamed filters keeps all others, removing a kind keeps the others"""
    det, mats = filters(c, 1)
    new = Mat(c, "new", 1)
    th = c.pos("thnew", 0.01, 1)
    before = dict(det.attenuators)
    op = c.choice("op", ["beam", "cover", "rmbeam", "rmdet", "rmdetonly"])
    after = det.attenuators
    if op in ("beam", "cover"):
        if op == "beam":
            det.addbeamfilter(None, new, th)
        else:
            det.addsamplecover("Cover", new, th)
        det.addbeamfilter("", new, th)
        after = det.attenuators
        c.holds("others untouched", all(after.get(k) is v for k, v in before.items()))
        c.holds("count", len(after) == len(before) + (2 if op == "beam" else 3))
        added = [v for k, v in after.items() if k not in before]
        c.holds("added", all(v["material"] is new for v in added))
        c.eq("thickness", [v["thickness"] for v in added], [th] * len(added))
        c.holds("beam", sum(1 for v in det.beamfilters() if v["material"] is new) == 2)
        c.holds("cover", sum(1 for v in det.detectorfilters() if v["material"] is new) == (1 if op == "cover" else 0))
    else:
        atm = "Atmosphere"
        if op == "rmbeam":
            det.removebeamfilters()
            keep = {k for k in mats if k not in BEAM}
        elif op == "rmdet":
            det.removedetectorfilters()
            keep = {k for k in mats if k in BEAM or k == "Detector"}
        else:
            det.removedetectorfilters(include_atmosphere=False)
            keep = {k for k in mats if k in BEAM or k in ("Detector", atm)}
        c.holds("kept", set(det.attenuators) == keep)
        c.holds("unchanged", all(det.attenuators[k] is before[k] for k in keep))


@contract("C13", functions=[B + "Material.filter_absorbance", B + "Material.filter_transmission", B + "Material.filter_attenuation", B + "Material.absorbance", B + "Material.transmission", B + "Material.attenuation", B + "Material.efficiency"], split=6)
def attenuation(c):
    """transmission, attenuation and efficiency"""
    mask = c.choice("mask", [0, 0b000001, 0b000011, 0b001000, 0b010000, 0b100000, 0b011011, 0b111000, 0b110101, 0b111111])
    det, mats = filters(c, 3, mask)
    es, ed = np.array([0, 1]), np.array([2, 1, 0])

    def absb(names, i):
        tot = 0
        for k in names:
            m, th = mats[k]
            tot = tot + m.mu[i] * m.density * th
        return tot

    beam = [k for k in mats if k in BEAM]
    rest = [k for k in mats if k not in BEAM and k != "Detector"]
    c.eq("beam absorbance", list(det.filter_absorbance(es, source=True)), [absb(beam, i) for i in es])
    c.eq("detector absorbance", list(det.filter_absorbance(ed)), [absb(rest, i) for i in ed])
    T0 = [exp(c, -absb(beam, i)) for i in es]
    T1 = [exp(c, -absb(rest, i)) for i in ed]
    c.eq("beam transmission", list(det.filter_transmission(es, source=True)), T0)
    c.eq("detector attenuation", list(det.filter_attenuation(ed)), [1 - t for t in T1])
    if "Detector" in mats:
        A = [1 - exp(c, -absb(["Detector"], i)) for i in ed]
        c.eq("material", list(det.attenuation(ed)), A)
        c.eq("material transmission", list(det.transmission(ed)), [1 - a for a in A])
    else:
        A = [1, 1, 1]
    eff = det.efficiency(es, ed)
    c.holds("shape", np.shape(eff) == (2, 3))
    for i in range(2):
        c.eq("efficiency%d" % i, [eff[i, j] for j in range(3)], [T0[i] * T1[j] * A[j] for j in range(3)])
    eff = det.efficiency(es, ed, withdetectorattenuation=False)
    for i in range(2):
        c.eq("without%d" % i, [eff[i, j] for j in range(3)], [T0[i] * T1[j] for j in range(3)])


@contract("C13", functions=[B + "Material.attenuators"])
def atmosphere(c):
    """the atmosphere between sample and detector attenuates the outgoing beam over the sample-detector distance"""
    m, w = Mat(c, "air", 1), Mat(c, "win", 1)
    d, th, A = c.pos("d", 0.5, 8), c.pos("th", 0.01, 1), c.pos("A", 0.1, 3)
    det = D.CentricCone(ehole=3.6, activearea=A)
    det.adddetectorfilter("Window", w, units.Quantity(th * 10, "mm"))
    g = G.Centric(distance=units.Quantity(d * 10, "mm"), detector=det, atmosphere=m)
    T = det.filter_transmission(np.array([0]))
    c.eq("outgoing", list(T), [exp(c, -(m.mu[0] * m.density * d + w.mu[0] * w.density * th))])
    T = det.filter_transmission(np.array([0]), source=True)
    c.eq("incoming", list(T), [1])
    d2 = c.pos("d2", 0.5, 8)
    g.distance = d2
    T = det.filter_transmission(np.array([0]))
    c.eq("follows the distance", list(T), [exp(c, -(m.mu[0] * m.density * d2 + w.mu[0] * w.density * th))])
