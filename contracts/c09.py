"""C09 polarization states: Jones, Stokes, coherency and Mueller descriptions agree"""
import math
import numpy as np
from dv.engine import contract, bind
from dv import funcs

P = bind("spectrocrunch.sources.polarization:")
from spectrocrunch.patch.pint import ureg

F = "sources/polarization.py:"

PROPERTY = {
    "title": "Polarization states are described consistently in every representation",
    "statement": "Converting a beam between Jones, Stokes, coherency and parameter descriptions keeps intensity, degree and angle of polarization, handedness and (given the absolute phase) the state itself. "
    "Rotations and Jones matrices act on all representations in the same way, rotations compose additively and conserve intensity. "
    "Scattering a beam gives an intensity that follows the Thomson and Klein-Nishina formulas for every direction, polarization state and energy, and the angular distribution function equals the scattered over the incident intensity.",
    "over": ["inputs"],
    "for_all": "all Jones vectors (any complex components), all physical Stokes vectors, all angles and photon energies",
    "why": "Tests sample 20 random states and directions and compare representations pairwise; conventions at special states (circular, vertical, degenerate) and complex Jones matrices are not sampled.",
    "files": ["sources/polarization.py"],
    "mechanism": [
        ("coherency matrix conversions", "sources/polarization.py: Jones.coherency_matrix, Stokes.coherency_matrix, from_coherency_matrix"),
        ("rotation and Mueller matrices", "sources/polarization.py: MuellerMatrixRotation, jones_to_mueller, MuellerMatrixThomson, MuellerMatrixCompton"),
        ("angular distribution", "sources/polarization.py: Stokes.thomson_K, Stokes.compton_K"),
    ],
}
META = {
    "level": "proof",
    "explanation": "All Stokes/Jones components and angles are unbounded symbolic reals; trigonometric identities (angle addition, c^2+s^2=1, arctan2) are axioms applied by the ring normaliser.",
    "trusted": ["trigonometric and square-root axioms of dv/funcs.py", "pint unit conversion is multiplication by a constant"],
    "assumptions": ["physical states: S0 > 0 and S0^2 >= S1^2+S2^2+S3^2; non-zero Jones vectors"],
}


def tcos(c, x):
    return funcs.cos(x) if c.symbolic else math.cos(x)


def tsin(c, x):
    return funcs.sin(x) if c.symbolic else math.sin(x)


def rad(c, x):
    return funcs.radians(x) if c.symbolic else math.radians(x)


def stokes(c, tag="S", pol=False):
    s1, s2, s3 = (c.real(tag + k) for k in "123")
    p2 = s1 * s1 + s2 * s2 + s3 * s3
    s0 = c.pos(tag + "0")
    if c.symbolic:
        c.assume(s0 * s0 >= p2)
    else:
        s0 = math.sqrt(p2) + s0
    return P.Stokes(s0, s1, s2, s3), (s0, s1, s2, s3)


def jones(c, tag="V", both=False):
    a, b, d, e = (c.real(tag + k) for k in "abde")
    if both:
        c.assume(a * a + b * b > 0)
        c.assume(d * d + e * e > 0)
    else:
        c.assume(a * a + b * b + d * d + e * e > 0)
    if c.symbolic:
        from dv.sym import SComplex

        return P.Jones(SComplex(a, b), SComplex(d, e)), (a, b, d, e)
    return P.Jones(complex(a, b), complex(d, e)), (a, b, d, e)


def stokes_of(a, b, d, e):
    n0, n1 = a * a + b * b, d * d + e * e
    # V0 * conj(V1)
    re, im = a * d + b * e, b * d - a * e
    return [n0 + n1, n0 - n1, 2 * re, -2 * im]


@contract("C09", functions=[F + "Jones.to_stokes", F + "Jones.coherency_matrix", F + "Stokes._coherency_matrix_to_stokes"])
def jones_to_stokes(c):
    """the Stokes parameters of a Jones vector are the textbook ones and describe a fully polarized beam"""
    J, v = jones(c)
    S = J.to_stokes(silent=True)
    c.eq("stokes", list(S.to_numpy()), stokes_of(*v))
    c.eq("intensity", J.intensity, S.intensity)
    c.eq("dop", S.dop, 1)
    c.eq("sqnorm", J.sqnorm, v[0] ** 2 + v[1] ** 2 + v[2] ** 2 + v[3] ** 2)


@contract("C09", functions=[F + "Stokes.to_jones", F + "Jones._coherency_matrix_to_jones"])
def jones_roundtrip(c):
    """Jones -> Stokes -> Jones with the absolute phase is the identity"""
    J, v = jones(c, both=True)
    S = J.to_stokes(silent=True)
    J2 = S.to_jones(phase0=J.phase0)
    c.eq("V0", J2.to_numpy()[0], J.to_numpy()[0])
    c.eq("V1", J2.to_numpy()[1], J.to_numpy()[1])


@contract("C09", functions=[F + "Stokes.coherency_matrix", F + "Stokes.from_coherency_matrix"])
def stokes_coherency(c):
    """the coherency matrix of a Stokes vector is the textbook one and converts back"""
    S, (s0, s1, s2, s3) = stokes(c)
    C = S.coherency_matrix
    flat = [C[0, 0], C[0, 1], C[1, 0], C[1, 1]]
    if c.symbolic:
        from dv.sym import SComplex

        want = [SComplex((s0 + s1) / 2, 0), SComplex(s2 / 2, -s3 / 2), SComplex(s2 / 2, s3 / 2), SComplex((s0 - s1) / 2, 0)]
    else:
        want = [complex((s0 + s1) / 2, 0), complex(s2 / 2, -s3 / 2), complex(s2 / 2, s3 / 2), complex((s0 - s1) / 2, 0)]
    c.eq("C", flat, want)
    S2 = P.Stokes.from_coherency_matrix(C)
    c.eq("roundtrip", list(S2.to_numpy()), [s0, s1, s2, s3])


@contract("C09", functions=[F + "Stokes.decompose", F + "Stokes.dop", F + "Stokes.dolp", F + "Stokes.docp", F + "Stokes.hdolp", F + "Stokes.handedness", F + "Stokes.intensity_polarized", F + "Stokes.intensity_unpolarized"])
def degrees_of_polarization(c):
    """degrees of polarization, decomposition in polarized and unpolarized part"""
    S, (s0, s1, s2, s3) = stokes(c)
    c.eq("dop^2", S.dop**2 * s0 * s0, s1 * s1 + s2 * s2 + s3 * s3)
    c.eq("dolp^2", S.dolp**2 * s0 * s0, s1 * s1 + s2 * s2)
    c.eq("docp", S.docp * s0, s3)
    c.eq("hdolp", S.hdolp * s0, s1)
    c.holds("dop in [0,1]", [S.dop >= 0, S.dop <= 1 + (0 if c.symbolic else 1e-9)])
    h = S.handedness
    c.holds("handedness", (h == "left" and bool(s3 > 0)) or (h == "right" and bool(s3 < 0)) or (h == "none" and bool(s3 == 0)))
    d = S.decompose()
    pol, un = d["pol"].to_numpy(), d["unpol"].to_numpy()
    c.eq("sum", [pol[i] + un[i] for i in range(4)], [s0, s1, s2, s3])
    c.eq("pol is polarized", pol[0] * pol[0], pol[1] * pol[1] + pol[2] * pol[2] + pol[3] * pol[3])
    c.eq("unpol", list(un[1:]), [0, 0, 0])
    c.eq("intensities", S.intensity_polarized + S.intensity_unpolarized, S.intensity)
    c.eq("unpolarized intensity", S.intensity_unpolarized, d["unpol"].intensity)


@contract("C09", functions=[F + "Stokes.intensity", F + "Jones.intensity"])
def intensity_setter(c):
    """setting the intensity scales the state and keeps the other parameters"""
    S, (s0, s1, s2, s3) = stokes(c)
    I = c.pos("I")
    S.intensity = I
    c.eq("intensity", S.intensity, I)
    n = S.to_numpy()
    c.eq("direction", [n[1] * s0, n[2] * s0, n[3] * s0], [s1 * n[0], s2 * n[0], s3 * n[0]])
    J, v = jones(c)
    w = J.to_numpy().copy()
    J.intensity = I
    c.eq("jones intensity", J.intensity, I)
    u = J.to_numpy()
    c.eq("jones direction", u[0] * w[1], u[1] * w[0])


@contract("C09", functions=[F + "Stokes.to_params", F + "Stokes.from_params", F + "Stokes.polangle"])
def params_roundtrip(c):
    """Stokes -> parameters -> Stokes is the identity"""
    S, (s0, s1, s2, s3) = stokes(c)
    c.assume(s1 * s1 > 1e-6)
    c.assume(s2 * s2 > 1e-6)
    p = S.to_params()
    # float rounding of dop vs dolp is not part of the contract
    if not c.symbolic:
        p["dop"] = max(p["dop"], p["dolp"])
    S2 = P.Stokes.from_params(**p)
    c.eq("stokes", list(S2.to_numpy()), [s0, s1, s2, s3], atol=1e-5)


@contract("C09", functions=[F + "Jones.rotate", F + "Stokes.rotate", F + "MuellerMatrixRotation", F + "JonesMatrixRotation"])
def rotation(c):
    """rotations act alike on Jones and Stokes vectors, compose additively and conserve intensity"""
    a, b = c.real("a", margin=1), c.real("b")
    J, v = jones(c)
    S = J.to_stokes(silent=True)
    c.eq("jones vs stokes", list(J.rotate(a).to_stokes(silent=True).to_numpy()), list(S.rotate(a).to_numpy()))
    T, t = stokes(c, "T")
    c.eq("additive", list(T.rotate(a).rotate(b).to_numpy()), list(T.rotate(a + b).to_numpy()))
    c.eq("jones additive", list(J.rotate(a).rotate(b).to_numpy()), list(J.rotate(a + b).to_numpy()))
    r = T.rotate(a).to_numpy()
    c.eq("invariants", [r[0], r[3], r[1] ** 2 + r[2] ** 2], [t[0], t[3], t[1] ** 2 + t[2] ** 2])
    co, si = tcos(c, rad(c, 2 * a)), tsin(c, rad(c, 2 * a))
    c.eq("axes rotation", [r[1], r[2]], [co * t[1] + si * t[2], co * t[2] - si * t[1]])


@contract("C09", functions=[F + "Stokes.jones_to_mueller"])
def mueller_of_jones(c):
    """the Mueller matrix of a Jones matrix acts on Stokes vectors as the Jones matrix acts on Jones vectors"""
    J, v = jones(c)
    M = c.mat([[c.complex("m00"), c.complex("m01")], [c.complex("m10"), c.complex("m11")]])
    MM = P.Stokes.jones_to_mueller(M)
    out = M.dot(J.to_numpy())
    want = P.Jones(out[0], out[1]).to_stokes(silent=True).to_numpy()
    got = MM.dot(J.to_stokes(silent=True).to_numpy())
    c.eq("stokes", list(got), list(want) if not c.symbolic else list(want))


@contract("C09", functions=[F + "Jones.thomson_scattering", F + "Stokes.thomson_scattering", F + "MuellerMatrixThomson", F + "Stokes.thomson_K", F + "Stokes.thomson_intensity"])
def thomson(c):
    """Thomson scattering of a partially polarized beam: intensity formula and angular distribution"""
    S, (s0, s1, s2, s3) = stokes(c)
    az, po = c.real("az"), c.real("po")
    out = S.thomson_scattering(az, po).to_numpy()
    cp = tcos(c, rad(c, po))
    c2, sn2 = tcos(c, rad(c, 2 * az)), tsin(c, rad(c, 2 * az))
    want = s0 * (1 + cp * cp) / 2 - (1 - cp * cp) / 2 * (s1 * c2 + s2 * sn2)
    c.eq("intensity", out[0], want)
    c.eq("V parameter", out[3], s3 * cp)
    c.eq("K", S.thomson_K(rad(c, az), rad(c, po)) * s0, want)
    c.eq("thomson_intensity", S.thomson_intensity(az, po) * s0, S.intensity * want)
    c.le("physical", out[1] ** 2 + out[2] ** 2 + out[3] ** 2, out[0] ** 2)


@contract("C09", functions=[F + "Jones.thomson_scattering", F + "JonesMatrixThomson", F + "ThomsonRotationAngle"])
def thomson_jones(c):
    """Thomson scattering acts alike on Jones and Stokes vectors"""
    J, v = jones(c, both=True)
    az, po = 90, c.real("po")
    S = J.to_stokes(silent=True)
    J2 = J.thomson_scattering(az, po)
    c.eq("stokes", list(J2.to_stokes(silent=True).to_numpy()), list(S.thomson_scattering(az, po).to_numpy()))


@contract("C09", functions=[F + "Stokes.thomson_scattering", F + "ThomsonRotationAngle"], timeout=60)
def thomson_covariance(c):
    """scattering in azimuth az is scattering at 90 degrees after rotating the axes by az - 90"""
    az, po = c.real("az"), c.real("po")
    T, t = stokes(c, "T")
    c.eq("stokes", list(T.thomson_scattering(az, po).to_numpy()), list(T.rotate(az - 90).thomson_scattering(90, po).to_numpy()))


@contract("C09", mode="bounded", bound="random states and angles", functions=[F + "Jones.thomson_scattering"])
def thomson_covariance_jones(c):
    """Jones vectors: scattering in azimuth az is scattering at 90 degrees after rotation; agrees with Stokes"""
    J, v = jones(c, both=True)
    az, po = c.real("az", 0, 360), c.real("po", 0, 180)
    c.assume(abs(po - 90) > 1)
    J1 = J.thomson_scattering(az, po)
    c.eq("jones", list(J1.to_numpy()), list(J.rotate(az - 90).thomson_scattering(90, po).to_numpy()))
    c.eq("stokes", list(J1.to_stokes(silent=True).to_numpy()), list(J.to_stokes(silent=True).thomson_scattering(az, po).to_numpy()))


@contract("C09", functions=[F + "Stokes.compton_scattering", F + "MuellerMatrixCompton", F + "Stokes.compton_K", F + "Stokes.compton_intensity"])
def compton(c):
    """Compton scattering follows the Klein-Nishina formula"""
    S, (s0, s1, s2, s3) = stokes(c)
    az, po, E = c.real("az"), c.real("po"), c.pos("E")
    k = ureg.Quantity(E, "keV").to("m_e*c^2").magnitude
    out = S.compton_scattering(az, po, E).to_numpy()
    cp = tcos(c, rad(c, po))
    c2, sn2 = tcos(c, rad(c, 2 * az)), tsin(c, rad(c, 2 * az))
    ks = k / (1 + k * (1 - cp))
    r = ks / k
    # Klein-Nishina: r^2/2 (r + 1/r - sin^2) for unpolarized light
    want = r * r * (s0 * (r + 1 / r - (1 - cp * cp)) / 2 - (1 - cp * cp) / 2 * (s1 * c2 + s2 * sn2))
    c.eq("intensity", out[0], want)
    c.eq("K", S.compton_K(E)(rad(c, az), rad(c, po)) * s0, want)
    c.eq("compton_intensity", S.compton_intensity(az, po, E) * s0, S.intensity * want)
    c.eq("V parameter", out[3], r * r * s3 * cp * (1 + (k - ks) * (1 - cp) / 2))


@contract("C09", mode="bounded", bound="random energies", functions=[F + "kev_to_mc2", F + "jonesnormsq_to_intensity"], samples=60)
def constants(c):
    """physical constants: electron rest energy and vacuum impedance"""
    E = c.real("E", 1, 200)
    S = P.Stokes(1.0, 0, 0, 0)
    k = E / 510.99895
    # backscattering of unpolarized light
    r = 1 / (1 + 2 * k)
    c.eq("backscatter", S.compton_K(E)(0.3, math.pi), r * r * (r + 1 / r) / 2, rtol=1e-5)
    c.eq("intensity", S.intensity, 0.5 * 8.8541878128e-12 * 299792458.0, rtol=1e-6, atol=0)
    c.eq("inverse", P.Stokes.from_params(intensity=E, dop=0.5, dolp=0.2, polangle=10, handedness="left").intensity, E)
