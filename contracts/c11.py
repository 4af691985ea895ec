"""C11 composition of compounds and mixtures"""
import numpy as np
from dv.engine import contract, bind

CP = bind("spectrocrunch.materials.compound:")
MX = bind("spectrocrunch.materials.mixture:")
EL = bind("spectrocrunch.materials.element:")
FO = bind("spectrocrunch.materials.compoundfromformula:")
from spectrocrunch.materials import types

FC, FM, FB = "materials/compound.py:Compound.", "materials/mixture.py:Mixture.", "materials/multielementbase.py:MultiElementBase."
MOD = ("spectrocrunch.materials.compound", "spectrocrunch.materials.mixture", "spectrocrunch.materials.stoichiometry")

PROPERTY = {
    "title": "Compounds and mixtures keep a consistent composition",
    "statement": "Whatever kind of fraction a compound or mixture is built from, modified with or extended by, its equivalents, mole, mass and volume fractions describe one and the same composition, duplicates are merged, a newly set fraction is honoured and the mutual ratios of the untouched parts are kept. "
    "The elemental composition, molar mass and density of a mixture follow from its compounds, and converting it to a compound preserves them. "
    "A cross section is the mass-fraction weighted sum over the elements, decomposed or not, and non-scattering parts contribute nothing to scattering.",
    "over": ["inputs", "histories"],
    "for_all": "all positive fractions and densities, all orders of adding and modifying parts, all elemental cross sections",
    "why": "Tests use a few fixed oxides; rebalancing, duplicate elements, unnormalized input and non-scattering parts are not sampled.",
    "files": ["materials/compound.py", "materials/mixture.py", "materials/multielementbase.py", "materials/compoundfromformula.py"],
    "mechanism": [
        ("composition dictionaries", "materials/compound.py: Compound._compose_elements; materials/mixture.py: Mixture._compose_compounds"),
        ("rebalancing", "materials/multielementbase.py: MultiElementBase.setfraction"),
        ("cross sections", "materials/compound.py: Compound._crosssection; materials/mixture.py: Mixture._crosssection"),
    ],
}
META = {
    "level": "proof",
    "explanation": "fractions, densities and cross sections are symbolic; the number of parts is enumerated (up to 3 elements per compound and 3 compounds per mixture).",
    "trusted": ["atomic weights from xraylib", "float constants (atomic weights) compared up to 1e-11"],
    "assumptions": ["strictly positive fractions and densities"],
}

FR = types.fraction


def num(d):
    return {str(k): v for k, v in d.items()}


def masses(els):
    return {str(e): EL.Element(e).MM for e in els}


def total(vals):
    r = 0
    for v in vals:
        r = r + v
    return r


def share(amounts):
    s = total(amounts.values())
    return {k: v / s for k, v in amounts.items()}


SETS = [["Fe"], ["Fe", "O"], ["O", "Fe", "Ca"]]


@contract("C11", functions=[FC + x for x in ("__init__", "_compose_elements", "equivalents", "molefractions", "massfractions", "fractions", "molarmass", "molarmasseff", "Zeff", "elemental_massfractions", "elemental_molefractions", "elemental_equivalents")], builtins=MOD)
def compound_fractions(c):
    """all descriptions of a compound agree"""
    els = c.choice("elements", SETS)
    ft = c.choice("type", ["mole", "mass"])
    x = [c.pos("x%d" % i, 0.1, 3) for i in range(len(els))]
    C = CP.Compound(els, x, getattr(FR, ft), density=c.pos("rho", 0.5, 5), name="c")
    MM = masses(els)
    amount = {e: (v if ft == "mole" else v / MM[e]) for e, v in zip(els, x)}
    n = share(amount)
    w = share({e: amount[e] * MM[e] for e in els})
    if ft == "mole":
        c.eq("equivalents", num(C.equivalents()), amount)
        c.eq("molar mass", C.molarmass(), total(amount[e] * MM[e] for e in els))
    c.eq("mole", num(C.molefractions()), n)
    c.eq("mass", num(C.massfractions()), w)
    c.eq("fractions mole", num(C.fractions(FR.mole)), n)
    c.eq("fractions mass", num(C.fractions(FR.mass)), w)
    c.eq("effective molar mass", C.molarmasseff(), total(n[e] * MM[e] for e in els))
    c.eq("Zeff", C.Zeff, total(n[e] * EL.Element(e).Z for e in els))
    c.eq("elemental", [num(C.elemental_massfractions()), num(C.elemental_molefractions())], [w, n])
    c.eq("n elements", C.nelements, len(els))
    c.raises("volume", ValueError, lambda: CP.Compound(els, x, FR.volume))
    c.raises("volume fractions", ValueError, lambda: C.fractions(FR.volume))
    # asking for a description does not change the composition
    c.eq("stable", num(C.molefractions()), n)


@contract("C11", functions=[FC + "_compose_elements"], builtins=MOD)
def duplicates(c):
    """an element that is given twice counts once with the sum"""
    els = c.choice("elements", [["O", "Fe", "O"], ["O", "O"], ["O", "Fe", "O", "Fe"]])
    ft = c.choice("type", ["mole", "mass"])
    x = [c.pos("x%d" % i, 0.1, 3) for i in range(len(els))]
    C = CP.Compound(els, x, getattr(FR, ft), density=1, name="c")
    amount = {}
    for e, v in zip(els, x):
        amount[e] = amount.get(e, 0) + v
    c.eq("merged", num(C.fractions(getattr(FR, ft))), share(amount))


@contract("C11", functions=[FC + "addelements", "materials/stoichiometry.py:add_frac"], builtins=MOD)
def add_elements(c):
    """a new element gets the requested fraction, the others keep their ratios"""
    els = c.choice("elements", SETS)
    new = c.choice("new", ["Si", "Fe"])
    ft = getattr(FR, c.choice("type", ["mole", "mass"]))
    x = [c.pos("x%d" % i, 0.1, 3) for i in range(len(els))]
    f = c.real("f", 0.05, 0.9)
    C = CP.Compound(els, x, FR.mole, density=c.pos("rho", 0.5, 5), name="c")
    before = num(C.fractions(ft))
    arg = c.choice("arg", ["scalar", "list"])
    rho = c.choice("newdensity", [None, 3.5])
    rho0 = C.density
    C.addelements(new if arg == "scalar" else [new], f if arg == "scalar" else [f], ft, density=rho)
    want = {k: v * (1 - f) for k, v in before.items()}
    want[new] = want.get(new, 0) + f
    c.eq("fractions", num(C.fractions(ft)), want)
    c.eq("density", C.density, rho0 if rho is None else rho)
    if ft == FR.mole:
        c.eq("total amount", total(C.equivalents().values()), total(x))
    c.raises("too much", ValueError, lambda: C.addelements(["Si", "Al"], [f, 1 - f / 2], ft))


@contract("C11", functions=[FB + "setfraction", FB + "setmassfraction", FB + "setmolefraction", FC + "change_fractions"], builtins=MOD + ("spectrocrunch.materials.multielementbase",))
def compound_setfraction(c):
    """a fraction that is set is honoured; the other parts share the rest in unchanged ratios"""
    els = c.choice("elements", SETS[1:])
    which = c.choice("which", [["Fe"], ["O"], ["Fe", "O"]])
    if len(which) == len(els) and len(which) > 1:
        return
    ft = c.choice("type", ["mole", "mass"])
    x = [c.pos("x%d" % i, 0.1, 3) for i in range(len(els))]
    C = CP.Compound(els, x, FR.mole, density=1, name="c")
    before = num(C.fractions(getattr(FR, ft)))
    v = [c.real("f%d" % i, 0.05, 0.4) for i in range(len(which))]
    arg = which[0] if len(which) == 1 and c.choice("arg", ["string", "list"]) == "string" else which
    val = v[0] if arg == which[0] else v
    if ft == "mole":
        C.setmolefraction(arg, val)
    else:
        C.setmassfraction(arg, val)
    after = num(C.fractions(getattr(FR, ft)))
    want = dict(zip(which, v))
    others = {k: b for k, b in before.items() if k not in which}
    s = total(others.values())
    for k, b in others.items():
        want[k] = b / s * (1 - total(v))
    c.eq("fractions", after, want)
    c.raises("unknown part", RuntimeError, lambda: C.setmolefraction("Xe", 0.1))


def compounds(c, n):
    a = [c.pos("a%d" % i, 0.5, 4) for i in range(3)]
    rho = [c.pos("rho%d" % i, 0.5, 6) for i in range(3)]
    lst = [
        CP.Compound(["Fe", "O"], [a[0], 3], FR.mole, density=rho[0], name="A"),
        CP.Compound(["O", "Ca"], [a[1], 1], FR.mole, density=rho[1], name="B"),
        CP.Compound(["Si"], [a[2]], FR.mole, density=rho[2], name="C"),
    ]
    comp = [{"Fe": a[0], "O": 3}, {"O": a[1], "Ca": 1}, {"Si": a[2]}]
    if c.symbolic:
        # any atomic weights
        for C in lst:
            for e in C.elements:
                e.MM = ALLMM[str(e)] = c.pos("MM" + str(e), 1, 100)
    else:
        ALLMM.update(masses(["Fe", "O", "Ca", "Si"]))
    return lst[:n], comp[:n], rho[:n]


ALLMM = {}


def mm(comp):
    return total(v * ALLMM[k] for k, v in comp.items())


@contract("C11", functions=[FM + x for x in ("__init__", "_compose_compounds", "equivalents", "molefractions", "massfractions", "volumefractions", "fractions", "density", "molarmass", "elemental_massfractions", "elemental_molefractions", "elemental_equivalents", "Zeff", "molarmasseff", "tocompound")], builtins=MOD, split=3)
def mixture_fractions(c):
    """all descriptions of a mixture agree, also on the elemental level"""
    ft = c.choice("type", ["mole", "mass", "volume"])
    n = c.choice("n", [1, 2])
    lst, comp, rho = compounds(c, n)
    x = [c.pos("x%d" % i, 0.1, 3) for i in range(n)]
    M = MX.Mixture(lst, x, getattr(FR, ft), name="m")
    moles = {"ABC"[i]: x[i] if ft == "mole" else (x[i] / mm(comp[i]) if ft == "mass" else x[i] * rho[i] / mm(comp[i])) for i in range(n)}
    keys = list(moles)
    mass = {k: moles[k] * mm(comp[i]) for i, k in enumerate(keys)}
    vol = {k: mass[k] / rho[i] for i, k in enumerate(keys)}
    c.eq("mole", num(M.molefractions()), share(moles))
    c.eq("mass", num(M.massfractions()), share(mass))
    c.eq("volume", num(M.volumefractions()), share(vol))
    c.eq("fractions", [num(M.fractions(getattr(FR, k))) for k in ("mole", "mass", "volume")], [share(moles), share(mass), share(vol)])
    c.eq("density", M.density * total(vol.values()), total(mass.values()))
    if ft == "mole":
        c.eq("equivalents", num(M.equivalents()), moles)
    atoms = {}
    for i, k in enumerate(keys):
        for e, v in comp[i].items():
            atoms[e] = atoms.get(e, 0) + moles[k] * v
    c.eq("elemental mole", num(M.elemental_molefractions()), share(atoms))
    c.eq("elemental mass", num(M.elemental_massfractions()), share({e: v * ALLMM[e] for e, v in atoms.items()}))
    if ft == "mole":
        c.eq("elemental equivalents", num(M.elemental_equivalents()), atoms)
        c.eq("molar mass", M.molarmass(), total(v * ALLMM[e] for e, v in atoms.items()))
    tot = total(atoms.values())
    c.eq("Zeff", M.Zeff * tot, total(v * EL.Element(e).Z for e, v in atoms.items()))
    c.eq("effective molar mass", M.molarmasseff() * tot, total(v * ALLMM[e] for e, v in atoms.items()))
    C = M.tocompound("cc")
    c.eq("compound", num(C.molefractions()), share(atoms))
    c.eq("compound density", C.density, M.density)


@contract("C11", functions=[FM + "_compose_compounds", FM + "fractions", FM + "density"], builtins=MOD, split=3)
def mixture_three(c):
    """mixtures of three compounds"""
    ft = c.choice("type", ["mole", "mass", "volume"])
    lst, comp, rho = compounds(c, 3)
    x = [c.pos("x%d" % i, 0.1, 3) for i in range(3)]
    M = MX.Mixture(lst, x, getattr(FR, ft), name="m")
    moles = {"ABC"[i]: x[i] if ft == "mole" else (x[i] / mm(comp[i]) if ft == "mass" else x[i] * rho[i] / mm(comp[i])) for i in range(3)}
    mass = {k: moles[k] * mm(comp[i]) for i, k in enumerate("ABC")}
    vol = {k: mass[k] / rho[i] for i, k in enumerate("ABC")}
    c.eq("mole", num(M.molefractions()), share(moles))
    c.eq("mass", num(M.massfractions()), share(mass))
    c.eq("volume", num(M.volumefractions()), share(vol))


@contract("C11", functions=[FM + "addcompounds", FM + "change_fractions", FB + "setfraction", FB + "setvolumefraction"], builtins=MOD + ("spectrocrunch.materials.multielementbase",), split=6)
def mixture_modify(c):
    """adding compounds and setting fractions of a mixture"""
    ft = c.choice("type", ["mole", "mass", "volume", "mole", "mass", "volume"][:3])
    op = c.choice("op", ["add", "addsame", "set"])
    lst, comp, rho = compounds(c, 3)
    x = [c.pos("x%d" % i, 0.1, 3) for i in range(2)]
    M = MX.Mixture(lst[:2], x, FR.mole, name="m")
    before = num(M.fractions(getattr(FR, ft)))
    f = c.real("f", 0.05, 0.9)
    if op in ("add", "addsame"):
        new = lst[2] if op == "add" else lst[0]
        if c.choice("arg", ["scalar", "list"]) == "scalar":
            M.addcompounds(new, f, getattr(FR, ft))
        else:
            M.addcompounds([new], [f], getattr(FR, ft))
        want = {k: v * (1 - f) for k, v in before.items()}
        want[str(new)] = want.get(str(new), 0) + f
    else:
        getattr(M, "set%sfraction" % ft)("B", f)
        want = {"A": 1 - f, "B": f}
    c.eq("fractions", num(M.fractions(getattr(FR, ft))), want)


SCATTER = ["scattering_cross_section", "compton_cross_section", "rayleigh_cross_section", "diff_compton_cross_section", "diff_rayleigh_cross_section"]
METHODS = [
    "mass_att_coeff",
    "mass_abs_coeff",
    "partial_mass_abs_coeff",
    "fluorescence_cross_section",
    "diff_fluorescence_cross_section",
    "fluorescence_cross_section_lines",
] + SCATTER


def stub(c, e, method, tag):
    """any elemental cross section"""
    v = c.real("cs" + tag + str(e), 0.1, 3)
    if method in ("diff_fluorescence_cross_section", "fluorescence_cross_section_lines"):
        val = {("line", "common"): v, ("line", str(e)): v * 2}
    else:
        val = v
    setattr(e, method, lambda E, **kw: dict(val) if isinstance(val, dict) else val)
    return val


def wsum(parts):
    """parts: [(weight, value)]"""
    parts = list(parts)
    if any(isinstance(v, dict) for _, v in parts):
        out = {}
        for w, v in parts:
            for k, y in v.items():
                out[k] = out.get(k, 0) + w * y
        return out
    return total(w * v for w, v in parts)


@contract("C11", functions=[FC + "_crosssection", FM + "_crosssection", FB + "cs_collapse", FB + "csdict_parse_elements", FB + "csdict_parse", FM + "hasscatterers", FM + "markscatterer", FC + "markscatterer"], builtins=MOD, split=4)
def crosssections(c):
    """mass-fraction weighted sums; non-scatterers contribute nothing to scattering"""
    method = c.choice("method", METHODS)
    kind = c.choice("kind", ["compound", "mixture"])
    scat = c.choice("scatterers", ["all", "none", "A"])
    lst, comp, rho = compounds(c, 2)
    vals = {}
    for k, C in zip("AB", lst):
        for e in C.elements:
            vals[k, str(e)] = stub(c, e, method, k)
    isscat = method in SCATTER
    if kind == "compound":
        C = lst[0]
        if scat == "none":
            C.unmarkscatterer()
        elif scat == "A":
            C.markscatterer("A")
        w = num(C.massfractions())
        if isscat and scat == "none":
            want = 0
        else:
            want = wsum((w[e], vals["A", e]) for e in w)
        c.eq("compound", getattr(C, method)(5.0), want)
        d = getattr(C, method)(5.0, decomposed=True)
        if isscat and scat == "none":
            c.eq("decomposed", d, {})
        else:
            c.eq("decomposed", {str(k): (v["w"], v["cs"]) for k, v in d.items()}, {e: (w[e], vals["A", e]) for e in w})
            if not isinstance(want, dict):
                c.eq("collapse", C.cs_collapse(d), want)
                c.eq("per element", num(C.csdict_parse_elements(d)), {e: w[e] * vals["A", e] for e in w})
        return
    x = [c.pos("x%d" % i, 0.1, 3) for i in range(2)]
    M = MX.Mixture(lst, x, FR.mass, name="m")
    if scat == "none":
        M.unmarkscatterer()
    elif scat == "A":
        M.markscatterer("A")
    c.holds("has scatterers", bool(M.hasscatterers()) == (scat != "none"))
    used = "AB"
    if isscat:
        used = {"all": "AB", "none": "", "A": "A"}[scat]
    cw = num(M.massfractions())
    ew = {k: num(C.massfractions()) for k, C in zip("AB", lst)}
    parts = [(cw[k] * ew[k][e], vals[k, e]) for k in used for e in ew[k]]
    want = wsum(parts) if parts else 0
    c.eq("mixture", getattr(M, method)(5.0), want)
    d = getattr(M, method)(5.0, decomposed=True)
    c.eq("decomposed", {str(k): (v["w"], {str(e): (x["w"], x["cs"]) for e, x in v["cs"].items()}) for k, v in d.items()}, {k: (cw[k], {e: (ew[k][e], vals[k, e]) for e in ew[k]}) for k in used})
    if not isinstance(want, dict) and used:
        el = {}
        for k in used:
            for e in ew[k]:
                el[e] = el.get(e, 0) + cw[k] * ew[k][e] * vals[k, e]
        c.eq("per element", num(M.csdict_parse_elements(d)), el)
        ww, cs = M.csdict_parse(d)
        c.eq("parse", list(ww), [cw[k] for k in used])


FORMULAS = ["H2O", "Fe2O3", "Ca(OH)2", "Al2(SO4)3", "C6H12O6", "(NH4)2SO4", "Mg3(PO4(OH)2)2", "Fe0.5O1.25", "((CH3)2CO)3", "NaCl", "Pb3(CO3)2(OH)2", "CO", "Co", "K4(Fe(CN)6)(H2O)3", "Li.5O"]
COUNTS = [
    {"H": 2, "O": 1},
    {"Fe": 2, "O": 3},
    {"Ca": 1, "O": 2, "H": 2},
    {"Al": 2, "S": 3, "O": 12},
    {"C": 6, "H": 12, "O": 6},
    {"N": 2, "H": 8, "S": 1, "O": 4},
    {"Mg": 3, "P": 2, "O": 12, "H": 4},
    {"Fe": 0.5, "O": 1.25},
    {"C": 9, "H": 18, "O": 3},
    {"Na": 1, "Cl": 1},
    {"Pb": 3, "C": 2, "O": 8, "H": 2},
    {"C": 1, "O": 1},
    {"Co": 1},
    {"K": 4, "Fe": 1, "C": 6, "N": 6, "H": 6, "O": 3},
    {"Li": 0.5, "O": 1},
]


@contract("C11", functions=["materials/compoundfromformula.py:FormulaParser.eval"], mode="bounded", bound="random formulas of up to 3 nested groups and 15 fixed ones", samples=120)
def formulas(c):
    """a chemical formula gives the multiplicities written in it"""
    k = c.choice("formula", list(range(len(FORMULAS))) + [None] * 15)
    if k is not None:
        f, want = FORMULAS[k], COUNTS[k]
    else:
        els = ["H", "C", "O", "Fe", "Co", "N", "Si", "S", "Sc"]

        def group(depth, tag):
            s, cnt = "", {}
            for i in range(c.int("n" + tag, 1, 3)):
                t = tag + str(i)
                m = c.choice("m" + t, [1, 2, 3, 12, 0.5, 1.25])
                ms = "" if m == 1 else str(m)
                if depth and c.choice("g" + t, [False, True]):
                    gs, gc = group(depth - 1, t)
                    s += "(" + gs + ")" + ms
                else:
                    e = c.choice("e" + t, els)
                    gc = {e: 1}
                    s += e + ms
                for e, v in gc.items():
                    cnt[e] = cnt.get(e, 0) + v * m
            return s, cnt

        f, want = group(2, "")
    C = FO.CompoundFromFormula(f, density=1)
    c.eq("counts", num(C.equivalents()), want)
