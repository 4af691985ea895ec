"""C10 fraction conversions"""
import numpy as np
from dv.engine import contract, bind

S = bind("spectrocrunch.materials.stoichiometry:")
F = "materials/stoichiometry.py:"
MOD = ("spectrocrunch.materials.stoichiometry",)

PROPERTY = {
    "title": "Mole, weight and volume fractions convert into each other without loss",
    "statement": "For any number of components with positive molar masses and densities: weight, mole and volume fractions follow their physical definitions, sum to one, do not depend on the normalization of the input, and every conversion is undone by its inverse and agrees with going through the third kind of fraction. "
    "The molar mass and density of a mixture are the same whichever kind of fraction they are calculated from. "
    "Adding components preserves the total amount and the mutual ratios of the existing components and gives the new ones the requested fraction.",
    "over": ["inputs"],
    "for_all": "any number of components, all positive fractions, molar masses and densities",
    "why": "The single existing test uses one vector of three components.",
    "files": ["materials/stoichiometry.py"],
    "mechanism": [("fraction conversions", "materials/stoichiometry.py"), ("adding components", "materials/stoichiometry.py: add_frac")],
}
META = {
    "level": "proof",
    "explanation": "vectors have a symbolic, unbounded length; sums over components are uninterpreted linear functionals with linearity, congruence and positivity.",
    "trusted": ["finite sums are linear, and positive for positive summands"],
    "assumptions": ["at least one component; strictly positive fractions, molar masses and densities"],
}


def inputs(c):
    return c.vec("x", pos=True), c.vec("M", pos=True), c.vec("rho", pos=True)


@contract("C10", functions=[F + x for x in ("frac_mole_to_weight", "frac_weight_to_mole", "frac_mole_to_volume", "frac_volume_to_mole", "frac_weight_to_volume", "frac_volume_to_weight")], builtins=MOD)
def definitions(c):
    """every fraction is the share in moles, mass or volume"""
    x, M, rho = inputs(c)
    conv = {
        "n>w": (S.frac_mole_to_weight(x, M), x * M),
        "w>n": (S.frac_weight_to_mole(x, M), x / M),
        "n>v": (S.frac_mole_to_volume(x, rho, M), x * M / rho),
        "v>n": (S.frac_volume_to_mole(x, rho, M), x * rho / M),
        "w>v": (S.frac_weight_to_volume(x, rho), x / rho),
        "v>w": (S.frac_volume_to_weight(x, rho), x * rho),
    }
    for k, (y, amount) in conv.items():
        c.eq(k, y * amount.sum(), amount)
        c.eq(k + " sum", y.sum(), 1)
        c.holds(k + " positive", y > 0)


@contract("C10", functions=[F + x for x in ("frac_mole_to_weight", "frac_weight_to_mole", "frac_mole_to_volume", "frac_volume_to_mole", "frac_weight_to_volume", "frac_volume_to_weight")], builtins=MOD)
def roundtrips(c):
    """conversions undo each other, and all routes agree"""
    x, M, rho = inputs(c)
    n = x / x.sum()
    w = S.frac_mole_to_weight(x, M)
    v = S.frac_mole_to_volume(x, rho, M)
    c.eq("n>w>n", S.frac_weight_to_mole(w, M), n)
    c.eq("n>v>n", S.frac_volume_to_mole(v, rho, M), n)
    c.eq("w>n>w", S.frac_mole_to_weight(S.frac_weight_to_mole(x, M), M), n)
    c.eq("v>n>v", S.frac_mole_to_volume(S.frac_volume_to_mole(x, rho, M), rho, M), n)
    c.eq("w>v>w", S.frac_volume_to_weight(S.frac_weight_to_volume(x, rho), rho), n)
    c.eq("v>w>v", S.frac_weight_to_volume(S.frac_volume_to_weight(x, rho), rho), n)
    c.eq("n>w>v", S.frac_weight_to_volume(w, rho), v)
    c.eq("n>v>w", S.frac_volume_to_weight(v, rho), w)
    # normalization of the input is irrelevant
    k = c.pos("k")
    c.eq("scale w", S.frac_mole_to_weight(x * k, M), w)
    c.eq("scale v", S.frac_mole_to_volume(x * k, rho, M), v)
    c.eq("scale n", S.frac_weight_to_mole(w * k, M), n)


@contract("C10", functions=[F + x for x in ("molarmass_from_wfrac", "density_from_volumefrac", "density_from_massfrac", "density_from_molefrac")], builtins=MOD)
def bulk(c):
    """molar mass and density of the mixture"""
    x, M, rho = inputs(c)
    n = x / x.sum()
    w = S.frac_mole_to_weight(x, M)
    v = S.frac_mole_to_volume(x, rho, M)
    c.eq("molar mass", S.molarmass_from_wfrac(w, M), (n * M).sum())
    mass, vol = (x * M).sum(), (x * M / rho).sum()
    c.eq("density from v", S.density_from_volumefrac(v, rho) * vol, mass)
    c.eq("density from w", S.density_from_massfrac(w, rho) * vol, mass)
    c.eq("density from n", S.density_from_molefrac(n, rho, M) * vol, mass)
    c.eq("density from n unnormalized", S.density_from_molefrac(x, rho, M) * vol, mass)


@contract("C10", functions=[F + "add_frac"], builtins=MOD)
def adding(c):
    """adding components"""
    x = c.vec("x", pos=True)
    f = c.vec("f", "m", nonneg=True, srange=(0, 0.3))
    s = f.sum()
    if s > 1:
        c.raises("too much", ValueError, lambda: S.add_frac(x, f))
        return
    y = S.add_frac(x, f)
    c.eq("total", y.sum(), x.sum())
    if c.symbolic:
        from dv.vec import append
    else:
        append = np.append
    c.eq("fractions", y / x.sum(), append(x / x.sum() * (1 - s), f))
