"""C18: conversion between differential spectra and SEDs."""
import numpy as np

from . import tables as T

BOUNDS = "arrays of 1-3 energies (and scalars) in 4 units; ten input units of six physical types"
ASSUMPTIONS = ["astropy.units is executed as it is"]
EV = T.E_UNITS
# input unit -> (family, is SED, factor to TeV-based reference)
UNITS = {
    "1/(cm2 s TeV)": ("flux", False, 1.0), "1/(m2 s GeV)": ("flux", False, 1e-1),
    "1/(cm2 s eV)": ("flux", False, 1e12),
    "erg/(cm2 s)": ("flux", True, 1 / (T.ERG * 1e12)), "TeV/(cm2 s)": ("flux", True, 1.0),
    "W/m2": ("flux", True, 1e3 / (T.ERG * 1e12)),
    "1/(s TeV)": ("power", False, 1.0), "1/(h erg)": ("power", False, T.ERG * 1e12 / 3600),
    "erg/s": ("power", True, 1 / (T.ERG * 1e12)), "W": ("power", True, 1e7 / (T.ERG * 1e12)),
    "1/TeV": ("energy", False, 1.0), "1/erg": ("energy", False, T.ERG * 1e12),
    "erg": ("energy", True, 1 / (T.ERG * 1e12)), "eV": ("energy", True, 1e-12),
}
OUT = {("flux", True): "erg/(cm2 s)", ("power", True): "erg/s", ("energy", True): "erg",
       ("flux", False): "1/(s TeV cm2)", ("power", False): "1/(s TeV)", ("energy", False): "1/TeV"}


def spec(f, e, fam, is_sed, sed):
    """TeV-based value in the requested form"""
    if is_sed == sed:
        return f
    return f * (e * e) if sed else f / (e * e)


def ref(unit):
    return {"erg/(cm2 s)": 1 / (T.ERG * 1e12), "erg/s": 1 / (T.ERG * 1e12),
            "erg": 1 / (T.ERG * 1e12)}.get(unit, 1.0)


def energies(ctx, n, eu):
    e = ctx.reals("e", max(n, 1), 1e-3, 1e3)
    vals = [x / EV[eu] for x in e]
    return e, ctx.q(ctx.arr(vals), eu) if n else ctx.q(vals[0], eu)


def convert(ctx):
    import astropy.units as u

    from naima.utils import sed_conversion

    un = ctx.choice("unit", list(UNITS))
    eu = ctx.choice("eu", list(EV))
    n = ctx.choice("n", [0, 1, 2])
    sed = ctx.bool("sed")
    fam, is_sed, k = UNITS[un]
    e, E = energies(ctx, n, eu)
    f = ctx.reals("f", max(n, 1), -3, 3)
    keep = np.array(E.value).copy()
    fu, fac = sed_conversion(E, u.Unit(un), sed)
    ctx.true("unit", u.Unit(fu) == u.Unit(OUT[fam, sed]), "%s" % fu)
    ctx.eq("input", E.value, keep)
    F = ctx.q(ctx.arr([x / k for x in f]) if n else f[0] / k, un)
    got = (F * fac).to(fu)
    ctx.true("shape", np.shape(got.value) == np.shape(E.value))
    w = [spec(x, y, fam, is_sed, sed) / ref(OUT[fam, sed]) for x, y in zip(f, e)]
    ctx.eq("value", got.value, ctx.arr(w) if n else w[0])


def model_unit_only(ctx):
    """the target unit depends on the kind of spectrum, not on its unit"""
    import astropy.units as u

    from naima.utils import sed_conversion

    fam = ctx.choice("fam", ["flux", "power", "energy"])
    uns = [x for x in UNITS if UNITS[x][0] == fam]
    a, b = ctx.choice("a", uns), ctx.choice("b", uns)
    sed = ctx.bool("sed")
    e, E = energies(ctx, 2, "TeV")
    ctx.true("same", sed_conversion(E, u.Unit(a), sed)[0] == sed_conversion(E, u.Unit(b), sed)[0])


def round_trip(ctx):
    """converting there and back returns the spectrum"""
    import astropy.units as u

    from naima.utils import sed_conversion

    un = ctx.choice("unit", list(UNITS))
    eu, eu2 = ctx.choice("eu", list(EV)), ctx.choice("eu2", ["TeV", "erg"])
    sed = ctx.bool("sed")
    fam, is_sed, k = UNITS[un]
    e, E = energies(ctx, 2, eu)
    F = ctx.q(ctx.vec("f", 2, -3, 3), un)
    fu, fac = sed_conversion(E, u.Unit(un), sed)
    mid = (F * fac).to(fu)
    fu2, fac2 = sed_conversion(E.to(eu2), mid.unit, is_sed)
    back = (mid * fac2).to(fu2)
    ctx.eqq("back", back.to(un), F)
    # a conversion to the form it already has changes nothing
    fu3, fac3 = sed_conversion(E, mid.unit, sed)
    ctx.eqq("again", (mid * fac3).to(fu3), mid)


def refused(ctx):
    import astropy.units as u

    from naima.utils import sed_conversion

    un = ctx.choice("unit", ["cm", "1/cm2", "K", "erg2", "1/(cm2 s)", "erg/cm2", "", "1/s", "G",
                             "TeV/(cm2 s sr)", "1/(cm2 s TeV sr)", "1/(cm2 TeV)"])
    sed = ctx.bool("sed")
    e, E = energies(ctx, 2, "TeV")
    try:
        sed_conversion(E, u.Unit(un), sed)
        ok = False
    except u.UnitsError:
        ok = True
    ctx.true("refused", ok, "%s accepted" % un)


HARNESSES = [("convert", convert), ("model_unit_only", model_unit_only),
             ("round_trip", round_trip), ("refused", refused)]
