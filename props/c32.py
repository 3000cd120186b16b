"""C32: magnetic field estimate from X-ray and gamma-ray data."""
import math

import numpy as np

from . import fit, tables as T
from .common import C, TrapzStub, trapz

BOUNDS = ("2-3 X-ray and 2-3 gamma-ray points; symbolic energies (in any order), fluxes and photon "
          "energy density; every kind of spectrum and unit system")
ASSUMPTIONS = ["trapz_loglog obeys its contract (C11)", "fluxes are positive", "no two energies are "
               "equal"]
LIMITS = {"ties": False, "seconds": 60}


def spectrum(ctx, name, n, kind, **kw):
    """positive measurements"""
    t, rows = T.make(ctx, name, n, kind=kind, ebins="width", **kw)
    for r in rows:
        ctx.assume(r["f"] > 0.1)
    return t, rows


def luminosity(ctx, rows):
    """integral of E dN/dE (TeV based)"""
    rows = [rows[i] for i in T.order(ctx, [r["e"] for r in rows])]
    e = [r["e"] for r in rows]
    f = [T.to_sed(ctx, r, "f", False) for r in rows]
    return trapz(ctx, [a * b for a, b in zip(f, e)], e)


def estimate(ctx, nx, ng, kind, units=1, **kw):
    from naima import estimate_B

    tx, rx = spectrum(ctx, "x", nx, kind, **kw)
    tg, rg = spectrum(ctx, "g", ng, kind)
    sx, sg = T.snapshot(tx), T.snapshot(tg)
    lx, lg = luminosity(ctx, rx), luminosity(ctx, rg)
    if ctx.bool("default"):
        u = 0.261 * C.eV
        b = estimate_B(tx, tg)
    else:
        v = ctx.real("u", 0.01, 10)
        un, k = ctx.choice("uunit", [("eV/cm3", C.eV), ("erg/cm3", 1.0), ("J/m3", 10.0)][:units])
        u = v * k
        b = estimate_B(tx, tg, photon_energy_density=ctx.q(v, un))
    T.unchanged(ctx, "xray", tx, sx)
    T.unchanged(ctx, "vhe", tg, sg)
    ctx.true("scalar", np.shape(b) == ())
    ctx.eq("B", fit.scalar(b.to("G")), ctx.m.sqrt(8 * math.pi * u * lx / lg))


def kinds(ctx):
    """any kind of spectrum in any unit"""
    kind = ctx.choice("kind", ["dflux", "flux", "dpower", "power"])
    with TrapzStub(ctx), fit.quiet():
        estimate(ctx, 2, 2, kind, funit=ctx.choice("funit", list(T.KINDS[kind])),
                 eunit=ctx.choice("eunit", ["TeV", "keV"]))


def points(ctx):
    """more points, in any order, plain or unit-aware tables"""
    with TrapzStub(ctx), fit.quiet():
        estimate(ctx, 3, 2, "dflux", units=3, qtable=ctx.bool("qtable"))


def limits(ctx):
    """upper limits enter with their value"""
    ul = ctx.choice("ul", [[True, False], [False, True]])
    with TrapzStub(ctx), fit.quiet():
        estimate(ctx, 2, 2, "flux", ul=("bool", ul), flux_ul=ctx.bool("column"))


HARNESSES = [("kinds", kinds), ("points", points), ("limits", limits)]
