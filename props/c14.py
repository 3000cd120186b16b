"""C14: bremsstrahlung follows the documented cross sections."""
import math

import numpy as np

from .common import C, emitter, stubbed, trapz
from .c12 import lorentz_grid

BOUNDS = ("photon energy symbolic in 1e2..1e15 eV, density 1e-3..1e3 cm-3, both weights symbolic, "
          "arbitrary positive electron distribution, 10-point electron grids above and below 2 MeV")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) while encoding"]
LIMITS = {"ties": False}


def s1(m, g, e):
    """A2 (times mec2)"""
    if not (e < g):
        return 0.0
    return 4 * C.r0**2 * C.alpha / e * (1 + (1 / 3.0 - e / g) * (1 - e / g)) * \
        (m.log(2 * g * (g - e) / e) - 0.5)


def s2(m, g, e):
    """A3"""
    if not (e < g):
        return 0.0
    s0 = C.r0**2 * C.alpha / (3 * e)
    if e <= 0.5:
        return s0 * (16 * (1 - e + e**2) * m.log(g / e) - 1 / e**2 + 3 / e - 4 - 4 * e - 8 * e**2
                     - 2 * (1 - 2 * e) * m.log(1 - 2 * e)
                     * (1 / (4 * e**3) - 1 / (2 * e**2) + 3 / e - 2 + 4 * e))
    return s0 * 2 / e * ((4 - 1 / e + 1 / (4 * e**2)) * m.log(2 * g)
                         - 2 + 2 / e - 5 / (8 * e**2))


def see_rel(m, g, e):
    A = 1 - 8 / 3.0 * (g - 1)**0.2 / (g + 1) * m.pow(e / g, 1.0 / 3.0)
    return (s1(m, g, e) + s2(m, g, e)) * A


def see_nonrel(m, g, e):
    """A5-A7"""
    if e >= 0.25 * (g**2 - 1):
        return 0.0
    x = 4 * e / (g**2 - 1)
    be = math.sqrt(1 - g**-2)
    B = 1 + 0.5 * (g**2 - 1)
    Cc = 10 * x * g * be * (2 + g * be) / (1 + x**2 * (g**2 - 1))
    F = B * (17 - 3 * x**2 / (2 - x)**2 - Cc) * m.sqrt(1 - x) + \
        (12 * (2 - x) - 7 * x**2 / (2 - x) - 3 * x**4 / (2 - x)**3) * \
        m.log((1 + m.sqrt(1 - x)) / m.sqrt(x))
    return 4 * C.r0**2 * C.alpha / (15 * e) * F


def formula(emin, emax, ned, lo, hi):
    @stubbed
    def h(ctx):
        m = ctx.m
        E, n0 = ctx.real("E", lo, hi), ctx.real("n0", 1e-3, 1e3)
        part = ctx.choice("part", ["ee", "ep", "both"])
        wee = ctx.real("wee", 1e-2, 10) if part != "ep" else 0.0
        wep = ctx.real("wep", 1e-2, 10) if part != "ee" else 0.0
        d = ctx.dist("n")
        br = emitter("br", d, n0=ctx.q(n0, "1/cm3"), weight_ee=wee, weight_ep=wep,
                     Eemin=ctx.q(emin, "eV"), Eemax=ctx.q(emax, "eV"), nEed=ned)
        got = br.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
        e = E / C.mec2_eV
        gam = lorentz_grid(emin, emax, ned)
        n = lambda g: d(ctx.q(g * C.mec2_eV, "eV")).value * C.mec2_eV
        ref = 0.0
        if part != "ep":
            y = [n(g) * (see_nonrel(m, g, e) if g <= 2e6 / C.mec2_eV else see_rel(m, g, e))
                 for g in gam]
            ref = ref + wee * trapz(ctx, y, gam)
        if part != "ee":
            ref = ref + wep * trapz(ctx, [n(g) * s1(m, g, e) for g in gam], gam)
        ref = ref * n0 * C.c / C.mec2_eV
        ctx.eqq("flux", got, ctx.q(ctx.arr([ref]), "1/(s eV)"), rel=1e-6, unit="1/(s eV)")

    return h


def spectrum(ctx):
    """photon energies computed together do not influence each other, however far apart"""
    es = [ctx.real("E0", 1e3, 1e5), ctx.real("E1", 1e12, 2e13)]
    if ctx.bool("swap"):
        es = es[::-1]
    d = ctx.dist("n")
    emin, emax, ned = 2.5e6, 1e13, 1
    br = emitter("br", d, Eemin=ctx.q(emin, "eV"), Eemax=ctx.q(emax, "eV"), nEed=ned)
    got = br.flux(ctx.q(ctx.arr(es), "eV"), distance=0).to("1/(s eV)").value
    one = [br.flux(ctx.q(ctx.arr([e]), "eV"), distance=0).to("1/(s eV)").value[0] for e in es]
    for a, b in zip(got, one):
        ctx.eq("alone", a, b)


HARNESSES = [
    ("spectrum", stubbed(spectrum)),
    ("relativistic", formula(2.5e6, 1e13, 1, 1e6, 2e13)),
    ("soft_photons", formula(2.5e6, 1e13, 1, 1e3, 1e6)),
    ("nonrelativistic", formula(6e5, 1.9e6, 3, 1e2, 1e8)),
    ("transition", formula(1e6, 4e6, 3, 1e3, 1e7)),
]
