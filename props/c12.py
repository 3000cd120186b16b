"""C12: synchrotron emission follows the documented emissivity."""
import math

import numpy as np

from .common import C, emitter, stubbed, trapz

BOUNDS = ("photon energy symbolic in 1e-6..1e9 eV (10-point grids) or 1..1e4 eV (default grid), "
          "magnetic field symbolic in 1e-7..1 G, arbitrary positive electron distribution, grids "
          "of 10-15 points in quick (thorough: the 570-point default grid)")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) while encoding"]
LIMITS = {"ties": False}


def lorentz_grid(emin_eV, emax_eV, ned):
    a, b = math.log10(emin_eV / C.mec2_eV), math.log10(emax_eV / C.mec2_eV)
    return np.logspace(a, b, max(10, int(ned * (b - a))))


def spec_flux(ctx, E, B, gam, n):
    """AKP10 Eq. D7 over a random field, 1/(s eV); E in eV, B in G"""
    m = ctx.m
    Eerg = E * C.eV
    cs = math.sqrt(3) * C.e**3 * B / (2 * math.pi * C.mec2 * C.hbar * Eerg)
    y = []
    for g in gam:
        x = Eerg / (3 * C.e * C.hbar * B * g**2 / (2 * C.me * C.c))
        cb = m.pow(x, 1.0 / 3.0)
        g1 = 1.808 * cb / m.sqrt(1 + 3.4 * cb**2)
        g2 = 1 + 2.210 * cb**2 + 0.347 * cb**4
        g3 = 1 + 1.353 * cb**2 + 0.217 * cb**4
        y.append(n(g) * cs * g1 * (g2 / g3) * m.exp(-x))
    return trapz(ctx, y, gam) * C.eV


def dens(ctx, d):
    """electrons per unit Lorentz factor"""
    return lambda g: d(ctx.q(g * C.mec2_eV, "eV")).value * C.mec2_eV


def formula(emin, emax, ned, lo, hi):
    @stubbed
    def h(ctx):
        E, B = ctx.real("E", lo, hi), ctx.real("B", 1e-7, 1.0)
        d = ctx.dist("n")
        s = emitter("sy", d, B=ctx.q(B, "G"), Eemin=ctx.q(emin, "eV"), Eemax=ctx.q(emax, "eV"),
                    nEed=ned)
        got = s.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
        ref = spec_flux(ctx, E, B, lorentz_grid(emin, emax, ned), dens(ctx, d))
        ctx.eqq("flux", got, ctx.q(ctx.arr([ref]), "1/(s eV)"), unit="1/(s eV)")

    return h


@stubbed
def several(ctx):
    """every element of an energy array gets its own emissivity"""
    Es = [ctx.real("E0", 1e-2, 1e3)]
    Es += [Es[0] * 7.0, Es[0] * 0.3]
    d = ctx.dist("n")
    s = emitter("sy", d)
    got = s.flux(ctx.q(ctx.arr(Es), "eV"), distance=0)
    g = lorentz_grid(1e9, 1e14, 2)
    n = dens(ctx, d)
    ctx.eqq("flux", got, ctx.q(ctx.arr([spec_flux(ctx, E, 1e-4, g, n) for E in Es]), "1/(s eV)"))


@stubbed
def default_field(ctx):
    """default field, electron energy range and resolution"""
    import astropy.units as u

    from naima.models import Synchrotron

    E = ctx.real("E", 1.0, 1e4)
    d = ctx.dist("n")
    s = Synchrotron(d, Eemax=50 * u.GeV, nEed=7)
    s._memoize = False
    got = s.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
    ref = spec_flux(ctx, E, 3.24e-6, lorentz_grid(1e9, 5e10, 7), dens(ctx, d))
    ctx.eqq("B,Eemin", got, ctx.q(ctx.arr([ref]), "1/(s eV)"))
    s = Synchrotron(d, Eemin=100 * u.TeV, nEed=3)
    s._memoize = False
    got = s.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
    ref = spec_flux(ctx, E, 3.24e-6, lorentz_grid(1e14, 1e9 * C.mec2_eV, 3), dens(ctx, d))
    ctx.eqq("Eemax", got, ctx.q(ctx.arr([ref]), "1/(s eV)"))
    s = Synchrotron(d, Eemin=510 * u.TeV)
    s.Eemin = 0.4e9 * C.mec2_eV * u.eV
    s._memoize = False
    got = s.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
    ref = spec_flux(ctx, E, 3.24e-6,
                    lorentz_grid(0.4e9 * C.mec2_eV, 1e9 * C.mec2_eV, 100), dens(ctx, d))
    ctx.eqq("nEed", got, ctx.q(ctx.arr([ref]), "1/(s eV)"))


@stubbed
def full_default(ctx):
    from naima.models import Synchrotron

    E = ctx.real("E", 1.0, 1e4)
    d = ctx.dist("n")
    s = Synchrotron(d)
    s._memoize = False
    got = s.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
    ref = spec_flux(ctx, E, 3.24e-6, lorentz_grid(1e9, 1e9 * C.mec2_eV, 100), dens(ctx, d))
    ctx.eqq("flux", got, ctx.q(ctx.arr([ref]), "1/(s eV)"))


@stubbed
def field_scaling(ctx):
    """the spectrum at (E, B) relates to that at (kE, kB): same shape, since only
    E/B enters the emissivity"""
    E, B, k = ctx.real("E", 1e-3, 1e4), ctx.real("B", 1e-6, 1e-2), ctx.real("k", 1e-2, 1e2)
    d = ctx.dist("n")
    f = lambda e, b: emitter("sy", d, B=ctx.q(b, "G")).flux(ctx.q(ctx.arr([e]), "eV"), distance=0)
    ctx.eqq("scaling", f(k * E, k * B), f(E, B))


HARNESSES = [("formula", formula(1e9, 1e14, 2, 1e-6, 1e9)),
             ("formula_mildly_rel", formula(1e6, 1e9, 5, 1e-9, 1e3)),
             ("formula_vhe", formula(1e13, 5e15, 4, 1e2, 1e9)),
             ("several", several), ("default_field", default_field),
             ("field_scaling", field_scaling),
             ("full_default", full_default, {"tier": "thorough"})]
