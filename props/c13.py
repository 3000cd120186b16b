"""C13: inverse Compton emission follows the documented scattering kernels."""
import math

import numpy as np

from .common import C, emitter, stubbed, trapz
from .c12 import lorentz_grid

BOUNDS = ("photon energy symbolic in 1e3..3e14 eV, temperature 0.1..1e5 K, angle 0.05..3.1 rad and 90, "
          "180, 240 and 270 degrees, "
          "seed energy 1e-3..0.1 eV (thorough 1e-5..10 eV), symbolic densities, arbitrary positive electron distribution, "
          "grids of 10-14 points, spectra of 1-3 seed energies")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) while encoding"]
LIMITS = {"ties": False}

# documented constants; checked against CODATA below
KTOMEC2 = 1.6863699549e-10               # k_B/(m_e c2), 1/K
PREF = 2.6318735743809104e16             # 2 r0^2 m_e^3 c^4/(pi hbar^3), 1/s
SIGT = 6.652458734983284e-25             # cm2
assert abs(KTOMEC2 * C.mec2 / 1.380649e-16 - 1) < 1e-6
assert abs(PREF * math.pi * C.hbar**3 / (2 * C.r0**2 * C.me**3 * C.c**4) - 1) < 1e-6
assert abs(SIGT / (8 * math.pi / 3 * C.r0**2) - 1) < 1e-6
A1 = (0.857, 0.153, 1.840, 0.254)
A2 = (0.691, 1.330, 1.668, 0.534)
A3 = (0.606, 0.443, 1.481, 0.540, 0.319)
A4 = (0.461, 0.726, 1.457, 0.382, 6.620)
PI26 = math.pi**2 / 6


def gfac(m, x, al, a, be, b):
    return 1.0 / (a * m.pow(x, al) / (1 + b * m.pow(x, be)) + 1.0)


def g12(m, x, p):
    al, a, be, b = p
    return (PI26 + x) * m.exp(-x) * gfac(m, x, al, a, be, b)


def g34(m, x, p):
    al, a, be, b, c = p
    return PI26 * ((1 + c * x) / (1 + PI26 * c * x)) * m.exp(-x) * gfac(m, x, al, a, be, b)


def planck_kernel(ctx, g, eps, T, theta=None):
    """KAK14 Eqs. 11, 14; zero beyond the kinematic limit"""
    m = ctx.m
    if not (eps < g) or g <= 1:
        return 0.0
    t = T * KTOMEC2
    z = eps / g
    if theta is None:
        x = z / (1 - z) / (4.0 * g * t)
        k = z**2 / (2 * (1 - z)) * g34(m, x, A3) + g34(m, x, A4)
    else:
        x = z / (1 - z) / (2.0 * g * t * (1.0 - m.cos(theta)))
        k = z**2 / (2 * (1 - z)) * g12(m, x, A1) + g12(m, x, A2)
    return PREF * (t / g)**2 * k


def mono_kernel(ctx, g, eps, e0):
    """Aharonian & Atoyan 1981 Eq. 22; e0 in mec2"""
    m = ctx.m
    if not (eps < g):
        return 0.0
    b = 4 * e0 * g
    w = eps / g
    q = w / (b * (1 - w))
    if q > 1 or q < 1.0 / (4 * g**2):
        return 0.0
    f = 2 * q * m.log(q) + (1 + 2 * q) * (1 - q) + 0.5 * (b * q)**2 * (1 - q) / (1 + b * q)
    return f


def thermal(aniso, T_const, lo, hi, grid, u_zero=False):
    @stubbed
    def h(ctx):
        import astropy.units as u

        E = ctx.real("E", lo, hi)
        d = ctx.dist("n")
        n = lambda g: d(ctx.q(g * C.mec2_eV, "eV")).value * C.mec2_eV
        T = T_const or ctx.real("T", 0.1, 1e5)
        dens = 0 if u_zero else ctx.real("u", 1e-3, 1e3)
        seed = ["s", ctx.q(T, "K"), dens if u_zero else ctx.q(dens, "eV/cm3")]
        theta = None
        if aniso:
            if aniso == "angles":
                a, un = ctx.choice("angle", ANGLES)
                theta = a if un == "rad" else math.radians(a)
                seed.append(a * u.Unit(un))
            else:
                theta = ctx.real("theta", 0.05, 3.1)
                seed.append(ctx.q(theta, "rad"))
        emin, emax, ned = grid
        ic = emitter("ic", d, seed_photon_fields=[seed], Eemin=ctx.q(emin, "eV"),
                     Eemax=ctx.q(emax, "eV"), nEed=ned)
        got = ic.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
        gam = lorentz_grid(emin, emax, ned)
        eps = E / C.mec2_eV
        y = [n(g) * planck_kernel(ctx, g, eps, T, theta) for g in gam]
        ratio = 1.0 if u_zero else dens * C.eV / (C.ar * T**4)
        ref = ratio * trapz(ctx, y, gam) / C.mec2_eV
        # the code rounds k_B/mec2 and the prefactor to ~1e-6 (CODATA 2010)
        ctx.eqq("flux", got, ctx.q(ctx.arr([ref]), "1/(s eV)"), rel=1e-4, unit="1/(s eV)")

    return h


def nonthermal(k, lo, hi, grid, elo=1e-3, ehi=0.1, scale=(1.0, 1.0, 1.0)):
    @stubbed
    def h(ctx):
        import astropy.units as u

        E = ctx.real("E", lo, hi)
        d = ctx.dist("n")
        n = lambda g: d(ctx.q(g * C.mec2_eV, "eV")).value * C.mec2_eV
        if k == 1:
            es = [ctx.real("e0", elo, ehi)]
            den = [ctx.real("u", 1e-3, 1e3)]
            seed = ["s", ctx.q(es[0], "eV"), ctx.q(den[0], "eV/cm3")]
        else:
            es = [0.01, 0.05, 0.5][:k]
            den = [v * s for v, s in zip(ctx.reals("u", k, 1e-3, 1e3), scale)]
            mode = ctx.choice("mode", ["number", "energy"])
            if mode == "number":
                seed = ["s", es * u.eV, ctx.q(ctx.arr(den), "1/(eV cm3)")]
            else:
                seed = ["s", es * u.eV,
                        ctx.q(ctx.arr([v * e**2 for v, e in zip(den, es)]), "eV/cm3")]
        emin, emax, ned = grid
        ic = emitter("ic", d, seed_photon_fields=[seed], Eemin=ctx.q(emin, "eV"),
                     Eemax=ctx.q(emax, "eV"), nEed=ned)
        got = ic.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
        gam = lorentz_grid(emin, emax, ned)
        eps = E / C.mec2_eV
        y = []
        for g in gam:
            ks = [mono_kernel(ctx, g, eps, e / C.mec2_eV) for e in es]
            if k == 1:
                e0 = es[0] / C.mec2_eV
                v = ks[0] * (den[0] / C.mec2_eV) / e0**2
            else:
                e0 = [e / C.mec2_eV for e in es]
                v = trapz(ctx, [f * (w * C.mec2_eV) / e for f, w, e in zip(ks, den, e0)], e0)
            y.append(n(g) * 0.75 * SIGT * C.c * v / g**2)
        ref = trapz(ctx, y, gam) / C.mec2_eV
        ctx.eqq("flux", got, ctx.q(ctx.arr([ref]), "1/(s eV)"), rel=1e-6, unit="1/(s eV)")

    return h


ANGLES = [(180, "deg"), (math.pi, "rad"), (270.0, "deg"), (90, "deg"), (-120.0, "deg"), (5.0, "rad")]
G1, G2 = (1e9, 1e14, 2), (1e6, 1e9, 3)
HARNESSES = [
    ("iso", thermal(False, None, 1e4, 3e14, G1)),
    ("iso_blackbody", thermal(False, None, 1e4, 3e14, G1, u_zero=True)),
    ("iso_mildly_rel", thermal(False, None, 1e1, 3e9, G2)),
    ("aniso", thermal(True, None, 1e4, 3e14, G1)),
    ("aniso_angles", thermal("angles", 1000.0, 1e4, 3e14, G1)),
    ("aniso_mildly_rel", thermal(True, 3000.0, 1e1, 3e9, G2)),
    ("mono", nonthermal(1, 1e4, 3e14, G1)),
    ("mono_wide", nonthermal(1, 1e4, 3e14, G1, 1e-5, 10.0), {"tier": "thorough", "seconds": 600}),
    ("mono_mildly_rel", nonthermal(1, 1e1, 3e9, G2), {"tier": "thorough"}),
    ("mono_low", nonthermal(1, 0.05, 20, (1e9, 1e11, 4), 0.1, 10)),
    ("array_low", nonthermal(2, 1e-3, 5, (1e9, 1e11, 4))),
    ("array2", nonthermal(2, 1e6, 1e14, G1)),
    ("array_steep", nonthermal(3, 1e10, 1e12, G1, scale=(1e9, 1e-2, 1e-9))),
    ("array_peaked", nonthermal(2, 1e6, 1e14, G1, scale=(1e-11, 1e8, 1.0))),
    ("array3", nonthermal(3, 1e10, 1e12, G1)),
]
