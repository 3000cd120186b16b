"""C16: the Kelner et al. (2006) pion-decay model follows its documented formulas."""
import math

import numpy as np

from .common import C, emitter, quad, stubbed

BOUNDS = ("1-2 photon energies symbolic in 1e-4..1e4 TeV on either side of the transition energy, "
          "density 1e-3..1e3 cm-3, arbitrary positive proton distribution; the quadrature is "
          "replaced by a fixed two-node linear rule on both sides")
ASSUMPTIONS = ["scipy.integrate.quad is replaced by a fixed linear quadrature while encoding "
               "(results then depend on the integrand, the limits and the arguments only)"]
LIMITS = {"ties": False}

MP, MPI, KPI = C.mp_GeV / 1e3, 1.349766e-4, 0.17      # TeV
ETH = 1.22e-3


def sig(ctx, Ep):
    """Eqs. 73, 79 (cm2)"""
    L = ctx.m.log(Ep)
    s = 34.3 + 1.88 * L + 0.25 * L**2
    if Ep <= 0.1:
        if Ep < ETH:
            return 0.0
        s = s * (1 - (ETH / Ep)**4)**2
    return s * 1e-27


def fgamma(ctx, x, Ep):
    """Eq. 58"""
    m = ctx.m
    L = m.log(Ep)
    B = 1.30 + 0.14 * L + 0.011 * L**2
    be = 1 / (1.79 + 0.11 * L + 0.008 * L**2)
    k = 1 / (0.801 + 0.049 * L + 0.014 * L**2)
    xb = m.pow(x, be)
    lx = math.log(x)
    return B * (lx / x) * ((1 - xb) / (1 + k * xb * (1 - xb)))**4 * (
        1 / lx - 4 * be * xb / (1 - xb)
        - 4 * k * be * xb * (1 - 2 * xb) / (1 + k * xb * (1 - xb)))


def high(ctx, J, E):
    """Eq. 72; 1/(s TeV)"""
    def f(x):
        Ep = E / x
        return sig(ctx, Ep) * J(Ep) * fgamma(ctx, x, Ep) / x
    return C.c * quad(ctx, f, 0.0, 1.0)


def low(ctx, J, E):
    """delta-functional approximation, Eqs. 77, 78, for nhat = 1"""
    emin = E + MPI**2 / (4 * E)

    def f(Epi):
        Ep = MP + Epi / KPI
        return C.c / KPI * sig(ctx, Ep) * J(Ep) / ctx.m.sqrt(Epi**2 - MPI**2)
    return 2 * quad(ctx, f, emin, float("inf"))


def setup(ctx, **kw):
    d = ctx.dist("n")
    J = lambda Ep: d(ctx.q(Ep * 1e12, "eV")).value * 1e12
    nh = ctx.real("nh", 1e-3, 1e3)
    return J, nh, emitter("k06", d, nh=ctx.q(nh, "1/cm3"), **kw)


def single(which, lo, hi):
    @stubbed
    def h(ctx):
        J, nh, m = setup(ctx)
        E = ctx.real("E", lo, hi)
        got = m.flux(ctx.q(ctx.arr([E]), "TeV"), distance=0)
        ref = (high if which == "high" else low)(ctx, J, E) * nh / 1e12
        ctx.eqq("flux", got, ctx.q(ctx.arr([ref]), "1/(s eV)"), rel=1e-3, unit="1/(s eV)")

    return h


@stubbed
def transition(ctx):
    """the user's transition energy separates the two regimes"""
    et = ctx.real("Etrans", 0.05, 20.0)
    J, nh, m = setup(ctx, Etrans=ctx.q(et, "TeV"))
    E = ctx.real("E", 0.02, 50.0)
    got = m.flux(ctx.q(ctx.arr([E]), "TeV"), distance=0)
    ref = (high(ctx, J, E) if E >= et else low(ctx, J, E)) * nh / 1e12
    ctx.eqq("flux", got, ctx.q(ctx.arr([ref]), "1/(s eV)"), rel=1e-3)


@stubbed
def low_transition(ctx):
    """protons below and around the threshold in the full calculation"""
    J, nh, m = setup(ctx, Etrans=ctx.q(1e-5, "TeV"))
    E = ctx.real("E", 2e-5, 2e-2)
    got = m.flux(ctx.q(ctx.arr([E]), "TeV"), distance=0)
    ctx.eqq("flux", got, ctx.q(ctx.arr([high(ctx, J, E) * nh / 1e12]), "1/(s eV)"), rel=1e-3)


@stubbed
def matching(ctx):
    """with energies on both sides the low-energy part is normalised so that both
    regimes agree at the transition energy"""
    J, nh, m = setup(ctx, Etrans=ctx.q(0.4, "TeV"))
    E1, E2 = ctx.real("E1", 1e-3, 0.35), ctx.real("E2", 0.45, 1e2)
    swap = ctx.bool("swap")
    es = [E2, E1] if swap else [E1, E2]
    got = m.flux(ctx.q(ctx.arr(es), "TeV"), distance=0)
    nhat = high(ctx, J, 0.4) / low(ctx, J, 0.4)
    r = [nhat * low(ctx, J, E1) * nh / 1e12, high(ctx, J, E2) * nh / 1e12]
    ctx.eqq("flux", got, ctx.q(ctx.arr(r[::-1] if swap else r), "1/(s eV)"), rel=1e-3)
    # and the normalisation does not leak into later calls
    again = m.flux(ctx.q(ctx.arr([E1]), "TeV"), distance=0)
    ctx.eqq("again", again, ctx.q(ctx.arr([low(ctx, J, E1) * nh / 1e12]), "1/(s eV)"), rel=1e-3)


@stubbed
def content(ctx):
    """energy in protons above the threshold"""
    J, nh, m = setup(ctx)
    ref = quad(ctx, lambda e: e * J(e), ETH, float("inf")) * 1e12 * C.eV
    ctx.eqq("Wp", m.Wp, ctx.q(ref, "erg"), rel=1e-3, unit="erg")


O = {"compare": False}
HARNESSES = [
    ("low", single("low", 1e-4, 0.099), O), ("high", single("high", 0.1001, 1e4), O),
    ("transition", transition, O), ("low_transition", low_transition, O), ("matching", matching, O), ("content", content, O),
]
