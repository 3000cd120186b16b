"""C05: flux, SED and distance are mutually consistent."""
import numpy as np

from .common import C, EMIT, emitter, stubbed, window

BOUNDS = ("photon energy symbolic over a window of the emission range, distance symbolic in "
          "1e-6..1e6 kpc, arbitrary positive particle distribution, 10-point particle grids")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) and "
               "scipy.integrate.quad by a fixed linear quadrature while encoding"]
LIMITS = {"ties": False}
ERG = 1.602176634e-12


def build(ctx, kind):
    lo, hi = window(kind)
    E = ctx.real("E", lo, hi / 10)
    m = emitter(kind, ctx.dist("n"))
    seed = {}
    if kind == "ic2":
        s = ctx.choice("seed", [None, "a", 1, "b"])
        if s is not None:
            seed = {"seed": s}
    return m, E, ctx.q(ctx.arr([E]), "eV"), seed


def consistent(kind):
    @stubbed
    def h(ctx):
        import astropy.units as u

        m, E, q, seed = build(ctx, kind)
        D = ctx.real("D", 1e-6, 1e6)
        un = ctx.choice("u", ["kpc", "Gpc", "cm", "lyr"])
        k = u.kpc.to(un)
        d = ctx.q(D * k, un)
        L = m.flux(q, distance=0, **seed)
        ctx.true("unit0", L.unit == u.Unit("1/(s eV)"))
        F = m.flux(q, distance=d, **seed)
        ctx.true("unitd", F.unit == u.Unit("1/(s cm2 eV)"))
        area = 4 * np.pi * (D * C.kpc) * (D * C.kpc)
        ctx.eq("flux", F.value, [x / area for x in L.value])
        S = m.sed(q, distance=d, **seed)
        ctx.true("unitsed", S.unit == u.Unit("erg/(s cm2)"))
        ctx.eq("sed", S.value, [x / area * E * E * ERG for x in L.value])
        # the object given as distance is not modified
        ctx.eq("d", d.to_value("kpc"), D)

    return h


def intrinsic(kind):
    @stubbed
    def h(ctx):
        import astropy.units as u

        m, E, q, seed = build(ctx, kind)
        L = m.flux(q, distance=0, **seed)
        rep = ctx.choice("rep", ["sed0", "default", "sed_default", "zeroq", "float0", "int"])
        if rep == "sed0":
            got = m.sed(q, distance=0, **seed)
            ctx.true("unit", got.unit == u.Unit("erg/s"))
            ctx.eq("sed0", got.value, [x * E * E * ERG for x in L.value])
        elif rep == "zeroq":
            ctx.eqq("zeroq", m.flux(q, distance=0 * u.kpc, **seed), L)
            ctx.eqq("zeroq_sed", m.sed(q, distance=0 * u.kpc, **seed), m.sed(q, 0, **seed))
        elif rep == "float0":
            ctx.eqq("float0", m.flux(q, 0.0, **seed), L)
        elif rep == "default":
            got = m.flux(q, **seed)
            ctx.true("unit", got.unit == u.Unit("1/(s cm2 eV)"))
            ctx.eq("default", got.value, [x / (4 * np.pi * C.kpc * C.kpc) for x in L.value])
        elif rep == "sed_default":
            got = m.sed(q, **seed)
            ctx.eq("sed_default", got.value,
                   [x * E * E * ERG / (4 * np.pi * C.kpc * C.kpc) for x in L.value])
        else:
            ctx.eqq("int", m.flux(q, distance=2 * u.kpc, **seed),
                    m.flux(q, distance=2000.0 * u.pc, **seed))

    return h


def repeated(kind):
    """asking again for another distance does not reuse the former one"""
    @stubbed
    def h(ctx):
        import astropy.units as u

        from .common import emitter

        lo, hi = window(kind)
        E = ctx.real("E", lo, hi / 10)
        m = emitter(kind, ctx.dist("n"))
        q = ctx.q(ctx.arr([E]), "eV")
        D = ctx.real("D", 1e-3, 1e3)
        seq = ctx.choice("seq", ["0d", "d0", "dd", "sed"])
        d = ctx.q(D, "kpc")
        L = emitter(kind, m.particle_distribution).flux(q, distance=0)
        if seq == "0d":
            m.flux(q, distance=0)
            got, dd = m.flux(q, distance=d), D
        elif seq == "d0":
            m.flux(q, distance=d)
            ctx.eqq("d0", m.flux(q, distance=0), L)
            return
        elif seq == "dd":
            m.flux(q, distance=d)
            got, dd = m.flux(q, distance=d * 3.0), D * 3.0
        else:
            m.sed(q, distance=d)
            m.sed(q, distance=0)
            got, dd = m.flux(q, distance=d), D
        area = 4 * np.pi * (dd * C.kpc) * (dd * C.kpc)
        ctx.eq("again", got.value, [x / area for x in L.value])

    return h


HARNESSES = []
for k in EMIT:
    o = {"compare": k != "k06"}
    HARNESSES.append(("consistent_" + k, consistent(k), o))
    HARNESSES.append(("intrinsic_" + k, intrinsic(k), o))
    if k in ("sy", "icm", "k06", "pp"):
        HARNESSES.append(("repeated_" + k, repeated(k), o))
