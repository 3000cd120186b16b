"""C08: emission is proportional to the density of targets."""
import numpy as np

from .common import emitter, stubbed, window

BOUNDS = ("photon energy symbolic over a window of the emission range, densities symbolic over "
          "six decades, arbitrary positive particle distribution, 10-point particle grids, "
          "2-point seed spectra")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) and "
               "scipy.integrate.quad by a fixed linear quadrature while encoding"]
LIMITS = {"ties": False}


def gas(kind, par):
    @stubbed
    def h(ctx):
        lo, hi = window(kind)
        E = ctx.real("E", lo, hi)
        x, k = ctx.real("x", 1e-3, 1e3), ctx.real("k", 1e-3, 1e3)
        d = ctx.dist("n")
        q = ctx.q(ctx.arr([E]), "eV")
        a = emitter(kind, d, **{par: ctx.q(x, "1/cm3")}).flux(q, distance=0)
        m = emitter(kind, d, **{par: ctx.q(x * k, "1/cm3")})
        rel = 5e-3 if kind == "k06" else None
        ctx.eqq("flux", m.flux(q, distance=0), k * a, rel=rel)
        setattr(m, par, ctx.q(x * 1e6, "1/m3"))
        ctx.eqq("reassigned", m.flux(q, distance=0), a, rel=rel)

    return h


@stubbed
def weights(ctx):
    """Bremsstrahlung: sum of e-e and e-p contributions with their weights"""
    lo, hi = window("br")
    E = ctx.real("E", lo, hi)
    d = ctx.dist("n")
    q = ctx.q(ctx.arr([E]), "eV")
    f = lambda a, b: emitter("br", d, weight_ee=a, weight_ep=b).flux(q, distance=0)
    ee, ep = ctx.real("wee", 1e-3, 10), ctx.real("wep", 1e-3, 10)
    case = ctx.choice("case", ["both", "ee", "ep"])
    one_ee, one_ep = f(1.0, 0.0), f(0.0, 1.0)
    if case == "both":
        ctx.eqq("sum", f(ee, ep), ee * one_ee + ep * one_ep)
    elif case == "ee":
        ctx.eqq("ee", f(ee, 0.0), ee * one_ee)
    else:
        ctx.eqq("ep", f(0.0, ep), ep * one_ep)


@stubbed
def default_weights(ctx):
    """ISM abundances (10:0.959 H:He): sum Z X and sum Z^2 X"""
    lo, hi = window("br")
    E = ctx.real("E", lo, hi)
    d = ctx.dist("n")
    q = ctx.q(ctx.arr([E]), "eV")
    n = 1.0 + 9.59e-2
    a = emitter("br", d).flux(q, distance=0)
    b = emitter("br", d, weight_ee=(1 + 2 * 9.59e-2) / n, weight_ep=(1 + 4 * 9.59e-2) / n)
    ctx.eqq("flux", a, b.flux(q, distance=0))


def seed(shape):
    @stubbed
    def h(ctx):
        import astropy.units as u

        E = ctx.real("E", 1e10, 1e12)
        # a density of nought stands for a full blackbody: anything else is a density
        scale = ctx.choice("scale", [1.0, 1e-12, 1e9])
        x, k = ctx.real("x", 1e-3, 1e3) * scale, ctx.real("k", 1e-3, 1e3)
        d = ctx.dist("n")
        q = ctx.q(ctx.arr([E]), "eV")

        def mk(w):
            if shape == "thermal":
                s = ["s", 30 * u.K, ctx.q(w, "eV/cm3")]
            elif shape == "aniso":
                s = ["s", 30 * u.K, ctx.q(w, "eV/cm3"), 1.0 * u.rad]
            elif shape == "mono":
                s = ["s", 0.02 * u.eV, ctx.q(w, "eV/cm3")]
            elif shape == "mono_aslist":
                s = ["s", [0.02] * u.eV, ctx.q(ctx.arr([w]), "eV/cm3")]
            else:
                y = ctx.real("y", 1e-2, 1e2)
                s = ["s", [0.02, 0.05] * u.eV, ctx.q(ctx.arr([w, w * y]), "1/(eV cm3)")]
            return emitter("ic", d, seed_photon_fields=[s]).flux(q, distance=0)

        ctx.eqq("flux", mk(x * k), k * mk(x))

    return h


HARNESSES = [("gas_br", gas("br", "n0")), ("gas_pp", gas("pp", "nh")),
             ("gas_k06", gas("k06", "nh"), {"compare": False}),
             ("weights", weights), ("default_weights", default_weights)]
HARNESSES += [("seed_" + s, seed(s)) for s in ("thermal", "aniso", "mono", "mono_aslist", "array")]
