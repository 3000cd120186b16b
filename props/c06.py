"""C06: emission and energy content scale with the number of particles."""
import numpy as np

from .common import EMIT, emitter, stubbed, window

BOUNDS = ("photon energy symbolic over a window of the emission range, scale factor in "
          "1e-40..1e40, arbitrary positive particle distribution, 10-point particle grids")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) and "
               "scipy.integrate.quad by a fixed linear quadrature while encoding"]
LIMITS = {"ties": False}


class Scaled:
    def __init__(self, dist, k):
        self.dist, self.k = dist, k

    def __call__(self, E):
        return self.dist(E) * self.k


def scaling(kind):
    @stubbed
    def h(ctx):
        lo, hi = window(kind)
        E = ctx.real("E", lo, hi)
        k = ctx.real("k", 1e-40, 1e40)
        d = ctx.dist("n")
        a, b = emitter(kind, d), emitter(kind, Scaled(d, k))
        q = ctx.q(ctx.arr([E]), "eV")
        which = ctx.choice("which", ["flux", "sed", "W"])
        rel = 5e-3 if kind == "k06" else None
        if which == "flux":
            ctx.eqq("flux", b.flux(q, distance=0), k * a.flux(q, distance=0), rel=rel)
        elif which == "sed":
            ctx.eqq("sed", b.sed(q), k * a.sed(q), rel=rel)
        else:
            n = "Wp" if kind in ("pp", "k06") else "We"
            if kind == "k06":
                return      # integrates to infinity with a different quadrature
            ctx.eqq("W", getattr(b, n), k * getattr(a, n))
            f = getattr(b, "compute_" + n), getattr(a, "compute_" + n)
            pre = "Ep" if kind == "pp" else "Ee"
            lim = {pre + "min": ctx.q(np.float64(5.0), "GeV"),
                   pre + "max": ctx.q(np.float64(5.0), "TeV")}
            ctx.eqq("Wlim", f[0](**lim), k * f[1](**lim))

    return h


def amplitude(kind):
    """the amplitude attribute of the built-in models is the scale"""
    @stubbed
    def h(ctx):
        import astropy.units as u
        from naima import models as M

        lo, hi = window(kind)
        E = np.sqrt(lo * hi)
        k = ctx.real("k", 1e-40, 1e40)
        A = ctx.real("A", 1e-3, 1e3)
        q = u.Quantity([E], "eV")
        mk = ctx.choice("model", ["pl", "ecpl", "bpl", "ecbpl", "lp"])

        def pd(a):
            a = ctx.q(a, "1/eV")
            if mk == "pl":
                return M.PowerLaw(a, 1 * u.TeV, 2.3)
            if mk == "ecpl":
                return M.ExponentialCutoffPowerLaw(a, 1 * u.TeV, 2.3, 30 * u.TeV)
            if mk == "bpl":
                return M.BrokenPowerLaw(a, 1 * u.TeV, 0.3 * u.TeV, 1.6, 2.8)
            if mk == "ecbpl":
                return M.ExponentialCutoffBrokenPowerLaw(a, 1 * u.TeV, 0.3 * u.TeV, 1.6, 2.8,
                                                         30 * u.TeV)
            return M.LogParabola(a, 1 * u.TeV, 2.0, 0.2)

        a, b = emitter(kind, pd(A)), emitter(kind, pd(A * k))
        rel = 5e-3 if kind == "k06" else None
        ctx.eqq("flux", b.flux(q, distance=0), k * a.flux(q, distance=0), rel=rel)
        # changing the amplitude of the same object
        a.particle_distribution.amplitude = ctx.q(A * k, "1/eV")
        ctx.eqq("in_place", a.flux(q, distance=0), b.flux(q, distance=0), rel=rel)

    return h


HARNESSES = []
for k in EMIT:
    if k == "ic2":
        continue
    o = {"compare": k != "k06"}
    HARNESSES.append(("scaling_" + k, scaling(k), o))
    HARNESSES.append(("amplitude_" + k, amplitude(k), o))
