"""C09: particle energies used by the models span exactly the requested range."""
import numpy as np

from .common import Stubs, emitter

BOUNDS = ("lower limit symbolic over decades, range 1.5..5 decades, 2..20 points per decade "
          "(grids of 10..40 points), arbitrary positive particle distribution")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) while encoding"]
LIMITS = {"ties": False}


class Recorder:
    """particle distribution that records the energies it is asked for"""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def __call__(self, E):
        import astropy.units as u

        v = E.to_value("GeV")
        self.calls.append(np.atleast_1d(v))
        return u.Quantity(v ** -2.0, "1/GeV")

    def grid(self):
        return max(self.calls, key=len)


LIM = {"sy": ("Ee", 0.01, 10.0), "ic": ("Ee", 0.01, 10.0), "br": ("Ee", 0.002, 10.0),
       "pp": ("Ep", 1.3, 20.0)}


def check(ctx, g, e1, e2, n, tag=""):
    ctx.true(tag + "points>=10", len(g) >= 10, "%d points" % len(g))
    ctx.true(tag + "npoints", len(g) == n, "%d points, expected %d" % (len(g), n))
    ctx.eq(tag + "first", g[0], e1, rel=1e-7)
    ctx.eq(tag + "last", g[-1], e2, rel=1e-7)
    m = ctx.m
    for i in range(1, len(g)):
        ctx.lt(tag + "increasing", g[i - 1], g[i])
    for i in range(2, len(g)):
        ctx.eq(tag + "logspaced", g[i] * g[i - 2], g[i - 1] * g[i - 1], rel=1e-6)


def npts(ctx, nd, r):
    """max(10, int(points per decade * decades))"""
    if not ctx.sym:
        return max(10, int(nd * np.log10(r)))
    k, x = 10, nd * ctx.m.log10(r)
    while x >= k + 1.0:
        k += 1
    return k


def spans(kind, how):
    def h(ctx):
        import astropy.units as u

        pre, lo, hi = LIM[kind]
        e1 = ctx.real("emin", lo, hi)
        nd = ctx.choice("nd", [2, 3, 7])
        r = ctx.real("ratio", 10.0 ** (9.0 / nd + 0.01), 10.0 ** (13.4 / nd))
        un = ctx.choice("unit", ["GeV", "erg"])
        k = u.GeV.to(un)
        d = Recorder(ctx)
        a, b = ctx.q(e1 * k, un), ctx.q(e1 * r * k, un)
        W = "Wp" if kind == "pp" else "We"
        nm = "nEpd" if kind == "pp" else "nEed"
        with Stubs(ctx):
            if how == "compute":
                m = emitter(kind, d, **{nm: nd})
                d.calls.clear()
                lim = {pre + "min": a, pre + "max": b}
                getattr(m, "compute_" + W)(**lim)
            else:
                m = emitter(kind, d, **{nm: nd, pre + "min": a, pre + "max": b})
                d.calls.clear()
                if how == "W":
                    getattr(m, W)
                elif how == "flux":
                    m.flux(u.Quantity([1e11], "eV"), distance=0)
                else:
                    # limits reassigned after a first use
                    getattr(m, W)
                    x = ctx.real("f", 1.2, 3.0)
                    d.calls.clear()
                    setattr(m, pre + "min", ctx.q(e1 * x, "GeV"))
                    setattr(m, pre + "max", ctx.q(e1 * x * r, "GeV"))
                    e1 = e1 * x
                    getattr(m, W)
        g = d.grid()
        check(ctx, g, e1, e1 * r, npts(ctx, nd, r))

    return h


def partial(kind):
    """one limit given to compute_W*, the other one from the model"""
    def h(ctx):
        import astropy.units as u

        pre, lo, hi = LIM[kind]
        x = ctx.real("x", 30.0, 300.0)
        d = Recorder(ctx)
        W = "Wp" if kind == "pp" else "We"
        e1, e2 = 2.0, 5e4
        nm = "nEpd" if kind == "pp" else "nEed"
        with Stubs(ctx):
            m = emitter(kind, d, **{nm: 2, pre + "min": e1 * u.GeV, pre + "max": e2 * u.GeV})
            d.calls.clear()
            side = ctx.choice("side", ["min", "max"])
            getattr(m, "compute_" + W)(**{pre + side: ctx.q(x, "GeV")})
            g = d.grid()
            if side == "min":
                check(ctx, g, x, e2, npts(ctx, 2, e2 / x))
            else:
                check(ctx, g, e1, x, npts(ctx, 2, x / e1))
            # the limits of the model are unaffected
            d.calls.clear()
            getattr(m, W)
            g = d.grid()
            check(ctx, g, e1, e2, 10, "model_")

    return h


def resolution(ctx):
    """the default resolution: 100 points per decade (300 for bremsstrahlung)"""
    import astropy.units as u
    import naima.radiative as R

    kind = ctx.choice("kind", ["sy", "ic", "br", "pp"])
    d = Recorder(ctx)
    x = ctx.real("emin", 2.0, 3.0)
    with Stubs(ctx):
        cls = {"sy": R.Synchrotron, "ic": R.InverseCompton, "br": R.Bremsstrahlung,
               "pp": R.PionDecay}[kind]
        m = cls(d)
        nd = 300 if kind == "br" else 100
        pre = "Ep" if kind == "pp" else "Ee"
        setattr(m, pre + "min", ctx.q(x, "GeV"))
        setattr(m, pre + "max", ctx.q(x * 2.0, "GeV"))
        d.calls.clear()
        getattr(m, "Wp" if kind == "pp" else "We")
    g = d.grid()
    n = int(nd * np.log10(2.0))
    ctx.true("npoints", len(g) == n, "%d points, expected %d" % (len(g), n))
    ctx.eq("first", g[0], x, rel=1e-7)
    ctx.eq("last", g[-1], x * 2.0, rel=1e-7)


def defaults(ctx):
    """documented default limits"""
    import astropy.units as u
    import naima.radiative as R

    kind = ctx.choice("kind", ["sy", "ic", "br", "pp"])
    d = Recorder(ctx)
    cls = {"sy": R.Synchrotron, "ic": R.InverseCompton, "br": R.Bremsstrahlung,
           "pp": R.PionDecay}[kind]
    m = cls(d)
    d.calls.clear()
    with Stubs(ctx):
        getattr(m, "Wp" if kind == "pp" else "We")
    g = d.grid()
    lo = {"sy": 1.0, "ic": 1.0, "br": 0.1, "pp": 1.21803}[kind]
    hi = 1e7 if kind == "pp" else 1e9 * 0.51099895e-3
    nd = {"sy": 100, "ic": 100, "br": 300, "pp": 100}[kind]
    ctx.eq("first", ctx.const(g[0]), lo, rel=1e-4)
    ctx.eq("last", ctx.const(g[-1]), hi, rel=1e-4)
    n = int(nd * np.log10(float(g[-1]) / float(g[0])))
    ctx.true("npoints", abs(len(g) - n) <= 1, "%d vs %d" % (len(g), n))


HARNESSES = [("%s_%s" % (h, k), spans(k, h)) for k in LIM for h in ("W", "compute", "flux", "again")
             if not (h == "flux" and k != "sy")]
HARNESSES += [("partial_" + k, partial(k)) for k in ("sy", "pp")]
HARNESSES += [("resolution", resolution), ("defaults", defaults)]
