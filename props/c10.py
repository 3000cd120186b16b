"""C10: energy content of the particles and its normalisation."""
import numpy as np

from .common import C, Stubs, emitter, stubbed, trapz

BOUNDS = ("limits symbolic over decades with 10..14 grid points, energy content symbolic in "
          "1e30..1e60 erg, arbitrary positive particle distribution / symbolic power laws")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) while encoding, "
               "except in the exactness harnesses, which encode it"]
LIMITS = {"ties": False}
KINDS = ("sy", "ic", "br", "pp")


def nm(kind):
    return ("Wp", "Ep") if kind == "pp" else ("We", "Ee")


def loggrid(ctx, e1, e2, n):
    m = ctx.m
    r = m.pow(e2 / e1, 1.0 / (n - 1))
    return [e1 * m.pow(r, float(i)) for i in range(n)]


def content(kind):
    """W = integral of E n(E) dE over the energy grid, in erg"""
    @stubbed
    def h(ctx):
        import astropy.units as u

        W, pre = nm(kind)
        d = ctx.dist("n", "1/eV", "eV")
        lo, hi = 5.0, 5e3          # GeV
        how = ctx.choice("how", ["model", "limits", "min", "max"])
        x = ctx.real("x", 3.0, 9.0) if kind == "pp" else ctx.real("x", 1.0, 9.0)
        kw = {pre + "min": ctx.q(lo, "GeV"), pre + "max": ctx.q(hi, "GeV"),
              "nEpd" if kind == "pp" else "nEed": 2}
        if how == "model":
            kw.update({pre + "min": ctx.q(x, "GeV"), pre + "max": ctx.q(x * 1e3, "GeV")})
            m = emitter(kind, d, **kw)
            got, e1, e2 = getattr(m, W), x, x * 1e3
        else:
            m = emitter(kind, d, **kw)
            f = getattr(m, "compute_" + W)
            if how == "limits":
                got = f(**{pre + "min": ctx.q(x * 1e9, "eV"), pre + "max": ctx.q(x * 0.7, "TeV")})
                e1, e2 = x, x * 700.0
            elif how == "min":
                got, e1, e2 = f(**{pre + "min": ctx.q(x, "GeV")}), x, hi
            else:
                got, e1, e2 = f(**{pre + "max": ctx.q(x * 1e2, "GeV")}), lo, x * 1e2
        g = loggrid(ctx, e1, e2, 10)
        y = [e * ctx.uf("n", e * 1e9, lo=1e-3, hi=1e3, sign="+") * 1e9 for e in g]   # GeV * 1/GeV
        ref = trapz(ctx, y, g)                                       # GeV
        ctx.true("dimension", got.unit.is_equivalent("erg"))
        ctx.eq("W", got.to_value("GeV"), ref, rel=1e-6)

    return h


def exact(kind):
    """for power laws the energy content is the analytic integral"""
    def h(ctx):
        import astropy.units as u
        from naima.models import PowerLaw

        W, pre = nm(kind)
        a, A = ctx.real("alpha", 0.5, 3.5), ctx.real("A", 1e-3, 1e3)
        ctx.assume(abs(a - 2.0) > 1e-2)
        d = PowerLaw(ctx.q(A, "1/TeV"), ctx.q(2.0, "TeV"), a)
        e1, e2 = 5.0, 5e3
        how = ctx.choice("how", ["model", "limits"])
        nn = "nEpd" if kind == "pp" else "nEed"
        if how == "model":
            m = emitter(kind, d, **{pre + "min": e1 * u.GeV, pre + "max": e2 * u.GeV, nn: 2})
            got = getattr(m, W)
        else:
            m = emitter(kind, d, **{nn: 2})
            got = getattr(m, "compute_" + W)(**{pre + "min": e1 * u.GeV, pre + "max": e2 * u.GeV})
        M = ctx.m
        # TeV
        p = 2.0 - a
        ref = A * M.pow(2.0, a) * M.div(M.pow(e2 / 1e3, p) - M.pow(e1 / 1e3, p), p)
        ctx.eq("analytic", got.to_value("TeV"), ref, rel=1e-6)

    return h


class Toy:
    """distribution whose normalisation attribute has another name"""

    def __init__(self, dist, k):
        self.dist, self.norm = dist, k

    def __call__(self, E):
        return self.norm * self.dist(E)


def setW(kind):
    """after set_W the energy content is the requested one, and only the
    amplitude has changed"""
    @stubbed
    def h(ctx):
        import astropy.units as u
        from naima.models import ExponentialCutoffPowerLaw

        W, pre = nm(kind)
        w = ctx.real("W", 1e-6, 1e6)
        un = ctx.choice("unit", ["erg", "J", "TeV"])
        A = ctx.real("A", 1e-3, 1e3)
        amp = ctx.q(A, "1/TeV")
        d = ExponentialCutoffPowerLaw(amp, 2 * u.TeV, 2.2, 30 * u.TeV)
        kw = {pre + "min": 5 * u.GeV, pre + "max": 5 * u.TeV, "nEpd" if kind == "pp" else "nEed": 2}
        m = emitter(kind, d, **kw)
        lim = ctx.choice("lim", ["none", "both", "min", "max", "wide", "above", "below"])
        L = {}
        if lim in ("both", "min"):
            L[pre + "min"] = 20 * u.GeV
        if lim in ("both", "max"):
            L[pre + "max"] = 2 * u.TeV
        # beyond the range of the model
        if lim in ("wide", "below"):
            L[pre + "min"] = 2 * u.GeV
        if lim in ("wide", "above"):
            L[pre + "max"] = 50 * u.TeV
        before = getattr(m, "compute_" + W)(**L)
        ret = getattr(m, "set_" + W)(ctx.q(w, un), **L)
        ctx.eqq("content", getattr(m, "compute_" + W)(**L), ctx.q(w, un), rel=1e-7)
        ctx.true("unit", d.amplitude.unit.is_equivalent("1/TeV"))
        k = ctx.q(w, un).to("erg").value / before.to_value("erg")
        ctx.eq("amplitude", d.amplitude.to_value("1/TeV"), A * k, rel=1e-7)
        ctx.eq("user_amplitude", amp.to_value("1/TeV"), A)
        ctx.true("same", m.particle_distribution is d)
        ctx.eq("others", [d.alpha, d.e_0.to_value("TeV"), d.e_cutoff.to_value("TeV"), d.beta],
               [2.2, 2.0, 30.0, 1.0])
        # once more, from the new state
        getattr(m, "set_" + W)(ctx.q(w * 3.0, un), **L)
        ctx.eqq("again", getattr(m, "compute_" + W)(**L), ctx.q(w * 3.0, un), rel=1e-7)

    return h


def named(kind):
    @stubbed
    def h(ctx):
        import astropy.units as u

        W, pre = nm(kind)
        w = ctx.real("W", 1e-6, 1e6)
        k = ctx.real("k", 1e-3, 1e3)
        d = Toy(ctx.dist("n"), k)
        m = emitter(kind, d)
        getattr(m, "set_" + W)(ctx.q(w, "erg"), amplitude_name="norm")
        ctx.eqq("content", getattr(m, W), ctx.q(w, "erg"), rel=1e-7)
        for e in (1 * u.TeV, 1 * u.PeV):        # within and beyond the range of the model
            getattr(m, "set_" + W)(ctx.q(w, "erg"), amplitude_name="norm", **{pre + "max": e})
            got = getattr(m, "compute_" + W)(**{pre + "max": e})
            ctx.eqq("limited", got, ctx.q(w, "erg"), rel=1e-7)

    return h


def shared(ctx):
    """two models sharing one amplitude quantity are normalised independently"""
    import astropy.units as u
    from naima.models import PowerLaw

    with Stubs(ctx):
        amp = ctx.q(ctx.real("A", 1e-3, 1e3), "1/TeV")
        a, b = PowerLaw(amp, 1 * u.TeV, 2.0), PowerLaw(amp, 1 * u.TeV, 2.5)
        k1 = ctx.choice("k1", ["sy", "pp"])
        k2 = ctx.choice("k2", ["ic", "pp"])
        m1, m2 = emitter(k1, a), emitter(k2, b)
        w = ctx.real("W", 1e-6, 1e6)
        W1, W2 = nm(k1)[0], nm(k2)[0]
        before = getattr(m2, W2)
        getattr(m1, "set_" + W1)(ctx.q(w, "erg"))
        ctx.eqq("other", getattr(m2, W2), before)
        ctx.eqq("own", getattr(m1, W1), ctx.q(w, "erg"), rel=1e-7)


HARNESSES = []
for k in KINDS:
    HARNESSES += [("content_" + k, content(k)), ("setW_" + k, setW(k)), ("named_" + k, named(k))]
HARNESSES += [("exact_" + k, exact(k)) for k in ("sy", "pp")]
HARNESSES += [("shared", shared)]
