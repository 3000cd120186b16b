"""C01: particle-distribution models follow their documented formulas."""
import numpy as np


BOUNDS = ("1-2 energies per call; E, reference, break and cutoff energies in 1e-4..1e4 TeV; indices"
          " in [-5,5] (cutoff exponents in [-4,4]); amplitude in [1e-3,1e3] of either sign")

EV = {"eV": 1.0, "GeV": 1e9, "TeV": 1e12, "MeV": 1e6, "erg": 6.241509074460763e11}


def pars(ctx):
    import astropy.units as u

    a = ctx.real("amp", -1e3, 1e3)
    aunit = ctx.choice("aunit", ["1/eV", "1/(s cm2 TeV)"])
    return a, aunit, a * u.Unit(aunit)


def spec(ctx, kind, p, e):
    """documented f(E)/A, everything in TeV"""
    m = ctx.m
    e0 = p["e0"]
    r = e / e0
    if kind == "pl":
        return m.pow(r, -p["a1"])
    if kind == "ecpl":
        return m.pow(r, -p["a1"]) * m.exp(-m.pow(e / p["ec"], p["beta"]))
    if kind in ("bpl", "ecbpl"):
        if e < p["eb"]:
            f = m.pow(r, -p["a1"])
        else:
            f = m.pow(p["eb"] / e0, p["a2"] - p["a1"]) * m.pow(r, -p["a2"])
        if kind == "ecbpl":
            f = f * m.exp(-m.pow(e / p["ec"], p["beta"]))
        return f
    if kind == "lp":
        return m.pow(r, -p["a1"] - p["b"] * m.log(r))


def build(ctx, kind, defaults=False):
    """model with symbolic parameters given in assorted units, and its spec parameters"""
    from naima import models as M

    a, aunit, amp = pars(ctx)
    pu = ctx.choice("punit", ["TeV", "erg"])
    k = EV["TeV"] / EV[pu]
    p = {"e0": ctx.real("e0", 1e-4, 1e4), "a1": ctx.real("a1", -5, 5)}
    q = lambda n: ctx.q(p[n] * k, pu)
    if kind == "pl":
        m = M.PowerLaw(amp, q("e0"), p["a1"])
    elif kind == "ecpl":
        p["ec"] = ctx.real("ec", 1e-4, 1e4)
        p["beta"] = 1.0 if defaults else ctx.real("beta", -4, 4)
        kw = {} if defaults else {"beta": p["beta"]}
        m = M.ExponentialCutoffPowerLaw(amp, q("e0"), p["a1"], q("ec"), **kw)
    elif kind == "bpl":
        p["eb"], p["a2"] = ctx.real("eb", 1e-4, 1e4), ctx.real("a2", -5, 5)
        m = M.BrokenPowerLaw(amp, q("e0"), q("eb"), p["a1"], p["a2"])
    elif kind == "ecbpl":
        p["eb"], p["a2"] = ctx.real("eb", 1e-4, 1e4), ctx.real("a2", -5, 5)
        p["ec"] = ctx.real("ec", 1e-4, 1e4)
        p["beta"] = 1.0 if defaults else ctx.real("beta", -4, 4)
        kw = {} if defaults else {"beta": p["beta"]}
        m = M.ExponentialCutoffBrokenPowerLaw(amp, q("e0"), q("eb"), p["a1"], p["a2"], q("ec"), **kw)
    else:
        p["b"] = ctx.real("b", -1, 1)
        m = M.LogParabola(amp, q("e0"), p["a1"], p["b"])
    return m, p, a, aunit


def formula(kind):
    def h(ctx):
        m, p, a, aunit = build(ctx, kind, defaults=ctx.bool("defaults") if kind in ("ecpl", "ecbpl") else False)
        n = ctx.choice("n", ["scalar", "one", "two", "desc", "table"])
        eu = ctx.choice("eunit", ["TeV", "MeV", "erg"])
        e1 = ctx.real("E", 1e-4, 1e4)
        k = EV["TeV"] / EV[eu]
        if n == "scalar":
            got, es = m(ctx.q(e1 * k, eu)), [e1]
        elif n == "one":
            got, es = m(ctx.q(ctx.arr([e1 * k]), eu)), [e1]
        elif n == "table":
            got, es = m({"energy": ctx.q(ctx.arr([e1 * k]), eu)}), [e1]
        else:
            # second energy across a wide but fixed ratio, either order
            es = [e1, e1 * (1e3 if n == "two" else 1e-3)]
            got = m(ctx.q(ctx.arr([x * k for x in es]), eu))
        ref = [a * spec(ctx, kind, p, x) for x in es]
        ctx.eqq("f", got, ctx.q(ref[0] if n == "scalar" else ctx.arr(ref), aunit), rel=1e-7)

    return h


def reassigned(ctx):
    """parameters changed after a first evaluation are honoured by the next one"""
    kind = ctx.choice("kind", ["pl", "ecpl", "bpl", "ecbpl", "lp"])
    m, p, a, aunit = build(ctx, kind)
    e = ctx.real("E", 1e-4, 1e4)
    E = ctx.q(ctx.arr([e]), "TeV")
    m(E)
    which = ctx.choice("which", ["amplitude", "alpha", "e_0"])
    x = ctx.real("x", 1e-2, 5.0)
    if which == "amplitude":
        m.amplitude = ctx.q(x, aunit)
        a = x
    elif which == "alpha":
        if hasattr(m, "alpha"):
            m.alpha = x
        else:
            m.alpha_1 = x
        p["a1"] = x
    else:
        m.e_0 = ctx.q(x * 1e3, "GeV")
        p["e0"] = x
    ctx.eqq("f", m(E), ctx.q(ctx.arr([a * spec(ctx, kind, p, e)]), aunit), rel=1e-7)


def at_break(ctx):
    """the two branches of broken power laws meet at the break energy"""
    kind = ctx.choice("kind", ["bpl", "ecbpl"])
    m, p, a, aunit = build(ctx, kind)
    lo = spec(ctx, kind, dict(p, eb=p["eb"] * 2.0), p["eb"])
    ctx.eqq("f", m(ctx.q(ctx.arr([p["eb"]]), "TeV")), ctx.q(ctx.arr([a * lo]), aunit), rel=1e-7)


HARNESSES = [("formula_" + k, formula(k)) for k in ("pl", "ecpl", "bpl", "ecbpl", "lp")]
HARNESSES += [("reassigned", reassigned), ("at_break", at_break)]
