"""C21: the likelihood of the detected points."""
import numpy as np

from . import fit, tables as T
from .c20 import T_sed, fit_value

BOUNDS = ("tables of 1-3 rows, one or two tables; symbolic energies, fluxes, errors and model "
          "values; every mix of SED and differential model and data, several units")
ASSUMPTIONS = ["a model exactly equal to a measurement is only checked in harness exact"]
LIMITS = {"ties": False, "seconds": 100}
PAIRS = [(a, b) for fam in (("dflux", "flux"), ("dpower", "power")) for a in fam for b in fam]


def run(ctx, table, rows, kind, mk, mu, sed, blob="plain", label=""):
    model, m = fit.values(ctx, rows, mk, mu)
    fn = {"plain": model, "tuple": lambda p, d: (model(p, d), 3.0),
          "list": lambda p, d: [model(p, d), ctx.q(1.0, "erg")]}[blob]
    f, s = fit.posterior(table, fn, data_sed=sed)
    out = f(np.array([1.0]))
    ctx.eq(label + "lnprob", fit_value(out), fit.lnlike(ctx, rows, m, mk, T_sed(sed, kind)))
    return m, out


def pairs(err):
    def h(ctx):
        kind, mk = ctx.choice("kinds", PAIRS)
        sed = ctx.choice("sed", [None, True, False])
        fu, mu = ctx.choice("fu", [0, 1]), ctx.choice("mu", [0, 1])
        t, rows = T.make(ctx, "a", 2, kind=kind, funit=list(T.KINDS[kind])[fu], err=err,
                         ebins="width")
        run(ctx, t, rows, kind, mk, list(T.KINDS[mk])[mu], sed)
    h.__name__ = "pairs_" + err
    return h


def energies(ctx):
    """the unit of the energies does not matter"""
    kind, mk = ctx.choice("kinds", PAIRS[:4])
    eu = ctx.choice("eu", list(T.E_UNITS))
    n = ctx.choice("n", [1, 2])
    t, rows = T.make(ctx, "a", n, kind=kind, eunit=eu, err="asym", ebins="error",
                     qtable=ctx.bool("q"))
    run(ctx, t, rows, kind, mk, list(T.KINDS[mk])[0], ctx.choice("sed", [None, True, False]))


def shapes(ctx):
    """models that return further outputs are judged by the first"""
    t, rows = T.make(ctx, "a", 2, kind="dflux", err="asym")
    mk = ctx.choice("mk", ["dflux", "flux"])
    run(ctx, t, rows, "dflux", mk, list(T.KINDS[mk])[0], None,
        blob=ctx.choice("blob", ["plain", "tuple", "list"]))


def three(ctx):
    kind, mk = ctx.choice("kinds", [("dflux", "dflux"), ("flux", "dflux"), ("dpower", "power")])
    t, rows = T.make(ctx, "a", 3, kind=kind, err="asym", ebins="edges")
    run(ctx, t, rows, kind, mk, list(T.KINDS[mk])[0], None)


def several(ctx):
    """the points of several tables count once each"""
    ka, kb = ctx.choice("kinds", [("dflux", "flux"), ("flux", "dflux"), ("power", "dpower")])
    mk = ctx.choice("mk", [ka, kb])
    na, nb = ctx.choice("n", [(1, 1), (2, 1), (1, 2)])
    a, ra = T.make(ctx, "a", na, kind=ka, err="sym", ebins="width")
    b, rb = T.make(ctx, "b", nb, kind=kb, funit=list(T.KINDS[kb])[1], err="asym", ebins="width")
    run(ctx, [a, b], ra + rb, ka, mk, list(T.KINDS[mk])[1], ctx.choice("sed", [None, True, False]))


def exact(ctx):
    """a model equal to the data has zero log-likelihood"""
    kind = ctx.choice("kind", ["dflux", "flux"])
    t, rows = T.make(ctx, "a", 2, kind=kind, err="asym")
    f, s = fit.posterior(t, lambda p, d: d["flux"] * 1.0, data_sed=ctx.choice("sed", [None, True]))
    ctx.zero("lnprob", fit_value(f(np.array([1.0]))), 1.0)


def parameters(ctx):
    """the model sees the parameters and the table it is compared with"""
    t, rows = T.make(ctx, "a", 2, kind="dflux", err="asym", ebins="width")
    p = ctx.reals("p", 2, 0.5, 2)
    seen = []

    def model(pars, data):
        seen.append(data)
        return ctx.q(pars[0] * data["energy"].to("TeV").value + pars[1], "1/(cm2 s TeV)")

    f, s = fit.posterior(t, model, p0=(1.0, 1.0), data_sed=False)
    got = fit_value(f(ctx.arr(p)))
    m = [p[0] * r["e"] + p[1] for r in rows]
    ctx.eq("lnprob", got, fit.lnlike(ctx, rows, m, "dflux", False))
    T.compare(ctx, seen[-1], rows, False)
    # nothing is remembered from one evaluation to the next
    q = ctx.reals("q", 2, 0.5, 2)
    m = [q[0] * r["e"] + q[1] for r in rows]
    ctx.eq("second", fit_value(f(ctx.arr(q))), fit.lnlike(ctx, rows, m, "dflux", False))


def zero_model(ctx):
    """a model of exactly zero is as far from the data as any other"""
    kind, mk = ctx.choice("kinds", [("dflux", "dflux"), ("flux", "dflux"), ("power", "power")])
    t, rows = T.make(ctx, "a", 2, kind=kind, err="asym", ebins="width")
    z = ctx.choice("z", [(0,), (1,), (0, 1)])
    m = [ctx.const(0.0) if i in z else ctx.real("m%d" % i, -3, 3) for i in range(2)]
    un = list(T.KINDS[mk])[0]
    idx = T.order(ctx, [r["e"] for r in rows])
    vals = ctx.arr([m[i] / T.KINDS[mk][un] for i in idx])
    f, s = fit.posterior(t, lambda p, d: ctx.q(vals, un), data_sed=None)
    ctx.eq("lnprob", fit_value(f(np.array([1.0]))), fit.lnlike(ctx, rows, m, mk, T_sed(None, kind)))


HARNESSES = [("zero_model", zero_model), ("pairs_sym", pairs("sym")), ("pairs_asym", pairs("asym")), ("energies", energies),
             ("shapes", shapes), ("three", three), ("several", several), ("exact", exact),
             ("parameters", parameters)]
