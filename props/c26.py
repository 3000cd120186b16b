"""C26: the sampler set up by get_sampler and its guess of the normalisation."""
import math

import numpy as np

from . import fit, tables as T
from .c25 import Normal
from .common import Patches

BOUNDS = ("two or three parameters, tables of 2-3 rows; symbolic data, model, starting values and "
          "random numbers; fifteen label lists")
ASSUMPTIONS = ["the spectra of data and model have positive integrals"]
LIMITS = {"ties": False, "seconds": 100}
# labels -> (index of the normalisation, how it enters) or None
LABELS = [
    (None, (0, "lin")), (["norm", "index"], (0, "lin")), (["index", "Norm"], (1, "lin")),
    (["Amplitude", "x"], (0, "lin")), (["x", "We"], (1, "lin")), (["x", "Wp (erg)"], (1, "lin")),
    (["log10(norm)", "x"], (0, "log10")), (["log(norm)", "x"], (0, "log")),
    (["x", "log10(We)"], (1, "log10")), (["Log(Amplitude)", "x"], (0, "log")),
    (["LOG10(normalization)", "x"], (0, "log10")), (["x", "log(Wp)"], (1, "log")),
    (["index", "cutoff"], None), (["norm", "norm2"], None), (["norm", "log10(We)"], None),
    (["cutoff norm", "log10(cutoff)"], None), (["x"], None), (["log10(ampl)"], (0, "log10")),
    (("norm", "x"), (0, "lin")), ([], None),
]


def sampler(ctx, t, model, **kw):
    from naima import get_sampler

    nrm = Normal(ctx)
    with Patches([(np.random, "normal", nrm)]), fit.quiet():
        s, pos = get_sampler(data_table=t, model=model,
                             **dict(dict(nwalkers=4, nburn=0, threads=1), **kw))
    return s, getattr(pos, "coords", pos), nrm


def energy_integral(ctx, rows, v, kind):
    """trapezoid integral of E dN/dE over the sorted energies (TeV based)"""
    idx = T.order(ctx, [r["e"] for r in rows])
    y = [T.to_sed(ctx, dict(v=v[i], e=rows[i]["e"], kind=kind), "v", False) * rows[i]["e"]
         for i in idx]
    e = [rows[i]["e"] for i in idx]
    s = 0.0
    for i in range(len(e) - 1):
        s = s + (e[i + 1] - e[i]) * (y[i] + y[i + 1]) / 2
    return s


def setup(ctx, n, kind, mk, **kw):
    t, rows = T.make(ctx, "t", n, kind=kind, ebins="width", **kw)
    for r in rows:
        ctx.assume(r["f"] > 0.1)
    model, m = fit.values(ctx, rows, mk, list(T.KINDS[mk])[-1], lo=0.1, hi=5.0)
    ratio = energy_integral(ctx, rows, [r["f"] for r in rows], kind) / \
        energy_integral(ctx, rows, m, mk)
    return t, rows, model, m, ratio


def expected(ctx, p0, how, ratio):
    p = list(p0)
    if how:
        i, k = how
        p[i] = p[i] * ratio if k == "lin" else p[i] + (
            ctx.m.log(ratio) if k == "log" else ctx.m.log(ratio) / math.log(10))
    return p


def check(ctx, s, c, nrm, p0, how, ratio, scale=50.0):
    want = expected(ctx, p0, how, ratio)
    add = lambda j: scale if how and how[0] == j and how[1] != "lin" else 0.0
    ctx.true("npar", len(s.run_info["p0"]) == len(p0))
    for j, (a, b) in enumerate(zip(s.run_info["p0"], want)):
        ctx.eq("p0", a + add(j), b + add(j))
    ctx.true("walkers", np.shape(c) == (4, len(p0)), "%s" % (np.shape(c),))
    for i in range(4):
        for j in range(len(p0)):
            ctx.eq("walker", c[i][j] + 2 * add(j), want[j] * (1 + 0.1 * nrm.rows[i][j]) + 2 * add(j))


def labels(ctx):
    """which parameter is scaled"""
    lab, how = ctx.choice("labels", LABELS)
    if lab == []:
        how = None
    t, rows, model, m, ratio = setup(ctx, 2, "dflux", "dflux")
    p0 = ctx.reals("p", 2, 0.5, 2)
    given = ctx.choice("form", ["list", "array"])
    g = list(p0) if given == "list" else ctx.arr(p0)
    lst = lab if lab is None else type(lab)(lab)
    s, c, nrm = sampler(ctx, t, model, p0=g, labels=lst)
    check(ctx, s, c, nrm, p0, how, ratio)
    # the caller's arguments are left alone
    ctx.true("labels_kept", lst == lab)
    ctx.true("p0_length", len(g) == 2)
    for a, b in zip(g, p0):
        ctx.eq("p0_kept", a, b)
    full = ["norm", "par1"] if lab is None else list(lab) + ["par%d" % i for i in range(len(lab), 2)]
    ctx.true("labels", list(s.labels) == full, "%s" % (s.labels,))


def kinds(ctx):
    """data and model in any form and unit"""
    kind, mk = ctx.choice("kinds", [("dflux", "flux"), ("flux", "dflux"), ("flux", "flux"),
                                    ("dpower", "power"), ("power", "power")])
    n = ctx.choice("n", [2, 3] if (kind, mk) == ("dflux", "flux") else [2])
    how = ctx.choice("how", ["lin", "log10"])
    sed = ctx.choice("sed", [None, True, False])
    t, rows, model, m, ratio = setup(ctx, n, kind, mk, eunit="erg" if sed else "TeV")
    p0 = ctx.reals("p", 2, 0.5, 2)
    fn = model if ctx.bool("plain") else lambda p, d: (model(p, d), 1.0)
    s, c, nrm = sampler(ctx, t, fn, p0=list(p0), data_sed=sed,
                        labels=["norm" if how == "lin" else "log10(norm)", "x"])
    check(ctx, s, c, nrm, p0, (0, how), ratio)


def limits(ctx):
    """upper limits belong to the data's spectrum like any other point"""
    fl = ctx.choice("ul", [(False, True), (True, False), (False, True, False), (True, True)])
    t, rows, model, m, ratio = setup(ctx, len(fl), "dflux", ctx.choice("mk", ["dflux", "flux"]),
                                     ul=("bool", list(fl)), flux_ul=ctx.choice("column", [False, True]))
    p0 = ctx.reals("p", 2, 0.5, 2)
    s, c, nrm = sampler(ctx, t, model, p0=list(p0), labels=["norm", "x"])
    check(ctx, s, c, nrm, p0, (0, "lin"), ratio)


def off(ctx):
    """no guess when told not to"""
    t, rows, model, m, ratio = setup(ctx, 2, "dflux", "dflux")
    p0 = [-1 * ctx.real("pa", 0.5, 2), ctx.real("pb", 0.5, 2)]
    s, c, nrm = sampler(ctx, t, model, p0=list(p0), guess=False, labels=["norm", "x"])
    check(ctx, s, c, nrm, p0, None, ratio)


def attributes(ctx):
    """the sampler knows its data, labels, model and settings"""
    t, rows, model, m, ratio = setup(ctx, 2, "dflux", "dflux")
    p0 = ctx.reals("p", 3, 0.5, 2)
    g, nw = ctx.bool("guess"), ctx.choice("nw", [6, 8])
    sed = ctx.choice("sed", [None, True])
    from naima import get_sampler

    nrm = Normal(ctx)
    with Patches([(np.random, "normal", nrm)]), fit.quiet():
        s, pos = get_sampler(data_table=t, model=model, p0=list(p0), labels=["norm", "a"],
                             nwalkers=nw, nburn=0, threads=1, guess=g, data_sed=sed)
    ctx.true("data_table", s.data_table is t)
    ctx.true("labels", list(s.labels) == ["norm", "a", "par2"])
    ctx.true("model", s.modelfn is model)
    T.compare(ctx, s.data, rows, bool(sed))
    ri = s.run_info
    ctx.true("settings", ri["n_walkers"] == nw and ri["n_burn"] == 0 and ri["guess"] == g)
    c = getattr(pos, "coords", pos)
    ctx.true("shape", np.shape(c) == (nw, 3))
    ctx.true("plain", all(not hasattr(v, "unit") for v in ri["p0"]))
    # median of the walkers
    for j in range(3):
        col = [c[i][j] for i in range(nw)]
        if ctx.sym:
            continue
        ctx.eq("median", ri["p0_burn_median"][j], float(np.median(col)))


def integers(ctx):
    """starting values given as integers"""
    t, rows, model, m, ratio = setup(ctx, 2, "dflux", "dflux")
    g = ctx.choice("p0", [[2, 3], (1, 4), np.array([2, 5])])
    s, c, nrm = sampler(ctx, t, model, p0=g, labels=["norm", "x"])
    check(ctx, s, c, nrm, [float(v) for v in g], (0, "lin"), ratio)


def missing(ctx):
    """data and model are required and must be spectra"""
    from naima import get_sampler

    case = ctx.choice("case", ["data", "model", "unit"])
    t, rows, model, m, ratio = setup(ctx, 2, "dflux", "dflux")
    kw = dict(data_table=t, model=model, p0=[1.0, 1.0], nwalkers=4, nburn=0, threads=1)
    if case == "data":
        kw.pop("data_table")
    elif case == "model":
        kw.pop("model")
    else:
        kw["model"] = lambda p, d: ctx.q(np.ones(2), "cm")
    import astropy.units as u

    try:
        with fit.quiet():
            get_sampler(**kw)
        ok = False
    except (u.UnitsError if case == "unit" else TypeError):
        ok = True
    ctx.true("refused", ok)


HARNESSES = [("labels", labels), ("kinds", kinds), ("limits", limits), ("off", off), ("attributes", attributes),
             ("integers", integers), ("missing", missing)]
