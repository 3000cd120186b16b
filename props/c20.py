"""C20: upper limits."""
import numpy as np

from . import fit, tables as T

BOUNDS = ("tables of 1-3 rows, one or two tables; symbolic limits, models and confidence levels; "
          "boolean, integer and text flags")
ASSUMPTIONS = ["a model exactly equal to a limit is only checked in harness boundary"]
LIMITS = {"ties": False, "seconds": 100}
FLAGS2 = [[True, False], [False, True], [True, True], [False, False]]


def total(ctx, table, rows, kind, sed, mkinds=None, nul=None):
    mk = ctx.choice("mk", mkinds or [kind])
    mu = list(T.KINDS[mk])[-1]
    model, m = fit.values(ctx, rows, mk, mu)
    fn, s = fit.posterior(table, model, data_sed=sed)
    out = fn(np.array([1.0]))
    want = fit.lnlike(ctx, rows, m, mk, T_sed(sed, kind))
    ctx.eq("lnprob", fit_value(out), want)


def T_sed(sed, kind):
    return kind in ("flux", "power") if sed is None else sed


def fit_value(out):
    v = out[0]
    return getattr(v, "value", v)


def flags(style):
    def h(ctx):
        fl = ctx.choice("flags", FLAGS2)
        kind = ctx.choice("kind", ["dflux", "power"])
        fu = ctx.bool("flux_ul")
        cl = ctx.choice("cl", [None, 0.95])
        t, rows = T.make(ctx, "a", 2, kind=kind, err="asym", ul=(style, fl), flux_ul=fu, cl=cl)
        total(ctx, t, rows, kind, ctx.choice("sed", [None, True]))
    h.__name__ = "flags_" + style
    return h


def validated(style):
    """flags, limits and confidence levels of the validated table"""
    def h(ctx):
        from naima.utils import validate_data_table

        fl = ctx.choice("flags", FLAGS2)
        kind = ctx.choice("kind", list(T.KINDS))
        fu = ctx.bool("flux_ul")
        cl = ctx.choice("cl", [None, 0.99])
        t, rows = T.make(ctx, "a", 2, kind=kind, ul=(style, fl), flux_ul=fu, cl=cl,
                         qtable=ctx.bool("q"))
        snap = T.snapshot(t)
        sed = ctx.choice("sed", [None, True, False])
        with fit.quiet():
            got = validate_data_table(t, sed=sed)
        T.compare(ctx, got, rows, T_sed(sed, kind))
        T.unchanged(ctx, "input", t, snap)
    h.__name__ = "validated_" + style
    return h


def per_table(ctx):
    """every table keeps its own confidence level"""
    ca, cb = ctx.choice("cls", [(None, 0.99), (0.68, None), (0.95, 0.5), (None, None)])
    la, lb = ctx.choice("lim", [(True, True), (False, True), (True, False)])
    a, ra = T.make(ctx, "a", 1, err="sym", ul=("bool", [la]), cl=ca, ebins="width")
    b, rb = T.make(ctx, "b", 1, kind="flux", err="asym", ul=("int", [lb]), cl=cb, ebins="width")
    total(ctx, [a, b], ra + rb, "dflux", None)


def level(ctx):
    """any confidence level"""
    cl = ctx.real("cl", 0.1, 0.999)
    t, rows = T.make(ctx, "a", 2, ul=("bool", [True, True]), cl=cl)
    total(ctx, t, rows, "dflux", None)


def three(ctx):
    fl = ctx.choice("flags", [[True, False, True], [False, True, False], [True, True, False]])
    t, rows = T.make(ctx, "a", 3, kind="dflux", err="asym", ul=("int", fl), flux_ul=True, cl=0.95)
    total(ctx, t, rows, "dflux", None)


def boundary(ctx):
    """a model equal to the limit does not violate it"""
    t, rows = T.make(ctx, "a", 2, ul=("bool", [True, False]))
    idx = T.order(ctx, [r["e"] for r in rows])
    vals = [rows[0]["f"], rows[1]["f"]]
    model = lambda p, d: d["flux"] * 1.0
    fn, s = fit.posterior(t, model)
    ctx.zero("lnprob", fit_value(fn(np.array([1.0]))), 1.0)


def irrelevant(ctx):
    """below the limit neither the limit nor its errors matter"""
    t, rows = T.make(ctx, "a", 2, err="asym", ul=("bool", [True, False]))
    model, m = fit.values(ctx, rows, "dflux", "1/(cm2 s TeV)")
    ctx.assume(m[0] * 1.001 < rows[0]["f"])
    fn, s = fit.posterior(t, model)
    d = m[1] - rows[1]["f"]
    above = bool(d > 0)
    er = rows[1]["fhi"] if above else rows[1]["flo"]
    ctx.eq("lnprob", fit_value(fn(np.array([1.0]))), -(d * d) / (2 * er * er))


def refused(ctx):
    """flags that are neither booleans, integers nor True/False texts"""
    from naima.utils import validate_data_table

    t, rows = T.make(ctx, "a", 2)
    t["ul"] = ctx.choice("ul", [np.array([0.5, 1.0]), np.array(["yes", "no"]),
                                np.array(["True", "no"]), np.array(["1", "0"]),
                                np.array(["true", "False"])])
    try:
        validate_data_table(t)
        ok = False
    except (TypeError, ValueError):
        ok = True
    ctx.true("refused", ok)


HARNESSES = [("flags_" + s, flags(s)) for s in ("bool", "int", "str")]
HARNESSES += [("validated_" + s, validated(s)) for s in ("bool", "int", "str")]
HARNESSES += [("per_table", per_table), ("level", level), ("three", three),
              ("boundary", boundary), ("irrelevant", irrelevant), ("refused", refused)]
