"""C22: prior densities."""
import math

import numpy as np

from . import fit, tables as T

BOUNDS = "symbolic values, limits, means and widths over several decades and both signs"
ASSUMPTIONS = ["boundary values are checked by passing the limit itself"]
LIMITS = {"ties": False, "seconds": 60}
INF = float("inf")


def scalar(x):
    x = getattr(x, "value", x)
    return x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x


def uniform(ctx):
    from naima import uniform_prior

    v, a, b = ctx.real("v", -10, 10), ctx.real("a", -10, 10), ctx.real("b", -10, 10)
    ctx.assume(a < b)
    kw = ctx.bool("kw")
    got = scalar(uniform_prior(v, umin=a, umax=b) if kw else uniform_prior(v, a, b))
    inside = bool(v > a) and bool(v < b)
    ctx.eq("value", got, 0.0 if inside else -INF)


def uniform_edges(ctx):
    """the limits belong to the range"""
    from naima import uniform_prior

    a, b = ctx.real("a", -10, 10), ctx.real("b", -10, 10)
    ctx.assume(a < b)
    ctx.eq("lower", scalar(uniform_prior(a, a, b)), 0.0)
    ctx.eq("upper", scalar(uniform_prior(b, a, b)), 0.0)
    ctx.eq("empty", scalar(uniform_prior(a, b, a)), -INF)
    ctx.eq("point", scalar(uniform_prior(a, a, a)), 0.0)
    side = ctx.choice("side", [-INF, INF])
    ctx.eq("half", scalar(uniform_prior(a, *((-INF, b) if side < 0 else (a - 1, INF)))), 0.0)


def normal(ctx):
    """log of the normal density"""
    from naima import normal_prior

    v, mu, s = ctx.real("v", -10, 10), ctx.real("mu", -10, 10), ctx.real("s", 1e-2, 10)
    got = scalar(normal_prior(v, mean=mu, sigma=s) if ctx.bool("kw") else normal_prior(v, mu, s))
    d = (v - mu) / s
    ctx.zero("value", got + d * d / 2 + ctx.m.log(s) + 0.5 * math.log(2 * math.pi), 1.0 + d * d)


def normal_shape(ctx):
    """symmetric, highest at the mean, one sigma lower by 1/2"""
    from naima import normal_prior

    mu, s = ctx.real("mu", -10, 10), ctx.real("s", 1e-2, 10)
    d = ctx.real("d", 0.01, 5)
    a, b = scalar(normal_prior(mu + d, mu, s)), scalar(normal_prior(mu - d, mu, s))
    p = scalar(normal_prior(mu, mu, s))
    t = (d / s) * (d / s)
    ctx.zero("symmetric", a - b, 1.0 + t)
    ctx.zero("sigma", scalar(normal_prior(mu + s, mu, s)) - p + 0.5, 1.0)
    ctx.lt("peak", a, p)


def normal_integral(ctx):
    """normalised: scaling the width by k scales the peak by 1/k"""
    from naima import normal_prior

    mu, s, k = ctx.real("mu", -10, 10), ctx.real("s", 1e-2, 10), ctx.real("k", 1e-2, 100)
    ctx.zero("peak", scalar(normal_prior(mu, mu, s)) - scalar(normal_prior(mu, mu, k * s))
             - ctx.m.log(k), 1.0)


def log_uniform(ctx):
    """log of 1/value inside the limits"""
    from naima import log_uniform_prior

    v = ctx.real("v", -10, 100)
    form = ctx.choice("form", ["none", "min", "max", "both", "kwmax", "kwboth"])
    a = ctx.real("a", -5, 50) if form in ("min", "both", "kwboth") else None
    b = ctx.real("b", 1e-2, 200) if form in ("max", "both", "kwmax", "kwboth") else None
    if a is not None and b is not None:
        ctx.assume(a < b)
    got = {"none": lambda: log_uniform_prior(v), "min": lambda: log_uniform_prior(v, a),
           "max": lambda: log_uniform_prior(v, 0, b), "both": lambda: log_uniform_prior(v, a, b),
           "kwmax": lambda: log_uniform_prior(v, umax=b),
           "kwboth": lambda: log_uniform_prior(v, umin=a, umax=b)}[form]()
    if bool(v > 0) and (a is None or bool(v > a)) and (b is None or bool(v < b)):
        ctx.zero("value", scalar(got) + ctx.m.log(v), 1.0 + abs(ctx.m.log(v)))
    else:
        ctx.eq("outside", scalar(got), -INF)


def log_uniform_edges(ctx):
    from naima import log_uniform_prior

    a, b = ctx.real("a", 1e-3, 10), ctx.real("b", 1e-3, 100)
    ctx.assume(a < b)
    big = 1.0 + abs(ctx.m.log(a)) + abs(ctx.m.log(b))
    ctx.zero("lower", scalar(log_uniform_prior(a, a, b)) + ctx.m.log(a), big)
    ctx.zero("upper", scalar(log_uniform_prior(b, a, b)) + ctx.m.log(b), big)
    # zero and negative values have no density, whatever the limits
    ctx.eq("zero", scalar(log_uniform_prior(0.0, 0, b)), -INF)
    ctx.eq("zero_default", scalar(log_uniform_prior(0.0)), -INF)
    ctx.eq("negative", scalar(log_uniform_prior(-a, -b, b)), -INF)
    ctx.eq("negative_default", scalar(log_uniform_prior(-a)), -INF)


def ratio(ctx):
    """equal weight for equal logarithmic intervals"""
    from naima import log_uniform_prior

    v, k = ctx.real("v", 1e-3, 10), ctx.real("k", 1.1, 100)
    ctx.zero("ratio", scalar(log_uniform_prior(v)) - scalar(log_uniform_prior(k * v))
             - ctx.m.log(k), 1.0 + ctx.m.log(k))


def sums(ctx):
    """the priors of a posterior add up"""
    from naima import log_uniform_prior, normal_prior, uniform_prior

    t, rows = T.make(ctx, "t", 1, ebins="width")
    model, m = fit.values(ctx, rows, "dflux", "1/(cm2 s TeV)")
    p = ctx.reals("p", 3, -1, 5)
    a, b, mu, s, top = ctx.real("a", -1, 0), ctx.real("b", 1, 5), ctx.real("mu", -1, 5), \
        ctx.real("s", 0.1, 3), ctx.real("top", 1, 5)

    def prior(pars):
        return (uniform_prior(pars[0], a, b) + normal_prior(pars[1], mu, s)
                + log_uniform_prior(pars[2], 0.5, top))

    f, _ = fit.posterior(t, model, prior, p0=(0.5, 1.0, 0.7))
    got = scalar(f(ctx.arr(p))[0])
    if bool(p[0] > a) and bool(p[0] < b) and bool(p[2] > 0.5) and bool(p[2] < top):
        d = (p[1] - mu) / s
        like = fit.lnlike(ctx, rows, m, "dflux", False)
        w = like - d * d / 2 - ctx.m.log(s) - 0.5 * math.log(2 * math.pi) - ctx.m.log(p[2])
        ctx.zero("sum", got - w, 1.0 + d * d - like)
    else:
        ctx.eq("forbidden", got, -INF)


def limits(ctx):
    """limits at and below zero and at infinity are limits too"""
    from naima import log_uniform_prior, uniform_prior

    v = ctx.real("v", 1e-3, 10)
    for lo in (0, 0.0, -1.0, -INF):
        for hi in (0, 0.0, -0.5):
            ctx.eq("below", scalar(log_uniform_prior(v, umin=lo, umax=hi)), -INF)
        ctx.zero("above", scalar(log_uniform_prior(v, lo, INF)) + ctx.m.log(v), 1.0 + abs(ctx.m.log(v)))
        ctx.zero("nomax", scalar(log_uniform_prior(v, lo, None)) + ctx.m.log(v), 1.0 + abs(ctx.m.log(v)))
    ctx.eq("uniform_zero", scalar(uniform_prior(v, 0, 0)), -INF)
    ctx.eq("uniform_zero_max", scalar(uniform_prior(v, -1, 0)), -INF)
    ctx.eq("uniform_zero_min", scalar(uniform_prior(-v, 0, 1)), -INF)
    ctx.eq("uniform_zero_in", scalar(uniform_prior(0.0, 0, v)), 0.0)
    ctx.eq("uniform_all", scalar(uniform_prior(v, -INF, INF)), 0.0)


HARNESSES = [("limits", limits), ("uniform", uniform), ("uniform_edges", uniform_edges), ("normal", normal),
             ("normal_shape", normal_shape), ("normal_integral", normal_integral),
             ("log_uniform", log_uniform), ("log_uniform_edges", log_uniform_edges),
             ("ratio", ratio), ("sums", sums)]
