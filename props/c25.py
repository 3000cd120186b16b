"""C25: the maximum-likelihood fit that can precede sampling."""
import sys

import numpy as np

from . import fit, tables as T
from .common import Patches

BOUNDS = ("two parameters; the minimiser is replaced by one that evaluates its objective at the "
          "start and at an arbitrary point and returns that point with any status")
ASSUMPTIONS = ["the minimiser itself is decided by C24", "random numbers: arbitrary in harness random, fixed elsewhere"]
LIMITS = {"ties": False, "seconds": 100}
INF = float("inf")


class Minimiser:
    """stands for extern.minimize.minimize: any result is possible"""

    def __init__(self, ctx, xs, status):
        self.ctx, self.xs, self.status, self.calls, self.values = ctx, xs, status, [], []

    def __call__(self, func, x0, args=(), options={}, method=None):
        from naima.extern.minimize import OptimizeResult

        self.calls.append([fit.plain(v) for v in np.asarray(x0, dtype=object).reshape(-1)])
        x = self.ctx.arr(self.xs)
        v0, v = func(np.asarray(x0), *args), func(x, *args)
        self.values.append((fit.scalar(v0), fit.scalar(v)))
        return OptimizeResult(fun=v, nit=1, nfev=2, status=self.status, success=self.status == 0,
                              message="", x=x)


def everywhere(name, value):
    """replace a naima function wherever it was imported"""
    import naima.extern.minimize as mod

    orig = getattr(mod, name)
    items = []
    for mn, m in list(sys.modules.items()):
        if mn == "naima" or mn.startswith("naima."):
            for k, v in list(vars(m).items()):
                if v is orig:
                    items.append((m, k, value))
    return Patches(items)


class Normal:
    """given random numbers, the same in a replay; arbitrary ones on request"""
    VALUES = [0.5, -1.25, 2.0, -0.25, 1.5, -2.5, 0.75, -0.75, 3.0, 0.125, -1.75, 2.25]

    def __init__(self, ctx, free=False):
        self.ctx, self.rows, self.free, self.k = ctx, [], free, 0

    def __call__(self, *a, size=None, **k):
        n = size if size is not None else 1
        c = int(np.prod(n))
        if self.free:
            row = self.ctx.reals("z%d_" % len(self.rows), c, -3, 3)
        else:
            row = [self.VALUES[(self.k + i) % 12] for i in range(c)]
            self.k += c
        self.rows.append(row)
        return self.ctx.arr(row).reshape(n)


def linear(ctx, rows):
    """model p0*E + p1 and its values"""
    def model(p, data):
        return ctx.q(fit.plain(p[0]) * data["energy"].to("TeV").value + fit.plain(p[1]),
                     "1/(cm2 s TeV)")
    return model, lambda p: [p[0] * r["e"] + p[1] for r in rows]


def run(ctx, status, prior, p0, xs, rows, t, free=False, **kw):
    model, vals = linear(ctx, rows)
    mini, nrm = Minimiser(ctx, xs, status), Normal(ctx, free)
    kw = dict(dict(prefit=True, p0=p0, nwalkers=4), **kw)
    with everywhere("minimize", mini), Patches([(np.random, "normal", nrm)]):
        from naima import get_sampler

        with fit.quiet():
            s, pos = get_sampler(data_table=t, model=model, prior=prior, nburn=0, threads=1,
                                 **dict(dict(guess=False), **kw))
    return s, pos, mini, nrm, vals


def outcome(prior_kind):
    def h(ctx):
        t, rows = T.make(ctx, "t", 2 if prior_kind == "none" else 1, err="sym", ebins="width")
        p0, xs = ctx.reals("p", 2, 0.5, 2), ctx.reals("x", 2, 0.5, 2)
        status = ctx.choice("status", [0, 1, 2])
        lim = ctx.real("lim", 0.5, 2)
        prior = {"none": None, "limit": lambda p: 0.0 if bool(p[0] <= lim) else -INF,
                 "weight": lambda p: p[0] + p[1]}[prior_kind]
        s, pos, mini, nrm, vals = run(ctx, status, prior, list(p0), xs, rows, t)
        ctx.true("called", len(mini.calls) == 1)
        for a, b in zip(mini.calls[0], p0):
            ctx.eq("start", a, b)
        # the fit does not know the prior
        for p, v in zip((p0, xs), mini.values[0]):
            ctx.eq("objective", v, -1.0 * fit.lnlike(ctx, rows, vals(p), "dflux", False))
        allowed = prior_kind != "limit" or bool(xs[0] <= lim)
        used = allowed and status in (0, 1)
        want = xs if used else p0
        spread = 0.005 if used and status == 0 else 0.1
        for a, b in zip(s.run_info["p0"], want):
            ctx.eq("p0", a, b)
        c = getattr(pos, "coords", pos)
        ctx.true("walkers", np.shape(c) == (4, 2), "%s" % (np.shape(c),))
        for i in range(4):
            for j in range(2):
                ctx.eq("walker", c[i][j], want[j] * (1 + spread * nrm.rows[i][j]))
    h.__name__ = "outcome_" + prior_kind
    return h


def no_prefit(ctx):
    """without prefit the starting point is the one given"""
    t, rows = T.make(ctx, "t", 1, ebins="width")
    sg = ctx.choice("signs", [(1, 1), (-1, 1), (1, -1)])
    p0 = [k * v for k, v in zip(sg, ctx.reals("p", 2, 0.1, 2))]
    s, pos, mini, nrm, vals = run(ctx, 0, None, list(p0), [1.0, 1.0], rows, t, prefit=False)
    ctx.true("not_called", not mini.calls)
    c = getattr(pos, "coords", pos)
    for j in range(2):
        ctx.eq("p0", s.run_info["p0"][j], p0[j])
        for i in range(4):
            ctx.eq("walker", c[i][j], p0[j] * (1 + 0.1 * nrm.rows[i][j]))


def random(ctx):
    """the walkers start at the random positions drawn for them"""
    t, rows = T.make(ctx, "t", 1, ebins="width")
    p0 = ctx.reals("p", 1, -2, 2)
    k = ctx.choice("status", [None, 0, 1])
    x = ctx.reals("x", 1, 0.5, 2)
    mini, nrm = Minimiser(ctx, x, k or 0), Normal(ctx, True)
    model = lambda p, d: ctx.q(p[0] * np.ones(1), "1/(cm2 s TeV)")
    mini.status = k or 0
    from naima import get_sampler

    with everywhere("minimize", mini), Patches([(np.random, "normal", nrm)]), fit.quiet():
        s, pos = get_sampler(data_table=t, model=model, p0=list(p0), prefit=k is not None,
                             nwalkers=3, nburn=0, threads=1, guess=False)
    c = getattr(pos, "coords", pos)
    want = p0[0] if k is None else x[0]
    for i in range(3):
        ctx.eq("walker", c[i][0], want * (1 + (0.005 if k == 0 else 0.1) * nrm.rows[i][0]))


def after_guess(ctx):
    """the fit starts from the guessed normalisation"""
    t, rows = T.make(ctx, "t", 2, ebins="width")
    for r in rows:
        ctx.assume(r["f"] > 0.1)
    p0 = ctx.reals("p", 2, 0.5, 2)
    s, pos, mini, nrm, vals = run(ctx, 0, None, list(p0), [1.0, 1.0], rows, t, guess=True)
    m = vals(p0)
    idx = T.order(ctx, [r["e"] for r in rows])
    a, b = idx
    integ = lambda v: (rows[a]["e"] * v[a] + rows[b]["e"] * v[b])
    ratio = integ([r["f"] for r in rows]) / integ(m)
    ctx.eq("guess", mini.calls[0][0], p0[0] * ratio)
    ctx.eq("other", mini.calls[0][1], p0[1])


HARNESSES = [("outcome_" + k, outcome(k)) for k in ("none", "limit", "weight")]
HARNESSES += [("no_prefit", no_prefit), ("random", random), ("after_guess", after_guess)]
