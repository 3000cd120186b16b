"""C23: the log-posterior and the blobs of every sample."""
import numpy as np

from . import fit, tables as T

BOUNDS = ("tables of 1-2 rows; symbolic model outputs, data, priors and parameters; eleven layouts "
          "of model output; batches of 1-3 walkers through emcee's own evaluation")
ASSUMPTIONS = ["emcee's batch evaluation (compute_log_prob) is executed as installed"]
LIMITS = {"ties": False, "seconds": 100}
INF, NAN = float("inf"), float("nan")
LAYOUTS = ["plain", "single", "pair_scalar", "pair_quantity", "same_shape", "two_same", "sed_tuple",
           "sed_list", "list", "three", "same_three"]


def layout(ctx, name, spec):
    """(model output, blobs it stands for)"""
    q = ctx.q
    a = q(ctx.vec("x1", 2, 1, 9), "erg")
    b = q(ctx.vec("x2", 2, 1, 9), "1/eV")
    s = ctx.real("x3", 1, 9)
    sq = q(ctx.real("x4", 1, 9), "G")
    out = {"plain": lambda: spec, "single": lambda: (spec,), "pair_scalar": lambda: (spec, s),
           "pair_quantity": lambda: (spec, sq), "same_shape": lambda: (spec, a),
           "two_same": lambda: (spec, spec), "sed_tuple": lambda: (spec, (a, b)),
           "sed_list": lambda: [spec, [a, b], s], "list": lambda: [spec, sq],
           "three": lambda: (spec, sq, (a, b)), "same_three": lambda: (spec, a, b)}[name]()
    return out, ([out] if name == "plain" else list(out))


def same(ctx, label, got, want):
    """got is want, with its units"""
    import astropy.units as u

    if isinstance(want, (tuple, list)):
        ok = isinstance(got, (tuple, list)) or (isinstance(got, np.ndarray) and got.dtype == object)
        ctx.true(label + ":sequence", ok and len(got) == len(want))
        for g, w in zip(got, want):
            same(ctx, label + ".", g, w)
        return
    isq = isinstance(want, u.Quantity)
    ctx.true(label + ":quantity", isinstance(got, u.Quantity) == isq, "%r" % type(got))
    if isq:
        ctx.true(label + ":unit", got.unit == want.unit, "%s" % got.unit)
        ctx.eq(label, got.value, want.value)
    else:
        ctx.eq(label, got, want)


def blobs(ctx, label, got, want):
    ctx.true(label + ":count", len(got) >= len(want), "%d blobs" % len(got))
    for i, w in enumerate(want):
        same(ctx, label + str(i), got[i], w)


def setup(ctx, prior="none", lay=None, mutate=None):
    t, rows = T.make(ctx, "t", 2, err="asym", ebins="width")
    model, m = fit.values(ctx, rows, "dflux", "1/(cm2 s TeV)")
    name = lay or ctx.choice("layout", LAYOUTS)
    outs = []

    def fn(pars, data):
        o, w = layout(ctx, name, model(pars, data))
        outs.append(w)
        return o
    pr = {"none": None, "finite": lambda p: ctx.real("pr", -20, 20),
          "zero": lambda p: 0.0, "forbidden": lambda p: -INF}[prior]
    f, s = fit.posterior(t, fn, pr)
    return f, s, rows, m, outs


def tuples(prior):
    def h(ctx):
        f, s, rows, m, outs = setup(ctx, prior)
        got = f(np.array([1.0]))
        if prior == "forbidden":
            ctx.eq("lnprob", fit.scalar(got[0]), -INF)
        else:
            w = fit.lnlike(ctx, rows, m, "dflux", False)
            if prior == "finite":
                w = w + ctx.real("pr", -20, 20)
                ctx.zero("lnprob", fit.scalar(got[0]) - w, 40.0 - fit.lnlike(ctx, rows, m, "dflux", False))
            else:
                ctx.eq("lnprob", fit.scalar(got[0]), w)
        blobs(ctx, "blob", got[1:], outs[-1])
    h.__name__ = "tuples_" + prior
    return h


def nan_model(ctx):
    """a forbidden parameter vector is rejected even where the model fails"""
    t, rows = T.make(ctx, "t", 2, ebins="width")
    bad = ctx.choice("bad", [NAN, INF, -INF, 0.0])
    fn = lambda p, d: ctx.q(ctx.arr([bad, ctx.real("m", 0.1, 3)]), "1/(cm2 s TeV)")
    f, s = fit.posterior(t, fn, lambda p: -INF)
    ctx.eq("lnprob", fit.scalar(f(np.array([1.0]))[0]), -INF)


def infinite_model(ctx):
    """a model that is infinite at an allowed parameter vector has no likelihood"""
    n = 2
    t, rows = T.make(ctx, "t", n, ebins="width", err=ctx.choice("err", ["sym", "asym"]))
    bad = ctx.choice("bad", [INF, -INF])
    pos = ctx.choice("pos", [0, 1])
    m = ctx.reals("m", n, 0.1, 3)
    m[pos] = bad
    name = ctx.choice("layout", ["plain", "pair_scalar", "sed_list"])
    outs = []

    def fn(p, d):
        o, w = layout(ctx, name, ctx.q(ctx.arr(m), "1/(cm2 s TeV)"))
        outs.append(w)
        return o
    pr = ctx.choice("prior", [None, 0.0, 1])
    f, s = fit.posterior(t, fn, None if pr is None else lambda p: pr if pr == 0 else ctx.real("pr", -9, 9))
    got = f(np.array([1.0]))
    ctx.eq("lnprob", fit.scalar(got[0]), -INF)
    # its outputs are stored all the same
    blobs(ctx, "blob", got[2:], outs[-1][1:])


def batch(ctx):
    """emcee receives one log-probability and one row of blobs per walker"""
    name = ctx.choice("layout", LAYOUTS)
    n = ctx.choice("n", [1, 2, 3])
    t, rows = T.make(ctx, "t", 1, err="sym", ebins="width")
    pars = ctx.reals("p", n, 0.5, 2)
    slope = ctx.real("slope", 0.5, 2)
    lim = ctx.choice("forbid", [None, 0])

    def fn(p, data):
        return layout(ctx, name, ctx.q(p[0] * slope * np.ones(1), "1/(cm2 s TeV)"))[0]

    first = []

    def prior(p):
        first.append(1)
        return -INF if lim is not None and len(first) % n == 1 % n else p[0]
    f, s = fit.posterior(t, fn, prior)
    del first[:]
    lp, bl = s.compute_log_prob(ctx.arr(pars).reshape((n, 1)))
    ctx.true("walkers", len(lp) == n and len(bl) == n, "%d %d" % (len(lp), len(bl)))
    for i, p in enumerate(pars):
        d = (p * slope - rows[0]["f"]) / rows[0]["flo"]
        if lim is not None and i == 0:
            ctx.eq("forbidden", lp[i], -INF)
        else:
            ctx.zero("lnprob", lp[i] - (p - d * d / 2), 1 + d * d)
        w = layout(ctx, name, ctx.q(p * slope * np.ones(1), "1/(cm2 s TeV)"))[1]
        blobs(ctx, "blob", bl[i], w)


HARNESSES = [("tuples_" + p, tuples(p)) for p in ("none", "zero", "finite", "forbidden")]
HARNESSES += [("nan_model", nan_model), ("infinite_model", infinite_model), ("batch", batch)]
