"""The log-posterior as the fitting routines hand it to the sampler."""
import contextlib
import io

import numpy as np

from . import tables as T


@contextlib.contextmanager
def quiet():
    from astropy import log

    lv = log.level
    log.setLevel("ERROR")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        log.setLevel(lv)


def posterior(table, model, prior=None, p0=(1.0,), **kw):
    """function of a parameter vector, from a sampler made by get_sampler"""
    from naima import get_sampler

    kw = dict(dict(nwalkers=4 * len(p0), nburn=0, guess=False, threads=1), **kw)
    with quiet():
        sampler, pos = get_sampler(data_table=table, p0=list(p0), model=model, prior=prior, **kw)
    w = sampler.log_prob_fn
    return (lambda pars: w.f(pars, *w.args)), sampler


def values(ctx, rows, kind, unit, name="m", lo=-2.0, hi=5.0):
    """(model function returning one value per row, TeV-based values)"""
    k = T.KINDS[kind][unit]
    m = ctx.reals(name, len(rows), lo, hi)
    idx = T.order(ctx, [r["e"] for r in rows])

    def model(pars, data):
        return ctx.q(ctx.arr([m[i] / k for i in idx]), unit)
    return model, m


def lnlike(ctx, rows, m, mkind, sed):
    """documented log-likelihood; rows and m in TeV-based units"""
    s = 0.0
    for r, x in zip(rows, m):
        mm = T.to_sed(ctx, dict(v=x, e=r["e"], kind=mkind), "v", sed)
        f, lo, hi = (T.to_sed(ctx, r, c, sed) for c in ("f", "flo", "fhi"))
        above = bool(mm > f)
        if r["ul"]:
            if above:
                s = s + ctx.m.log(1 - r["cl"])
        else:
            d = (mm - f) / (hi if above else lo)
            s = s - d * d / 2
    return s


def scalar(x):
    x = getattr(x, "value", x)
    return x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x


def plain(x):
    """a parameter as the real code would hold it: a float array keeps no units"""
    return scalar(x.to("")) if hasattr(x, "unit") else scalar(x)
