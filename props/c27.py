"""C27: best fit and results table."""
import math
import os
import tempfile

import numpy as np

from . import fit, tables as T
from .chain import Sampler, argmax, array, objects, percentile
from .common import Patches

BOUNDS = ("chains of 1-2 steps of 2-3 walkers with 1-2 parameters; symbolic samples, "
          "log-probabilities and blobs")
ASSUMPTIONS = ["no two samples or log-probabilities are equal", "writing the file is left to "
               "astropy; the returned table is checked"]
LIMITS = {"ties": False, "seconds": 100, "max_paths": 4000}


class TableStub:
    """astropy Table whose float columns may hold symbolic values and whose file is not written"""

    def __new__(cls):
        from astropy.table import Table

        class SymTable(Table):
            def __init__(self, *a, **k):
                if k.get("dtype") is not None:
                    k["dtype"] = ["O" if "f" in str(np.dtype(d)) else d for d in k["dtype"]]
                super().__init__(*a, **k)

            def write(self, *a, **k):
                self.written = (a, k)
        return SymTable


def find(ctx, s, idx):
    from naima.plot import find_ML

    return find_ML(s, idx)


def run(ctx, steps, walkers, npar, order="free", lporder="free"):
    n = steps * walkers
    vals = {}
    chain = np.empty((steps, walkers, npar), dtype=object if ctx.sym else float)
    for p in range(npar):
        if order == "free" and p == 0:
            v = ctx.reals("c", n, -3, 3)
        else:
            base = ctx.real("b%d" % p, -2, 2)
            perm = [(5 * i + 2) % n for i in range(n)] if math.gcd(5, n) == 1 else list(range(n))[::-1]
            cum = [base]
            for g in ctx.reals("g%d_" % p, n - 1, 0.1, 2):
                cum.append(cum[-1] + g)
            v = [cum[k] for k in perm]
        vals[p] = v
        for i, k in enumerate(np.ndindex((steps, walkers))):
            chain[k + (p,)] = v[i]
    if lporder == "free":
        lp = ctx.reals("l", n, -30, -1)
    else:
        lp = [ctx.real("lb", -30, -20) + float((3 * i + 1) % n if n % 3 else i) for i in range(n)]
    return chain, array(ctx, lp, (steps, walkers)), vals, lp


def ml(steps, walkers):
    """the maximum-likelihood sample is the one of highest probability"""
    def h(ctx):
        n = steps * walkers
        chain, lpa, vals, lp = run(ctx, steps, walkers, 2, order="fixed")
        t, rows = T.make(ctx, "t", 2, ebins="width")
        from naima.utils import validate_data_table

        data = validate_data_table(t)
        m = [ctx.q(ctx.vec("m%d_" % i, 2, 0.1, 3), "1/(cm2 s TeV)") for i in range(n)]
        x = [ctx.q(ctx.vec("x%d_" % i, 2, 0.1, 3), "keV") for i in range(n)]
        items = [(m[i], (x[i], m[i] * 2), 1.5) for i in range(n)]
        s = Sampler(chain, lpa, objects(items, (steps, walkers)), data=data)
        k = argmax(lp)
        which = ctx.choice("idx", [None, 0, 1])
        ML, MLp, MLerr, (mx, mm) = find(ctx, s, which)
        ctx.eq("prob", ML, lp[k])
        ctx.eq("pars", MLp, ctx.arr([vals[p][k] for p in (0, 1)]))
        for p in (0, 1):
            ctx.eq("err", MLerr[p], (percentile(vals[p], 84) - percentile(vals[p], 16)) / 2)
        if which is None:
            ctx.true("nomodel", mx is None and mm is None)
        elif which == 0:
            ctx.eqq("x", mx, data["energy"])
            ctx.eqq("model", mm, m[k])
        else:
            ctx.eqq("x", mx, x[k])
            ctx.eqq("model", mm, m[k] * 2)
    h.__name__ = "ml_%d_%d" % (steps, walkers)
    return h


def ml_from_model(ctx):
    """without blobs the model is computed at the best parameters"""
    chain, lpa, vals, lp = run(ctx, 1, 3, 2, order="fixed")
    t, rows = T.make(ctx, "t", 2, ebins="width")
    from naima.utils import validate_data_table

    data = validate_data_table(t)

    kind = ctx.choice("kind", ["plain", "tuple", "list", "second", "own"])
    eown = ctx.arr([1.0, 2.0, 4.0])

    def flux(p, e):
        return ctx.q(p[0] * e + p[1], "1/(cm2 s TeV)")

    def model(p, d):
        y = flux(p, d["energy"].to("TeV").value)
        return {"plain": y, "tuple": (y, 3.0), "list": [y], "second": (3.0, y),
                "own": ((ctx.q(eown, "TeV"), flux(p, eown)), 3.0)}[kind]
    s = Sampler(chain, lpa, None, data=data, modelfn=model)
    k = argmax(lp)
    ML, MLp, MLerr, (mx, mm) = find(ctx, s, 1 if kind == "second" else 0)
    ctx.eq("prob", ML, lp[k])
    e = data["energy"].to("TeV").value
    if kind == "own":
        e = eown
    ctx.true("x given", mx is not None)
    if mx is None:
        return
    ctx.eqq("x", mx, ctx.q(e, "TeV"))
    ctx.eq("model", mm.to("1/(cm2 s TeV)").value, vals[0][k] * e + vals[1][k])


def table(ctx, s, **kw):
    from naima import save_results_table

    import naima.analysis

    d = tempfile.mkdtemp(prefix="c27")
    try:
        items = [(naima.analysis, "Table", TableStub())] if ctx.sym else []
        with fit.quiet(), Patches(items):
            t = save_results_table(os.path.join(d, "out"), s, **kw)
        if not ctx.sym:
            ctx.true("file", len(os.listdir(d)) == 1, "%s" % os.listdir(d))
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return t


def row(ctx, t, i, label, vals, tr=lambda x: x, scale=0.0):
    got = t["label"][i]
    got = got.decode() if isinstance(got, bytes) else str(got)
    ctx.true("label", got == label, "%s is not %s" % (got, label))
    v = [tr(x) for x in vals]
    med, lo, hi = percentile(v, 50), percentile(v, 16), percentile(v, 84)
    sc = sum(abs(x) for x in v[1:]) + abs(v[0])
    ctx.zero("median", t["median"][i] - med, sc)
    ctx.zero("unc_lo", t["unc_lo"][i] - (med - lo), sc)
    ctx.zero("unc_hi", t["unc_hi"][i] - (hi - med), sc)


def meta(t, fmt, key):
    return t.meta["keywords"][key]["value"] if fmt == "ascii.ipac" else t.meta[key]


def results(last):
    """medians and 16th/84th percentiles of every parameter"""
    def h(ctx):
        steps, walkers = ctx.choice("shape", [(2, 2), (1, 3), (2, 3)])
        lab = ctx.choice("labels", [["norm", "index"], ["log10(norm)", "x"], ["x", "log(a)"]])
        chain, lpa, vals, lp = run(ctx, steps, walkers, 2, lporder="fixed",
                                   order="free" if (steps, walkers) == (1, 3) else "fixed")
        t, rows = T.make(ctx, "t", 2, ebins="width")
        fmt = ctx.choice("format", ["ascii.ecsv", "ascii.ipac"])
        conv = ctx.bool("convert") if lab[0] != "norm" else True
        s = Sampler(chain, lpa, None, data=t, labels=list(lab))
        info = {"p0": np.array([1.5, -2.0]), "guess": True, "temp": np.float64(0.5), "note": "x"}
        s.run_info.update(info)
        keep = dict(s.run_info)
        got = table(ctx, s, last_step=last, include_blobs=False, format=fmt, convert_log=conv)
        use = {p: (v[-walkers:] if last else v) for p, v in vals.items()}
        i = 0
        for p, l in enumerate(lab):
            row(ctx, got, i, l, use[p])
            i += 1
            if conv and "(" in l:
                name = l.split("(")[1][:-1]
                f = ctx.m.exp if l.startswith("log(") else (lambda x: ctx.m.exp(x * math.log(10)))
                row(ctx, got, i, name, use[p], f)
                i += 1
        ctx.true("rows", len(got) == i, "%d rows" % len(got))
        k = argmax(lp)
        ctx.eq("ml", meta(got, fmt, "MaxLogLikelihood"), lp[k])
        for p in (0, 1):
            ctx.eq("mlpars", meta(got, fmt, "ML_pars")[p], vals[p][k])
        ctx.zero("bic", meta(got, fmt, "BIC") - (2 * math.log(2) - 2 * lp[k]), 2 - 2 * lp[k])
        ctx.true("n", meta(got, fmt, "n_samples") == (walkers if last else steps * walkers))
        for key, v in info.items():
            m = meta(got, fmt, key)
            ctx.true("info", list(np.ravel(m)) == list(np.ravel(v)), "%s: %s" % (key, m))
        ctx.true("run_info kept", set(s.run_info) == set(keep) and
                 all(s.run_info[x] is keep[x] for x in keep), "%s" % s.run_info)
        ctx.true("runinfo", meta(got, fmt, "n_walkers") == walkers and meta(got, fmt, "n_burn") == 3)
    h.__name__ = "results_" + ("last" if last else "all")
    return h


def blobs(ctx):
    """scalar blobs get a row each, others none"""
    steps, walkers = ctx.choice("shape", [(1, 3), (2, 2)])
    n = steps * walkers
    last = ctx.bool("last")
    fmt = ctx.choice("format", ["ascii.ecsv", "ascii.ipac"])
    chain, lpa, vals, lp = run(ctx, steps, walkers, 1, order="fixed", lporder="fixed")
    t, rows = T.make(ctx, "t", 2, ebins="width")
    w = ctx.reals("w", n, 0.1, 3)
    base, gap = ctx.real("v", 1, 2), ctx.real("vg", 0.1, 1)
    v = [base + gap * float((3 * i + 1) % n if n % 3 else (2 * i) % n) for i in range(n)]
    m = ctx.q(ctx.vec("m", 2, 0.1, 3), "1/(cm2 s TeV)")
    # the outputs of a run may have different units of the same kind
    mixed = ctx.bool("mixed")
    item = lambda i: ctx.q(w[i] * 1e-3, "kerg") if mixed and i == 1 else ctx.q(w[i], "erg")
    items = [(m, item(i), v[i], (m, m)) for i in range(n)]
    s = Sampler(chain, lpa, objects(items, (steps, walkers)), data=t, labels=["norm"])
    got = table(ctx, s, last_step=last, format=fmt)
    ctx.true("rows", len(got) == 3, "%d rows" % len(got))
    pick = lambda x: x[-walkers:] if last else x
    row(ctx, got, 0, "norm", pick(vals[0]))
    row(ctx, got, 1, "blob1", pick(w))
    row(ctx, got, 2, "blob2", pick(v))
    ctx.true("unit", meta(got, fmt, "blob1_unit") == "erg")


HARNESSES = [("ml_2_2", ml(2, 2)), ("ml_1_3", ml(1, 3)), ("ml_from_model", ml_from_model),
             ("results_all", results(False)), ("results_last", results(True)), ("blobs", blobs),
             ("ml_2_3", ml(2, 3), {"tier": "thorough", "seconds": 300})]
