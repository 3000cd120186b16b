"""C38: summaries of sampled distributions."""
import contextlib
import copy
import os
import re
import tempfile

import numpy as np

from . import figs, fit
from .chain import Sampler, argmax, array, objects, percentile
from .c27 import run
from .common import Patches

BOUNDS = ("chains of 1-2 steps of 2-4 walkers with 1-2 parameters and distributions of 2-4 values; "
          "symbolic samples and log-probabilities")
ASSUMPTIONS = ["no two samples or log-probabilities are equal", "matplotlib, corner and scipy's kernel "
               "density estimate are replaced by recorders; the printed digits of a number are off by "
               "at most half of the last digit"]
LIMITS = {"ties": False, "seconds": 90, "max_paths": 3000, "compare": False}

NUM = r"(<\d+S>|[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)"


class HistAxes(figs.Axes):
    def hist(self, x, bins, *a, **k):
        self.log.append((self.name, "hist", (x, bins), k))
        return np.array([1.0, 2.0]), np.array([0.0, 1.0, 2.0]), None


class Figure(figs.Figure):
    def add_subplot(self, *a, **k):
        self.axes.append(HistAxes(self.log, "ax%d" % len(self.axes)))
        return self.axes[-1]

    def text(self, x, y, s, *a, **k):
        self.log.append(("figure", "text", (s,), k))

    def savefig(self, *a, **k):
        self.log.append(("figure", "savefig", a, k))

    def clf(self):
        pass


class Recorder:
    """pyplot, density estimate and autocorrelation"""

    def __init__(self, ctx, tau=12.5):
        self.ctx, self.tau = ctx, tau
        self.figs, self.kdes, self.taus = [], [], []

    def __enter__(self):
        import matplotlib.pyplot as plt
        from scipy import stats
        import naima.plot
        from emcee import autocorr

        def figure(*a, **k):
            self.figs.append(Figure())
            return self.figs[-1]

        def kde(d, *a, **k):
            self.kdes.append(d)
            return lambda x: np.zeros(len(x))

        def tau(c, *a, **k):
            self.taus.append(c)
            if self.tau is None:
                raise autocorr.AutocorrError(1.0, 50, 1)
            return np.array([self.tau + i for i in range(np.shape(c)[-1])])
        items = [(plt, n, figs.unknown(n)) for n in figs.PYPLOT]
        items += [(plt, "figure", figure), (plt, "close", lambda *a: None),
                 (stats, "gaussian_kde", kde), (autocorr, "integrated_time", tau)]
        if self.ctx.sym:
            from symx import sym

            items.append((naima.plot, "int", sym.to_int))
            self.ctx.printed = []
        self.st = contextlib.ExitStack()
        self.st.enter_context(fit.quiet())
        self.st.enter_context(Patches(items))
        return self

    def __exit__(self, *a):
        self.st.close()
        if self.ctx.sym:
            self.texts, self.ctx.printed = self.ctx.printed, None


def number(ctx, rec, s):
    """(value a reader takes from the text, size of half of its last digit or None if it is
    not a decimal)"""
    m = re.fullmatch(r"<(\d+)S>", s)
    if m:
        v, spec = rec.texts[int(m.group(1))]
        d = getattr(v, "digits", None)
        if spec is not None:
            d = spec[0] if spec[1] in "fF" else None
            return v, (0.5 * 10.0 ** -d if d is not None else None)
        return v, 0.0
    return float(s), 0.0


def bounded(ctx, label, x, tol):
    """-tol <= x <= tol"""
    ctx.le(label, x, tol)
    ctx.le(label, -x, tol)


def value_error(ctx, rec, label, text, med, lo, hi):
    """the printed value and uncertainties are those of the distribution"""
    m = re.fullmatch(r"\$(\(?)%s (?:\\pm %s)(\)\\times10\^\{([-+]?\d+)\})?\$" % (NUM, NUM), text)
    if m:
        scale = 10.0 ** int(m.group(5) or 0)
        v, dv = number(ctx, rec, m.group(2))
        e, de = number(ctx, rec, m.group(3))
        ctx.true(label + ":brackets", bool(m.group(1)) == bool(m.group(4)), text)
        ups = [(e, de, lo), (e, de, hi)]
    else:
        m = re.fullmatch(r"\$(\(?)%s\^\{\+%s\}_\{-%s\}(\)\\times10\^\{([-+]?\d+)\})?\$" % (NUM, NUM, NUM),
                         text)
        ctx.true(label + ":form", bool(m), "%r" % text)
        if not m:
            return
        scale = 10.0 ** int(m.group(6) or 0)
        v, dv = number(ctx, rec, m.group(2))
        ctx.true(label + ":brackets", bool(m.group(1)) == bool(m.group(5)), text)
        ups = [number(ctx, rec, m.group(3)) + (hi,), number(ctx, rec, m.group(4)) + (lo,)]
    # value: to half of either uncertainty; uncertainties: to half of themselves
    for t in (lo, hi):
        bounded(ctx, label + ":value", v * scale - med, t * 0.5 - dv * scale)
    for e, de, t in ups:
        bounded(ctx, label + ":uncertainty", e * scale - t, t * 0.5 - de * scale)


def significant(ctx, rec, label, text, x):
    """printed to three significant digits"""
    m = re.fullmatch(r"<(\d+)S>", text)
    if m:
        v, spec = rec.texts[int(m.group(1))]
        ctx.true(label + ":digits", spec is not None and spec[0] >= 3 and spec[1] == "g"
                 or spec is not None and spec[0] >= 2 and spec[1] in "eE", "%r" % (spec,))
        ctx.eq(label, v, x)
        return
    m = re.fullmatch(r"([-+\d.eE]+)(?:\\times 10\^\{([-+]?\d+)\})?", text)
    ctx.true(label + ":form", bool(m), text)
    if m:
        ctx.le(label, abs(float(m.group(1)) * 10.0 ** int(m.group(2) or 0) - x), 0.00501 * abs(x))


def std(ctx, vals):
    n = len(vals)
    mean = sum(vals) / n
    return ctx.m.sqrt(sum([(v - mean) * (v - mean) for v in vals]) / n)


def near(ctx, n, name, scale, cent):
    """n values in a fixed order, of the given magnitude, and positive differences"""
    m = ctx.real(name, *cent) * scale
    gaps = ctx.reals(name + "g", n - 1, 0.02, 0.3)
    v = [m]
    for g in gaps:
        v.append(v[-1] + g * scale)
    perm = [(2 * i + 1) % n for i in range(n)] if n % 2 else list(range(n))[::-1]
    return [v[k] for k in perm]


SCALES = [1.0, 1e-7, 3e13, 200.0]


def quantiles(vals):
    q16, q50, q84 = [percentile(vals, q) for q in (16, 50, 84)]
    return q16, q50, q84


def marks(ctx, fig, ax, vals):
    q16, q50, q84 = quantiles(vals)
    h = fig.calls("hist", ax)
    ctx.true("hist", len(h) == 1)
    got = list(figs.arg(h[0], 0, "x"))
    ctx.true("samples", len(got) == len(vals))
    for a, b in zip(sorted_like(got), sorted_like(vals)):
        ctx.eq("samples", a, b)
    ctx.true("density", h[0][1].get("density") is True)
    c = fig.calls("axvline", ax)
    ctx.true("medianline", len(c) == 1)
    ctx.eq("median", figs.arg(c[0], 0, "x"), q50)
    c = fig.calls("axvspan", ax)
    ctx.true("span", len(c) == 1)
    ctx.eq("q16", figs.arg(c[0], 0, "xmin"), q16)
    ctx.eq("q84", figs.arg(c[0], 1, "xmax"), q84)
    return q16, q50, q84


def sorted_like(v):
    from .chain import ordered

    return ordered(list(v))


# shape, parameter, last step, all parameters, autocorrelation time, negative values
VARIANTS = [((1, 3), 0, False, False, 12.5, False), ((2, 2), 1, True, False, None, True),
            ((1, 2), 1, False, True, 3.0, False), ((1, 3), 0, True, False, 12.5, True),
            ((2, 2), 0, False, True, 12.5, False)]


def chain_plot(label, scale):
    """one parameter of a chain: traces, histogram, quantiles and printed summary"""
    def h(ctx):
        (steps, walkers), p, last, every, tau, neg = ctx.choice(
            "variant", VARIANTS if "log" not in label else VARIANTS[:1] + VARIANTS[2:4])
        n = steps * walkers
        if "log" in label:
            f = ctx.m.log if label.startswith("log(") else (lambda x: ctx.m.log(x) / np.log(10.0))
            # widely spread values, or (for numbers of another magnitude) close ones
            c, w = ((0.2, 0.201), (0.06, 0.065)) if scale == 1.0 else ((2.0, 2.00001), (0.0022, 0.00225))
            x0 = ctx.real("c", *c)
            g = ctx.reals("cg", n - 1, *w)
            lin = [x0]
            for d in g:
                lin.append(lin[-1] + d)
            lin = [x * scale for x in lin]
            perm = [(2 * i + 1) % n for i in range(n)] if n % 2 else list(range(n))[::-1]
            vals = [f(lin[k]) for k in perm]
        else:
            vals = near(ctx, n, "c", scale, (-3.0, -1.5) if neg else (0.5, 3.0))
        other = [50.0 + i for i in range(n)]
        cols = [vals, other] if p == 0 else [other, vals]
        chain = np.empty((steps, walkers, 2), dtype=object if ctx.sym else float)
        for i, k in enumerate(np.ndindex((steps, walkers))):
            chain[k] = [cols[0][i], cols[1][i]]
        keep = chain.copy()
        labels = ["other", label] if p else [label, "other"]
        s = Sampler(chain, array(ctx, [-1.0 - i for i in range(n)], (steps, walkers)), None, labels=labels)
        from naima.plot import plot_chain

        use = vals[-walkers:] if last else vals
        with Recorder(ctx, tau) as rec:
            if every:
                plot_chain(s, last_step=last)
            else:
                plot_chain(s, p, last_step=last)
        fig = [f for f in rec.figs if any(a.labels.get("y") == label for a in f.axes)]
        ctx.true("figures", len(fig) == 1 and len(rec.figs) in (1, 2), "%d" % len(fig))
        fig = fig[0]
        # traces
        one = [a.name for a in fig.axes if a.labels.get("y") == label]
        two = [a.name for a in fig.axes if fig.calls("hist", a.name)]
        ctx.true("axes", len(one) == len(two) == 1 and one != two, "%s %s" % (one, two))
        tr = fig.calls("plot", one[0])
        ctx.true("walkers", len(tr) == walkers, "%d traces" % len(tr))
        left = list(range(walkers))
        for (x, t), _ in tr:
            ctx.true("steps", len(t) == steps)
            w = next((w for w in left if bool(abs(t[0] - vals[w]) < 1e-9 * abs(vals[w]))), left[0])
            left.remove(w)
            for i in range(steps):
                ctx.eq("trace", t[i], vals[i * walkers + w])
        ctx.true("xlabel", [a.labels.get("x") for a in fig.axes if a.name == two[0]] == [label])
        q16, q50, q84 = marks(ctx, fig, two[0], use)
        texts = fig.calls("text")
        ctx.true("text", len(texts) == 1)
        text = texts[0][0][0]
        ctx.true("counts", "Walkers: %d " % walkers in text and "Steps in chain: %d " % steps in text, text)
        ctx.true("which", ("last ensemble" if last else "whole chain") in text, text)
        if tau is None:
            ctx.true("notau", "Autocorrelation" not in text)
        else:
            m = re.search(r"Autocorrelation time: ([\d.]+)", text)
            ctx.true("tau", bool(m) and float(m.group(1)) == tau + p, text)
            ctx.true("tauchain", rec.taus[0].shape == keep.shape)
        m = re.search(r"median: \$(.+?)\$, std: \$(.+?)\$", text)
        ctx.true("summary", bool(m), text)
        significant(ctx, rec, "printedmedian", m.group(1), q50)
        significant(ctx, rec, "printedstd", m.group(2), std(ctx, use))
        lines = text.split("\n")
        mine = [x.strip() for x in lines if x.strip().startswith(label + " = ")]
        ctx.true("line", len(mine) == 1, text)
        value_error(ctx, rec, "printed", mine[0][len(label) + 3:], q50, q50 - q16, q84 - q50)
        if "(" in label:
            name = label.split("(")[1][:-1]
            mine = [x.strip() for x in lines if x.strip().startswith(name + " = ")]
            ctx.true("converted", len(mine) == 1, text)
            f = ctx.m.exp if label.startswith("log(") else (lambda x: ctx.m.exp(x * np.log(10.0)))
            a, b, c = quantiles([f(x) for x in use])
            value_error(ctx, rec, "converted", mine[0][len(name) + 3:], b, b - a, c - b)
        else:
            ctx.true("oneline", sum(" = " in x for x in lines) == 1, text)
        for a, b in zip(chain.ravel(), keep.ravel()):
            ctx.true("unchanged", a is b or a == b)
    return h


def distribution(scale):
    """plot_distribution with and without units"""
    def h(ctx):
        n, unit, cent, own = ctx.choice("variant", [
            (3, "erg", (0.5, 3.0), False), (2, "", (0.5, 3.0), True), (3, "", (-3.0, -1.5), False),
            (2, "erg", (-3.0, -1.5), True)])
        vals = near(ctx, n, "c", scale, cent)
        from naima.plot import plot_distribution

        arr = ctx.arr(vals)
        x = ctx.q(arr, unit) if unit else arr
        mine = Figure()
        with Recorder(ctx) as rec:
            f = plot_distribution(x, "weight", figure=mine if own else None)
        ctx.true("figure", (f is mine and not rec.figs) if own else (len(rec.figs) == 1 and f is rec.figs[0]))
        q16, q50, q84 = marks(ctx, f, "ax0", vals)
        text = f.calls("text")[0][0][0]
        u = " erg" if unit else ""
        m = re.search(r"median: \$(.+?)\$( \w*)?, std: \$(.+?)\$( \w*)?\n", text)
        ctx.true("summary", bool(m), text)
        for i in (2, 4):
            ctx.true("unit", (m.group(i) or "").strip() == unit, text)
        significant(ctx, rec, "printedmedian", m.group(1), q50)
        significant(ctx, rec, "printedstd", m.group(3), std(ctx, vals))
        m = re.search(r"weight = (\$.*\$)(.*)$", text.rstrip())
        ctx.true("line", bool(m) and m.group(2).strip() == unit, text)
        value_error(ctx, rec, "printed", m.group(1), q50, q50 - q16, q84 - q50)
        lab = f.axes[0].labels
        ctx.true("xlabel", lab.get("x") == ("weight [erg]" if unit else "weight"), "%s" % lab)
        ctx.true("title", lab.get("title", "").endswith("weight"))
    return h


def corner(ctx):
    """the corner plot shows all samples, labels and the maximum-likelihood parameters"""
    import matplotlib.pyplot as plt
    from naima.plot import plot_corner

    steps, walkers = ctx.choice("shape", [(2, 2), (1, 3)])
    n = steps * walkers
    chain, lpa, vals, lp = run(ctx, steps, walkers, 2, order="fixed")
    from naima.utils import validate_data_table
    from . import tables as T

    with fit.quiet():
        data = validate_data_table(T.make(ctx, "t", 2, ebins="width")[0])
    m = [ctx.q(ctx.vec("m%d_" % i, 2, 0.1, 3), "1/(cm2 s TeV)") for i in range(n)]
    s = Sampler(chain, lpa, objects([(x,) for x in m], (steps, walkers)),
                labels=["a", "b"], data=data)
    got = []
    mod = type(os)("corner")
    state = ctx.choice("state", ["there", "missing", "noml", "options"])

    def draw(xs, **k):
        got.append((xs, k, plt.rcParams["lines.linewidth"]))
        return "figure"
    mod.corner = draw
    import sys

    old, lw = sys.modules.get("corner"), plt.rcParams["lines.linewidth"]
    sys.modules["corner"] = mod if state != "missing" else None
    kw = {"noml": {"show_ML": False}, "options": {"truth_color": "r", "bins": 7}}.get(state, {})
    try:
        with fit.quiet():
            f = plot_corner(s, **kw)
        after = plt.rcParams["lines.linewidth"]
    finally:
        plt.rcParams["lines.linewidth"] = lw
        if old is None:
            del sys.modules["corner"]
        else:
            sys.modules["corner"] = old
    ctx.true("linewidth", after == lw, "%s is not %s" % (after, lw))
    if state == "missing":
        ctx.true("none", f is None)
        return
    ctx.true("drawn", f == "figure" and len(got) == 1)
    xs, k, _ = got[0]
    ctx.eq("samples", ctx.arr(list(xs.ravel())), ctx.arr(list(chain.ravel())))
    ctx.true("shape", xs.shape == (n, 2))
    ctx.true("labels", list(k["labels"]) == ["a", "b"])
    ctx.true("quantiles", list(k["quantiles"]) == [0.16, 0.5, 0.84])
    if state == "noml":
        ctx.true("notruths", k["truths"] is None)
    else:
        b = argmax(lp)
        for p in (0, 1):
            ctx.eq("ml", k["truths"][p], chain[b // walkers, b % walkers, p])
    if state == "options":
        ctx.true("options", k["truth_color"] == "r" and k["bins"] == 7)


def diagnostics(ctx):
    """one figure per parameter, one corner plot, one per output, each in its own file"""
    import matplotlib.backends.backend_pdf
    import matplotlib.pyplot as plt
    import naima.plot
    from naima import save_diagnostic_plots

    labels = ctx.choice("labels", [["norm", "index"], ["log10(norm)", "log(x)"]])
    chain = array(ctx, ctx.reals("c", 8, -3, 3), (2, 2, 2))
    nblob = ctx.choice("nblobs", [1, 3])
    s = Sampler(chain, array(ctx, [-1.0, -2.0, -3.0, -4.0], (2, 2)),
                objects([tuple(range(nblob)) for i in range(4)], (2, 2)), labels=list(labels))
    idx = ctx.choice("idx", [None, [0], [0, 2], [2, 0]]) if nblob == 3 else None
    use = idx if idx is not None else list(range(nblob))
    lab = ctx.choice("blob_labels", ["none", "all", "some", "tuple", "text"])
    names = ["spectrum", "energy", "third"][:len(use)]
    given = {"none": None, "all": list(names), "some": names[:1], "tuple": tuple(names[:1]),
             "text": names[0] if len(use) == 1 else None}[lab]
    want = {"none": [], "text": names[:1] if len(use) == 1 else []}.get(lab, list(given or []))
    want = want + ["Model output %d" % i for i in use[len(want):]]
    sed = ctx.choice("sed", [True, False, "list"])
    seds = [i % 2 == 0 for i in range(len(use))] if sed == "list" else [sed] * len(use)
    last = ctx.bool("last")
    bad = ctx.choice("fails", [None, "chain", "blob"])
    pdf = ctx.bool("pdf") if lab in ("none", "some") else False
    pages = []

    class Pages:
        def __init__(self, name):
            self.name, self.open = name, True
            pages.append(self)

        def close(self):
            self.open = False
    calls = []

    def one(kind, fails=False):
        def f(smp, *a, **k):
            if fails and (a[:1] == (0,) or k.get("blobidx") == use[0]):
                raise ValueError("no plot")
            fig = Figure()
            calls.append((kind, smp is s, a, k, fig))
            return fig
        return f
    keep_labels, keep = copy.copy(given), list(labels)
    keep_sed = list(seds)
    old = plt.rcParams["interactive"]
    with fit.quiet(), Patches([(naima.plot, "plot_chain", one("chain", bad == "chain")),
                               (naima.plot, "plot_corner", one("corner")),
                               (naima.plot, "plot_blob", one("blob", bad == "blob")),
                               (matplotlib.backends.backend_pdf, "PdfPages", Pages),
                               (plt, "rc", lambda *a, **k: None),
                               (plt, "close", lambda *a: None)]):
        save_diagnostic_plots("/nonexistent/out", s, modelidxs=idx, sed=seds if sed == "list" else sed,
                              blob_labels=given, last_step=last, **({"pdf": True} if pdf else {}))
    ctx.true("interactive", plt.rcParams["interactive"] == old)
    ctx.true("arguments", given == keep_labels and s.labels == keep and seds == keep_sed,
             "%r was %r" % (given, keep_labels))
    if pdf:
        ctx.true("pages", len(pages) == 1 and pages[0].name == "/nonexistent/out_plots.pdf"
                 and not pages[0].open)
        skip = [("chain", i) for i in (0,) if bad == "chain"] + [("blob", use[0])] * (bad == "blob")
        todo = [("chain", i) for i in (0, 1)] + [("corner", None)] + [("blob", i) for i in use]
        done = []
        for kind, same, a, k, fig in calls:
            ctx.true("sampler", same)
            done.append((kind, k.get("blobidx") if kind == "blob" else a[0] if kind == "chain" else None))
            out = fig.calls("savefig")
            ctx.true("saved", len(out) == 1 and out[0][0][0] is pages[0])
        ctx.true("files", done == [x for x in todo if x not in skip], "%s" % done)
        return
    plots = {}
    for kind, same, a, k, fig in calls:
        ctx.true("sampler", same)
        out = [c[0][0] for c in fig.calls("savefig")]
        ctx.true("saved", len(out) == 1 and out[0] not in plots, "%r %r" % (out, plots))
        plots[out[0]] = (kind, a, k)
    expect = {"/nonexistent/out_corner.png": "corner"}
    par = [x.split("(")[-1].rstrip(")") for x in labels]
    for p, l in enumerate(par):
        if bad == "chain" and p == 0:
            continue
        f = "/nonexistent/out_chain_%s.png" % l
        expect[f] = "chain"
        if f in plots:
            _, a, k = plots[f]
            ctx.true("par", (k["p"] if "p" in k else a[0]) == p)
            ctx.true("last", k.get("last_step") is last)
    for i, b in enumerate(use):
        if bad == "blob" and i == 0:
            continue
        f = "/nonexistent/out_model%d.png" % b
        expect[f] = "blob"
        if f in plots:
            k = plots[f][2]
            ctx.true("blobidx", k["blobidx"] == b)
            ctx.true("label", k["label"] == want[i], "%r is not %r" % (k["label"], want[i]))
            ctx.true("sed", k["sed"] == seds[i])
            ctx.true("bloblast", k["last_step"] is last)
    ctx.true("files", {f: v[0] for f, v in plots.items()} == expect, "%s is not %s" % (plots, expect))


HARNESSES = [("chain_%g" % s, chain_plot("norm", s)) for s in SCALES]
HARNESSES += [("chain_log10", chain_plot("log10(norm)", 1.0)), ("chain_log", chain_plot("log(norm)", 1.0)),
              ("chain_log10_small", chain_plot("log10(norm)", 1e-40)),
              ("chain_log_large", chain_plot("log(norm)", 1e30))]
HARNESSES += [("distribution_%g" % s, distribution(s)) for s in SCALES]
HARNESSES += [("corner", corner), ("diagnostics", diagnostics)]
