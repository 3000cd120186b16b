"""C28: confidence bands, sample curves and best-fit curve of plotted fits."""
import math

import numpy as np

from . import fit, tables as T
from .c18 import OUT, ref, spec
from .chain import Sampler, argmax, array, objects, ordered
from .figs import Figure, arg, patched

BOUNDS = ("3-8 samples at two energies; symbolic samples, log-probabilities and energies; bands of "
          "up to three confidence levels in any order")
ASSUMPTIONS = ["matplotlib is replaced by a figure that records the curves", "no two samples are "
               "equal at an energy"]
LIMITS = {"ties": False, "seconds": 100}
UN = {"dflux": "1/(cm2 s TeV)", "flux": "erg/(cm2 s)", "power": "erg/s", "dpower": "1/(s TeV)"}
FAM = {"dflux": ("flux", False), "flux": ("flux", True), "power": ("power", True),
       "dpower": ("power", False)}


def samples(ctx, name, n, free):
    """n values in TeV-based units, in a fixed or any order"""
    if free:
        return ctx.reals(name, n, 0.1, 5)
    cum = [ctx.real(name + "b", 0.1, 1)]
    for g in ctx.reals(name + "g", n - 1, 0.1, 1):
        cum.append(cum[-1] + g)
    k = 3 if n % 3 else (5 if n % 5 else 7)
    off = 1 if name.endswith("0") else 2
    return [cum[(k * i + off) % n] for i in range(n)]


class Run:
    """a finished run with n samples of a model at two energies"""

    def __init__(self, ctx, steps, walkers, kind, own=False, free=False, idx=0, ne=2):
        from naima.utils import validate_data_table

        self.n = n = steps * walkers
        self.shape = (steps, walkers)
        t, rows = T.make(ctx, "t", 2, kind="dflux", ebins="width", elo=0.5, ehi=5.0)
        ctx.assume(rows[0]["e"] * 1.01 < rows[1]["e"])
        self.rows = rows
        self.data = validate_data_table(t)
        if own:
            self.e = [ctx.real("ea", 0.1, 1), ctx.real("eb", 1.1, 5)]
            self.e += [5.0 + 0.5 * i for i in range(ne - 2)]
        else:
            self.e = [r["e"] for r in rows]
        unit = UN[kind]
        self.fam, self.is_sed = FAM[kind]
        k = ref(unit) if self.is_sed else 1.0
        self.v = [samples(ctx, "v%d" % j, n, free) for j in range(len(self.e))]  # [energy][sample]
        self.lp = [float(-((5 * i + 3) % 11)) for i in range(n)]
        x = ctx.q(ctx.arr([e * 1e9 for e in self.e]), "keV")
        items = []
        for i in range(n):
            m = ctx.q(ctx.arr([self.v[j][i] / k for j in range(len(self.e))]), unit)
            items.append(((x, m) if own else m, 1.5))
        if idx:
            items = [(ctx.q(np.ones(2), "1/(cm2 s TeV)"), it[0]) for it in items]
        chain = np.arange(2.0 * n).reshape(steps, walkers, 2)
        self.s = Sampler(chain, np.array(self.lp).reshape(steps, walkers),
                         objects(items, self.shape), data=self.data, labels=["norm", "x"])

    def best(self):
        return int(np.argmax(self.lp))

    def out(self, sed):
        return OUT[self.fam, sed]

    def y(self, j, v, sed):
        return spec(v, self.e[j], self.fam, self.is_sed, sed) / ref(self.out(sed))

    def use(self, last):
        return range(self.n - self.shape[1], self.n) if last else range(self.n)


def plot(run, fig, **kw):
    from naima import plot_fit

    with fit.quiet(), patched(fig):
        return plot_fit(run.s, figure=fig, plotdata=kw.pop("plotdata", False), **kw)


EU = {"TeV": 1.0, "eV": 1e12, "erg": T.ERG * 1e12}


def curve(ctx, run, label, x, y, sed, eu, want):
    ctx.true(label + ":n", len(x) == len(run.e) and len(y) == len(run.e))
    for j in range(len(run.e)):
        ctx.eq(label + ":x", x[j], run.e[j] * EU[eu])
        ctx.eq(label, y[j], run.y(j, want[j], sed))


def eunit(ctx, run, given):
    import astropy.units as u

    return u.Unit(given) if given else None


def bands(free):
    def h(ctx):
        kind = ctx.choice("kind", ["dflux", "flux", "power"] if not free else ["dflux"])
        sed = ctx.bool("sed")
        last = ctx.bool("last")
        own = ctx.bool("own")
        st, wk = (1, 3) if free else (2, 4)
        run = Run(ctx, st, wk, kind, own, free, idx=0 if free else ctx.choice("idx", [0, 1]))
        confs = ctx.choice("confs", [[1], [3, 1, 0.5], [0.5, 2], (0.3, 1)])
        given = type(confs)(confs)
        eu = ctx.choice("eu", ["eV"] if free else [None, "erg"])
        fig = Figure()
        plot(run, fig, confs=given, sed=sed, last_step=last, e_unit=eunit(ctx, run, eu),
             modelidx=ctx.inputs["choices"].get("idx", 0) if not ctx.sym else ctx.choices.get("idx", 0))
        eu = eu or "TeV"
        ctx.true("confs_kept", list(given) == list(confs))
        fills = fig.calls("fill_between")
        ctx.true("bands", len(fills) == len(confs), "%d bands" % len(fills))
        use = list(run.use(last))
        n = len(use)
        for c, conf in zip(fills, sorted(confs, reverse=True)):
            x, a, b = arg(c, 0, "x"), arg(c, 1, "y1"), arg(c, 2, "y2")
            lo, hi = phi(-conf), phi(conf)
            srt = [ordered([run.v[j][i] for i in use]) for j in (0, 1)]
            wlo = [s[int(lo * (n - 1))] for s in srt]
            whi = [s[int(hi * (n - 1))] for s in srt]
            if not same_rank(lo, hi, n) and bool(a[0] > b[0]):
                a, b = b, a
            curve(ctx, run, "lower", x, a, sed, eu, wlo)
            curve(ctx, run, "upper", x, b, sed, eu, whi)
        best(ctx, run, fig, sed, eu)
    h.__name__ = "bands_" + ("free" if free else "fixed")
    return h


def bands_long(ctx):
    """models at more energies than there are samples, and the other way around"""
    st, wk, ne = ctx.choice("size", [(1, 3, 9), (2, 2, 12), (4, 16, 2), (10, 8, 3)])
    last = ctx.bool("last")
    run = Run(ctx, st, wk, "dflux", own=True, ne=ne)
    n0 = st * wk
    # samples in an order that is the same at all energies
    for j in range(ne):
        b = ctx.real("base%d" % (j % 3), 0.1, 1)
        run.v[j] = [b * (1 + (7 * i + j) % n0) for i in range(n0)]
    x = ctx.q(ctx.arr([e * 1e9 for e in run.e]), "keV")
    run.s._bl = objects([((x, ctx.q(ctx.arr([run.v[j][i] for j in range(ne)]), UN["dflux"])), 1.5)
                         for i in range(n0)], (st, wk))
    run.lp = [float(-((5 * i + 3) % 11)) for i in range(n0)]
    conf = ctx.choice("conf", [0.7, 1, 2])
    fig = Figure()
    plot(run, fig, confs=[conf], sed=False, last_step=last)
    fills = fig.calls("fill_between")
    ctx.true("bands", len(fills) == 1)
    use = list(run.use(last))
    n = len(use)
    pa, pb = arg(fills[0], 1, "y1"), arg(fills[0], 2, "y2")
    rank = lambda p, v: sorted(v)[int(p * (n - 1))]
    flip = not same_rank(phi(-conf), phi(conf), n) and bool(pa[0] > pb[0])
    for label, y, p in (("lower", pb if flip else pa, phi(-conf)), ("upper", pa if flip else pb, phi(conf))):
        ctx.true(label + ":n", len(y) == ne, "%d values" % len(y))
        for j in range(ne):
            k = rank(p, [(7 * i + j) % n0 for i in use])
            ctx.eq(label, y[j], run.y(j, ctx.real("base%d" % (j % 3), 0.1, 1) * (1 + k), False))


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def same_rank(lo, hi, n):
    return int(lo * (n - 1)) == int(hi * (n - 1))


def best(ctx, run, fig, sed, eu):
    """the last or thickest curve of the main axes is the most probable model"""
    ll = fig.best_last()
    ctx.true("curves", len(ll) >= 1)
    k = run.best()
    curve(ctx, run, "best", arg(ll[-1], 0, "x"), arg(ll[-1], 1, "y"), sed, eu,
          [v[k] for v in run.v])


def member(ctx, run, label, y, use, sed):
    """the curve is one of the samples"""
    for i in use:
        if bool(abs(y[0] / run.y(0, run.v[0][i], sed) - 1) < 1e-9):
            ctx.eq(label, y[1], run.y(1, run.v[1][i], sed))
            return
    ctx.true(label, False, "curve is not a sample")


def curves(ctx):
    """sample curves are samples of the run"""
    kind = ctx.choice("kind", ["dflux", "flux"])
    sed, last, own = ctx.bool("sed"), ctx.bool("last"), ctx.bool("own")
    run = Run(ctx, 2, 3, kind, own)
    ns = ctx.choice("n", [1, 4])
    fig = Figure()
    plot(run, fig, n_samples=ns, sed=sed, last_step=last)
    ll = fig.best_last()
    ctx.true("count", len(ll) == ns + 1, "%d curves" % len(ll))
    for c in ll[:-1]:
        x, y = arg(c, 0, "x"), arg(c, 1, "y")
        for j in (0, 1):
            ctx.eq("x", x[j], run.e[j])
        member(ctx, run, "sample", y, list(run.use(last)), sed)
    best(ctx, run, fig, sed, "TeV")


def only_best(ctx):
    run = Run(ctx, 2, 2, ctx.choice("kind", ["dflux", "flux"]), ctx.bool("own"))
    sed = ctx.bool("sed")
    fig = Figure()
    plot(run, fig, n_samples=None, sed=sed)
    ctx.true("count", len(fig.calls("loglog")) == 1 and not fig.calls("fill_between"))
    best(ctx, run, fig, sed, "TeV")


def computed(ctx, own_choice=True, blobs=True):
    """(run, parameters): a run of two different samples whose model can be computed at any energy"""
    run = Run(ctx, 2, 2, "dflux")
    p = [[ctx.real("p%d%d" % (i, j), 0.5 + 2 * i, 1.5 + 2 * i) for j in (0, 1)] for i in (0, 1)]
    chain = ctx.arr((p[0] + p[1]) * 2).reshape((2, 2, 2))
    lp = [-3.0, -2.5, -1.0, -2.0] if ctx.bool("first") else [-3.0, -1.0, -2.5, -2.0]
    kind = ctx.choice("model", ["plain", "tuple", "own"])

    def flux(pars, e):
        return ctx.q(pars[0] * e + pars[1], "1/(cm2 s TeV)")

    def model(pars, data):
        e = data["energy"].to("TeV").value
        if kind == "own":
            e = e * 2.0
            return (ctx.q(e * 1e3, "GeV"), flux(pars, e)), 3.0
        return flux(pars, e) if kind == "plain" else (flux(pars, e), 3.0)
    run.s = Sampler(chain, np.array(lp).reshape(2, 2), run.s.get_blobs() if blobs else None,
                    data=run.data, labels=["norm", "x"], modelfn=model)
    run.k = int(np.argmax(lp)) % 2
    run.kind = kind
    run.val = lambda i: [p[i][0] * e + p[i][1] for e in run.e]
    return run, p


def at(run, es):
    run.e = [e * 2.0 for e in es] if run.kind == "own" else list(es)


def e_range(ctx):
    """models recomputed on another energy range"""
    import astropy.units as u

    run, p = computed(ctx)
    sed = ctx.bool("sed")
    eu, lo, hi = ctx.choice("range", [("TeV", 2.0, 8.0), ("erg", 1.0, 100.0)])
    fig = Figure()
    plot(run, fig, n_samples=2, sed=sed, e_range=[lo, hi] * u.Unit(eu), e_npoints=3)
    ll = fig.best_last()
    ctx.true("count", len(ll) == 3)
    at(run, [x / EU[eu] for x in (lo, math.sqrt(lo * hi), hi)])
    for n, c in enumerate(ll):
        sample(ctx, run, c, sed, run.k if n == 2 else None)


def sample(ctx, run, c, sed, k, eu="TeV"):
    """a curve is sample k, or any"""
    x, y = arg(c, 0, "x"), arg(c, 1, "y")
    ctx.true("npoints", len(x) == len(run.e) and len(y) == len(run.e))
    if k is None:
        k = 0 if bool(y[0] < run.y(0, 2.0 * run.e[0] + 2.0, sed)) else 1
    w = run.val(k)
    for j in range(len(run.e)):
        ctx.eq("x", x[j], run.e[j] * EU[eu])
        ctx.eq("y", y[j], run.y(j, w[j], sed))


def no_blobs(ctx):
    """without stored models they are computed, a factor three around the data"""
    run, p = computed(ctx, blobs=False)
    sed = ctx.bool("sed")
    fig = Figure()
    band = ctx.bool("bands")
    kw = {"confs": [1]} if band else {"n_samples": 2}
    plot(run, fig, sed=sed, e_npoints=3, **kw)
    es = [x["e"] for x in run.rows]
    es = [es[i] for i in T.order(ctx, es)]
    lo, hi = es[0] / 3.0, es[1] * 3.0
    at(run, [lo, ctx.m.sqrt(lo * hi), hi])
    ll = fig.best_last()
    ctx.true("count", len(ll) == (1 if band else 3))
    for n, c in enumerate(ll):
        sample(ctx, run, c, sed, run.k if n == len(ll) - 1 else None)
    if band:
        recomputed(ctx, run, fig, sed, 1)


def recomputed(ctx, run, fig, sed, n, eu="TeV"):
    """bands of recomputed samples lie between the two samples of the run"""
    fills = fig.calls("fill_between")
    ctx.true("bands", len(fills) == n, "%d" % len(fills))
    w = [run.val(0), run.val(1)]
    for c in fills:
        x, a, b = arg(c, 0, "x"), arg(c, 1, "y1"), arg(c, 2, "y2")
        ctx.true("n", len(x) == len(a) == len(b) == len(run.e))
        for j in range(len(run.e)):
            ctx.eq("x", x[j], run.e[j] * EU[eu])
            for v in (a[j], b[j]):
                i = 0 if bool(v < run.y(j, 2.0 * run.e[j] + 2.0, sed)) else 1
                ctx.eq("edge", v, run.y(j, w[i][j], sed))


def ci_range(ctx):
    """confidence bands on another energy range"""
    import astropy.units as u

    run, p = computed(ctx)
    sed = ctx.bool("sed")
    confs = ctx.choice("confs", [[1], [1, 2]])
    eu, lo, hi = "TeV", 2.0, 8.0
    e_unit = ctx.choice("unit", ["TeV", "erg"])
    fig = Figure()
    plot(run, fig, confs=confs, sed=sed, e_range=[lo, hi] * u.Unit(eu), e_npoints=3,
         e_unit=u.Unit(e_unit), last_step=ctx.bool("last"))
    at(run, [lo, math.sqrt(lo * hi), hi])
    ll = fig.best_last()
    ctx.true("count", len(ll) == 1)
    sample(ctx, run, ll[-1], sed, run.k, e_unit)
    recomputed(ctx, run, fig, sed, len(confs), e_unit)


def blob_plot(ctx):
    """an output that is a spectrum is shown as a fit, with its own label"""
    import naima.plot

    idx = ctx.choice("idx", [0, 1])
    own = ctx.bool("own")
    run = Run(ctx, 2, 2, ctx.choice("kind", ["dflux", "flux"]), own, idx=idx)
    sed, last = ctx.bool("sed"), ctx.bool("last")
    label = ctx.choice("label", [None, "mine"])
    fig = Figure()
    with fit.quiet(), patched(fig):
        naima.plot.plot_blob(run.s, blobidx=idx, label=label, last_step=last, figure=fig, sed=sed,
                             n_samples=2, plotdata=False)
    ll = fig.best_last()
    ctx.true("count", len(ll) == 3, "%d curves" % len(ll))
    for c in ll[:-1]:
        x, y = arg(c, 0, "x"), arg(c, 1, "y")
        for j in (0, 1):
            ctx.eq("x", x[j], run.e[j])
        member(ctx, run, "sample", y, list(run.use(last)), sed)
    best(ctx, run, fig, sed, "TeV")
    if label:
        ctx.true("label", any(a.labels.get("title") == label for a in fig.axes), "no title")


def distribution(ctx):
    """scalar outputs are shown as the distribution of their samples"""
    import naima.plot
    from .common import Patches

    n = 4
    vals = ctx.reals("w", n, 1, 3)
    un = ctx.bool("unit")
    items = [(1.5, ctx.q(v, "erg") if un else v) for v in vals]
    last = ctx.bool("last")
    s = Sampler(np.zeros((2, 2, 1)), np.zeros((2, 2)), objects(items, (2, 2)), labels=["norm"],
                data={"energy": ctx.q(np.ones(ctx.choice("rows", [3, 1])), "TeV")})
    seen = []
    with fit.quiet(), Patches([(naima.plot, "plot_distribution",
                                lambda *a, **k: seen.append((a, k)))]):
        naima.plot.plot_blob(s, blobidx=1, last_step=last)
    ctx.true("called", len(seen) == 1)
    got = seen[0][0][0]
    w = vals[2:] if last else vals
    ctx.true("unit", (getattr(got, "unit", None) == "erg") or not un)
    ctx.eq("samples", getattr(got, "value", got), ctx.arr(w))


HARNESSES = [("bands_fixed", bands(False)), ("bands_free", bands(True)), ("bands_long", bands_long), ("curves", curves),
             ("only_best", only_best), ("e_range", e_range), ("ci_range", ci_range),
             ("no_blobs", no_blobs), ("blob_plot", blob_plot), ("distribution", distribution)]
