"""C34: plotted data points, upper limits and residuals."""
import math

import numpy as np

from . import fit, tables as T
from .c18 import OUT, ref
from .chain import Sampler, objects
from .figs import Figure, patched

BOUNDS = ("1-3 points with symbolic energies, widths, fluxes and errors (of any size and sign); groups, "
          "upper limits, every kind and unit of data; residuals for models at the data's or their own "
          "energies")
ASSUMPTIONS = ["matplotlib is replaced by a figure that records what is drawn", "energies are in "
               "increasing order and distinct", "scipy's interp1d interpolates linearly (contract)"]
LIMITS = {"ties": False, "seconds": 70}
EU = {"TeV": 1.0, "eV": 1e12, "erg": T.ERG * 1e12, "keV": 1e9}
FAM = {"dflux": "flux", "flux": "flux", "dpower": "power", "power": "power"}


def row_y(r, key, sed):
    out = OUT[FAM[r["kind"]], sed]
    v, e = r[key], r["e"]
    is_sed = r["kind"] in ("flux", "power")
    if is_sed != sed:
        v = v * (e * e) if sed else v / (e * e)
    return v / ref(out)


def lst(x):
    """one-dimensional list of plotted values"""
    x = getattr(x, "value", x)
    return list(np.asarray(x, dtype=object).reshape(-1))


def both(err, n):
    """(lower, upper) error lists of an errorbar call"""
    if err is None:
        return None
    a = np.asarray(getattr(err, "value", err), dtype=object)
    if a.ndim == 2:
        return list(a[0]), list(a[1])
    v = list(a.reshape(-1)) * (n if a.size == 1 else 1)
    return v, v


def bars(fig, axes):
    """all (x, y, xerr, yerr, uplims, options) drawn by errorbar"""
    out = []
    for a, k in fig.calls("errorbar", axes):
        get = lambda i, n: k[n] if n in k else (a[i] if len(a) > i else None)
        x, y = lst(get(0, "x")), lst(get(1, "y"))
        xe, ye = both(get(3, "xerr"), len(x)), both(get(2, "yerr"), len(x))
        for i in range(len(x)):
            out.append(dict(x=x[i], y=y[i], xerr=None if xe is None else (xe[0][i], xe[1][i]),
                            yerr=None if ye is None else (ye[0][i], ye[1][i]),
                            up=bool(k.get("uplims", False)), opts=k))
    return out


def data(ctx, n, kind, ul=None, group=None, **kw):
    t, rows = T.make(ctx, "t", n, kind=kind, err=kw.pop("err", "asym"), ebins=kw.pop("ebins", "error_asym"),
                     elo=kw.pop("elo", 2.0), ehi=kw.pop("ehi", 8.0), ul=("bool", ul) if ul else None, group=group, **kw)
    for a, b in zip(rows, rows[1:]):
        ctx.assume(a["e"] * 1.05 < b["e"])
    return t, rows


def find(ctx, label, pts, x):
    """points at energy x"""
    return [p for p in pts if bool(abs(p["x"] - x) < 1e-6 * x)]


def check(ctx, fig, rows, sed, eu, frac=0.25, axes="ax0", label=""):
    pts = bars(fig, axes)
    for r in rows:
        x, y = r["e"] * EU[eu], row_y(r, "f", sed)
        mine = find(ctx, label, pts, x)
        ctx.true(label + "drawn", len(mine) >= 1, "point not drawn")
        if not mine:
            return
        if r["ul"]:
            up = [p for p in mine if p["up"]]
            ctx.true(label + "arrow", len(up) == 1, "%d arrows" % len(up))
            ctx.true(label + "limit", all(p["up"] or p["yerr"] is None for p in mine))
            if len(up) == 1:
                ctx.eq(label + "length", up[0]["yerr"][0], y * frac)
        else:
            ctx.true(label + "point", len(mine) == 1 and not mine[0]["up"])
            p = mine[0]
            lo, hi = row_y(r, "flo", sed), row_y(r, "fhi", sed)
            ctx.eq(label + "upper error", p["yerr"][1], hi)
            if bool(y > 0) and bool(y - lo <= 0):
                # an error bar reaching zero ends just above it
                ctx.true(label + "short bar", bool(p["yerr"][0] > 0.99 * y) and
                         bool(p["yerr"][0] < y))
            else:
                ctx.eq(label + "lower error", p["yerr"][0], lo)
        for p in mine:
            ctx.eq(label + "y", p["y"], y)
        xe = [p["xerr"] for p in mine if p["xerr"] is not None]
        ctx.true(label + "bin", len(xe) >= 1)
        for a, b in xe:
            ctx.eq(label + "energy lo", a, r["elo"] * EU[eu])
            ctx.eq(label + "energy hi", b, r["ehi"] * EU[eu])
    ctx.true(label + "only", len(pts) == sum(len(find(ctx, label, pts, r["e"] * EU[eu])) for r in rows))
    window(ctx, fig, rows, eu, axes, label)


def window(ctx, fig, rows, eu, axes="ax0", label=""):
    """every energy bin is inside the axes"""
    lim = fig.calls("set_xlim", axes)
    ctx.true(label + "xlim", len(lim) >= 1)
    a, k = lim[-1]
    if len(a) == 1 and len(a[0]) == 2:
        a = a[0]
    lo = a[0] if a else k["left"]
    hi = a[1] if len(a) > 1 else k["right"]
    lg = ctx.m.log10
    for r in rows:
        ctx.true(label + "inside", bool(lg(lo) <= lg((r["e"] - r["elo"]) * EU[eu]) + 1e-9) and
                 bool(lg(hi) >= lg((r["e"] + r["ehi"]) * EU[eu]) - 1e-9))


def draw(fig, t, **kw):
    from naima import plot_data

    with fit.quiet(), patched(fig):
        return plot_data(t, figure=fig, **kw)


def unit(eu):
    import astropy.units as u

    return None if eu is None else u.Unit(eu)


def points(ctx):
    """every kind and unit of data"""
    kind = ctx.choice("kind", list(FAM))
    fu = ctx.choice("funit", list(T.KINDS[kind])[:2])
    tu = ctx.choice("tunit", ["TeV", "keV"])
    t, rows = data(ctx, 1, kind, funit=fu, eunit=tu)
    sed = ctx.bool("sed")
    eu = ctx.choice("eu", [None, "eV", "erg"])
    fig = Figure()
    snap = T.snapshot(t)
    draw(fig, t, sed=sed, e_unit=unit(eu))
    check(ctx, fig, rows, sed, eu or tu)
    T.unchanged(ctx, "data", t, snap)


def inside(ctx):
    """energies of any decade are inside the axes"""
    t, rows = data(ctx, 1, "dflux", err="sym", ebins="error_asym", elo=0.5, ehi=20.0,
                   eunit=ctx.choice("tunit", ["TeV", "keV"]))
    ctx.assume(rows[0]["f"] > rows[0]["flo"])
    eu = ctx.choice("eu", ["TeV", "eV"])
    fig = Figure()
    draw(fig, t, e_unit=unit(eu))
    window(ctx, fig, rows, eu)


def limits(ctx):
    """upper limits are arrows of the requested length, in every group"""
    ul, g = ctx.choice("case", [([True, False], None), ([False, True], [0, 1]), ([True, True], [1, 0]),
                                ([True, False], [2, 2])])
    t, rows = data(ctx, 2, "dflux", ul=ul, group=g,
                   ebins="error_asym" if g in (None, [2, 2]) else "width")
    sed = ctx.bool("sed")
    opts, fr = ctx.choice("opts", [({}, 0.25), ({"height_fraction": 0.5}, 0.5), ({"capsize": 3}, 0.25)])
    mine = dict(opts)
    kw = dict(ulim_opts=mine) if opts else {}
    fig = Figure()
    draw(fig, t, sed=sed, **kw)
    check(ctx, fig, rows, sed, "TeV", fr)
    ctx.true("options kept", mine == opts, "%s" % mine)
    for p in bars(fig, "ax0"):
        if p["up"] and "capsize" in opts:
            ctx.true("capsize", p["opts"].get("capsize") == opts["capsize"])


def short_bars(ctx):
    """several points with errors larger than their fluxes, with and without others"""
    bad, ul = ctx.choice("bad", [((1, 1), None), ((1, 1, 0), None), ((0, 1, 1), [False, True, False]),
                                 ((1, 0, 1), None)])
    g = ctx.choice("groups", [None, [0, 1, 1], [1, 0, 1]]) if len(bad) == 3 else None
    t, rows = data(ctx, len(bad), "dflux", ul=ul, group=g, ebins="width")
    for b, r in zip(bad, rows):
        if not b:
            r["f"] = r["flo"] + ctx.real("more%d" % rows.index(r), 0.5, 2)
        elif not r["ul"]:
            ctx.assume(r["f"] > 0.01)
            ctx.assume(r["flo"] > r["f"] * 1.01)
    t["flux"] = ctx.q(ctx.arr([r["f"] for r in rows]), "1/(cm2 s TeV)")
    sed = ctx.bool("sed")
    fig = Figure()
    draw(fig, t, sed=sed)
    pts = bars(fig, "ax0")
    for b, r in zip(bad, rows):
        if r["ul"]:
            continue
        m = find(ctx, "", pts, r["e"])
        ctx.true("drawn", len(m) == 1)
        y = row_y(r, "f", sed)
        ctx.eq("y", m[0]["y"], y)
        ctx.eq("upper", m[0]["yerr"][1], row_y(r, "fhi", sed))
        if b:
            ctx.zero("short bar", (m[0]["yerr"][0] / y - 1) * 1e-3, 1.0)
            ctx.lt("short bar", m[0]["yerr"][0], y)
        else:
            ctx.eq("lower", m[0]["yerr"][0], row_y(r, "flo", sed))


def groups(ctx):
    """points of different groups are told apart, in any arrangement"""
    g = ctx.choice("groups", [[0, 1, 0], [1, 0, 2], [0, 0, 0], [3, 3, 1]])
    t, rows = data(ctx, 3, "dflux", group=g, ebins="width")
    for r in rows:
        ctx.assume(r["f"] > r["flo"])
    fig = Figure()
    sed = ctx.bool("sed")
    draw(fig, t, sed=sed)
    pts = bars(fig, "ax0")
    style = {}
    for r in rows:
        m = find(ctx, "", pts, r["e"])
        ctx.true("drawn", len(m) == 1)
        ctx.eq("y", m[0]["y"], row_y(r, "f", sed))
        ctx.eq("lower", m[0]["yerr"][0], row_y(r, "flo", sed))
        ctx.eq("upper", m[0]["yerr"][1], row_y(r, "fhi", sed))
        ctx.eq("width", m[0]["xerr"][0], r["elo"])
        style.setdefault(r["group"], set()).add((str(m[0]["opts"].get("color")),
                                                 m[0]["opts"].get("marker")))
    ctx.true("same style", all(len(s) == 1 for s in style.values()))
    ctx.true("other style", len(set(map(frozenset, style.values()))) == len(style))


def many(ctx):
    """seven groups are told apart"""
    import astropy.units as u
    from astropy.table import QTable

    n = 7
    f = ctx.reals("f", n, 0.5, 3)
    t = QTable()
    g = ctx.choice("first", [0, 3])
    t["energy"] = np.array([2.0 ** i for i in range(n)]) * u.TeV
    t["flux"] = ctx.q(ctx.arr(f), "1/(cm2 s TeV)")
    t["flux_error"] = ctx.q(ctx.arr([0.1] * n), "1/(cm2 s TeV)")
    t["ul"] = np.array([i == 2 for i in range(n)])
    t["group"] = np.array([g + i for i in range(n)])
    fig = Figure()
    draw(fig, t, sed=False)
    pts = bars(fig, "ax0")
    style = []
    for i in range(n):
        m = find(ctx, "", pts, 2.0 ** i)
        ctx.true("drawn", len(m) == (2 if i == 2 else 1))
        ctx.eq("y", m[0]["y"], f[i])
        if i != 2:
            style.append((str(m[0]["opts"].get("color")), m[0]["opts"].get("marker")))
    ctx.true("styles", len(set(style)) == n - 1, "%s" % style)


def sequence(ctx):
    """the options of one plot do not affect the next one"""
    ul = [True]
    t, rows = data(ctx, 1, "flux", ul=ul, ebins="width")
    sed = ctx.bool("sed")
    eo, uo = {"elinewidth": 7, "ms": 9}, {"height_fraction": 0.6}
    keep = dict(eo), dict(uo)
    a, b, c = Figure(), Figure(), Figure()
    which = ctx.choice("first", ["errorbar", "ulim", "both"])
    kw = {}
    if which != "ulim":
        kw["errorbar_opts"] = eo
    if which != "errorbar":
        kw["ulim_opts"] = uo
    draw(c, t, sed=sed)
    draw(a, t, sed=sed, **kw)
    draw(b, t, sed=sed)
    ctx.true("kept", (eo, uo) == keep, "%s" % ((eo, uo),))
    check(ctx, a, rows, sed, "TeV", 0.6 if which != "errorbar" else 0.25, label="first:")
    check(ctx, b, rows, sed, "TeV", label="second:")
    opts = lambda f: [sorted((k, str(v)) for k, v in kw.items() if k not in ("xerr", "yerr", "x", "y"))
                      for _, kw in f.calls("errorbar")]
    ctx.true("same options", opts(b) == opts(c), "%s" % opts(b))


def again(ctx):
    """a second data set in the same figure is drawn in the energy unit of the first"""
    t, rows = data(ctx, 1, "dflux", ebins="width")
    eu = ctx.choice("eu", ["eV", "erg"])
    ctx.assume(rows[0]["f"] > rows[0]["flo"])
    fig = Figure()
    draw(fig, t, e_unit=unit(eu))
    k = len(fig.log)
    draw(fig, t)
    del fig.log[:k]
    check(ctx, fig, rows, True, eu)


# ------------------------------------------------------------ residuals
class Linear:
    """contract of interp1d(kind='linear')"""

    def __init__(self, x, y, kind="linear", bounds_error=None, fill_value=np.nan, **k):
        from symx.term import Unsupported

        if kind != "linear":
            raise Unsupported("interpolation of kind %s" % kind)
        self.x, self.y = lst(x), lst(y)

    def __call__(self, q):
        from symx.sym import Sym, lift

        q = getattr(q, "value", q)
        r = np.empty(np.shape(q), dtype=object)
        for i in np.ndindex(r.shape):
            v = q[i] if r.ndim else q
            r[i] = Sym.of(float("nan"))
            for x, y in zip(self.x, self.y):
                d = lift(v) - x
                if all(abs(c) < 1e-12 * max(abs(lift(x).t.m.get(m, 0.0)), 1e-300)
                       for m, c in d.t.m.items()):
                    r[i] = lift(y)
                    break
            else:
                for k in range(len(self.x) - 1):
                    if bool(v > self.x[k]) and bool(v < self.x[k + 1]):
                        s = (v - self.x[k]) / (self.x[k + 1] - self.x[k])
                        r[i] = self.y[k] + s * (self.y[k + 1] - self.y[k])
        return r


def residuals(own):
    def h(ctx):
        import scipy.interpolate as I

        from naima import plot_fit
        from naima.utils import validate_data_table

        from .common import Patches

        n = 2
        kind, mk, (g, ul) = ctx.choice("case", [
            ("dflux", "dflux", (None, None)), ("flux", "dflux", ([1, 0], None)),
            ("dflux", "flux", (None, [True, False])), ("flux", "flux", ([0, 1], [False, True]))])
        if own:
            g, ul = None, None
        x0 = ctx.choice("scale", [1.0, 1e-9]) if own else 1.0
        t, rows = data(ctx, n, kind, ul=ul, group=g, ebins="width")
        for r in rows:
            ctx.assume(r["f"] > r["flo"])
        if x0 != 1.0:                        # X-ray data given in TeV
            for c in ("energy", "energy_width"):
                t[c] = t[c] * x0
            for r in rows:
                for c in ("e", "elo", "ehi"):
                    r[c] = r[c] * x0
        with fit.quiet():
            tab = validate_data_table(t)
        mu, k = {"dflux": ("1/(cm2 s TeV)", 1.0), "flux": ("erg/(cm2 s)", 1 / (T.ERG * 1e12))}[mk]
        me = [r["e"] for r in rows]
        if own:
            e0 = me[0] * ctx.real("below", 0.2, 0.8)
            me = [e0, me[1] * ctx.real("above", 1.2, 3)]
        mv = ctx.reals("m", 2, 0.1, 3)
        m = ctx.q(ctx.arr([v / k for v in mv]), mu)
        item = (ctx.q(ctx.arr([e * 1e12 for e in me]), "eV"), m) if own else m
        s = Sampler(np.zeros((1, 1, 1)), np.zeros((1, 1)), objects([(item, 2.0)], (1, 1)), data=tab,
                    labels=["norm"])
        sed = ctx.bool("sed")
        eu = ctx.choice("eu", [None, "keV"])
        fig = Figure()
        items = []
        if ctx.sym:
            import naima.plot as P

            items = [(I, "interp1d", Linear)]
            if hasattr(P, "interp1d"):
                items.append((P, "interp1d", Linear))
        opts = {"ms": 3}
        with fit.quiet(), patched(fig), Patches(items):
            plot_fit(s, figure=fig, plotdata=True, sed=sed, n_samples=1, e_unit=unit(eu),
                     errorbar_opts=opts)
        ctx.true("options kept", opts == {"ms": 3})
        eu = eu or "TeV"
        pts = bars(fig, "residuals")
        my = []
        for e, v in zip(me, mv):
            r = dict(kind=mk, e=e, v=v)
            my.append(row_y(r, "v", sed))
        for i, r in enumerate(rows):
            if r["ul"]:
                continue
            x = r["e"] * EU[eu]
            mine = find(ctx, "", pts, x)
            ctx.true("drawn", len(mine) == 1, "%d residuals" % len(mine))
            w = my[i]
            if own:
                w = my[0] + (my[1] - my[0]) * ((r["e"] - me[0]) / (me[1] - me[0]))
            f = row_y(r, "f", sed)
            err = (row_y(r, "flo", sed) + row_y(r, "fhi", sed)) / 2
            ctx.zero("residual", mine[0]["y"] * err - (f - w), f + w)
            ctx.eq("unit error", mine[0]["yerr"][0], 1.0)
            ctx.eq("width", mine[0]["xerr"][1], r["ehi"] * EU[eu])
        ctx.true("only", len(pts) == sum(not r["ul"] for r in rows), "%d points" % len(pts))
        for r in rows:
            m = find(ctx, "", bars(fig, "main"), r["e"] * EU[eu])
            ctx.true("data drawn", len(m) >= 1)
            ctx.eq("data", m[0]["y"], row_y(r, "f", sed))
    h.__name__ = "residuals_" + ("own" if own else "same")
    return h


def inputs(ctx):
    """data given as a table, a validated table, several tables or a run with them"""
    from naima.utils import validate_data_table

    t, rows = data(ctx, 2, ctx.choice("kind", ["dflux", "power"]), ebins="width")
    for r in rows:
        ctx.assume(r["f"] > r["flo"])
    how = ctx.choice("how", ["table", "validated", "run", "list", "fit"])
    given, snap, key = t, None, T.snapshot
    sed = ctx.bool("sed")
    if how in ("validated", "run", "fit"):
        with fit.quiet():
            given = validate_data_table(t)
        snap = key(given)
    tab = given
    if how in ("run", "fit"):
        given = Sampler(np.zeros((1, 1, 1)), np.zeros((1, 1)),
                        objects([(ctx.q(np.ones(2), given["flux"].unit), 2.0)], (1, 1)), data=tab,
                        labels=["norm"])
    if how == "list":
        given = [t]
    fig = Figure()
    labels = ctx.choice("labels", [{}, {"xlabel": "X", "ylabel": "Y"}])
    if how == "fit":
        from naima import plot_fit

        with fit.quiet(), patched(fig):
            plot_fit(given, figure=fig, sed=sed, n_samples=None, confs=None, **labels)
    elif ctx.bool("own figure"):
        draw(fig, given, sed=sed, **labels)
    else:
        from naima import plot_data

        with fit.quiet(), patched(fig):
            r = plot_data(given, sed=sed, **labels)
        ctx.true("figure", r is fig)
    check(ctx, fig, rows, sed, "TeV")
    if labels:
        ctx.true("labels", fig.axes[0].labels.get("x") == "X" and fig.axes[0].labels.get("y") == "Y",
                 "%s" % fig.axes[0].labels)
    if snap:
        T.unchanged(ctx, "data", tab, snap)


def matching(ctx):
    """by default data are drawn with models of their kind, at the same number of energies, and only those"""
    from naima import plot_fit
    from naima.utils import validate_data_table

    kind = ctx.choice("kind", ["dflux", "power"])
    mu = ctx.choice("model", ["1/(cm2 s TeV)", "erg/(cm2 s)", "1/(s eV)", "erg/s"])
    t, rows = data(ctx, 2, kind, ebins="width")
    for r in rows:
        ctx.assume(r["f"] > r["flo"])
    with fit.quiet():
        tab = validate_data_table(t)
    v = ctx.reals("m", 2, 1, 3)
    s = Sampler(np.zeros((1, 1, 1)), np.zeros((1, 1)), objects([(ctx.q(ctx.arr(v), mu), 2.0)], (1, 1)),
                data=tab, labels=["norm"])
    sed = ctx.bool("sed")
    fig = Figure()
    res = ctx.choice("residuals", [None, False])
    with fit.quiet(), patched(fig):
        plot_fit(s, figure=fig, sed=sed, n_samples=1, plotresiduals=res)
    drawn = (kind == "power") == (mu in ("1/(s eV)", "erg/s"))
    axes = "main" if drawn and res is None else "ax0"
    pts = bars(fig, axes)
    ctx.true("data", (len(pts) > 0) == drawn, "%d points" % len(pts))
    ctx.true("residuals", (len(bars(fig, "residuals")) > 0) == (drawn and res is None))
    for r in rows if drawn else []:
        m = find(ctx, "", pts, r["e"])
        ctx.true("drawn", len(m) == 1)
        ctx.eq("y", m[0]["y"], row_y(r, "f", sed))


HARNESSES = [("points", points), ("inside", inside), ("limits", limits), ("short_bars", short_bars), ("groups", groups), ("many", many), ("sequence", sequence),
             ("again", again), ("inputs", inputs), ("matching", matching), ("residuals_same", residuals(False)), ("residuals_own", residuals(True))]
