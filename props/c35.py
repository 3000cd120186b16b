"""C35: the interactive fitter shows and hands on the parameters of its sliders."""
import numpy as np

from . import fit, tables as T
from .c18 import OUT, ref
from .c25 import Minimiser, Normal, everywhere
from .common import Patches
from .figs import PYPLOT, Figure, Strict, unknown

BOUNDS = ("1-2 data points (or none), two parameters, sequences of up to three actions (moving a slider, switching "
          "the automatic update, updating, fitting with any outcome); symbolic data, starting values, "
          "slider positions and fit results")
ASSUMPTIONS = ["matplotlib's widgets are replaced by their contract: a slider starts at the initial value "
               "moved into its range, calls back on every change", "the minimiser is decided by C24"]
LIMITS = {"ties": False, "seconds": 100}
LABELS = [["norm", "index"], ["log10(norm)", "alpha"], ["x", "y"], ["amplitude", "log(x)"]]


class Slider(Strict):
    made = []

    def __init__(self, ax, label, valmin, valmax, valinit=0.5, valfmt=None, **k):
        v = self.valinit = valinit
        if bool(v <= valmin):
            v = valmin
        elif bool(v >= valmax):
            v = valmax
        self.label, self.valmin, self.valmax, self.val, self.cb = label, valmin, valmax, v, []
        self.ax = ax
        Slider.made.append(self)

    def on_changed(self, f):
        self.cb.append(f)

    def set_val(self, v):
        self.val = v
        for f in self.cb:
            f(v)


class Button(Strict):
    made = []

    def __init__(self, ax, label, *a, **k):
        self.label, self.cb = label, []
        Button.made.append(self)

    def on_clicked(self, f):
        self.cb.append(f)

    def click(self, *a):
        for f in self.cb:
            f(*(a or ("event",)))


class CheckButtons(Button):
    def __init__(self, ax, labels, actives=None, **k):
        Button.__init__(self, ax, labels[0])
        self.on = bool(actives[0]) if actives is not None else False

    def click(self):
        self.on = not self.on
        Button.click(self, self.label)


class Line(Strict):
    def __init__(self, x, y):
        self.x, self.y = x, y

    def set_ydata(self, y):
        self.y = y

    def set_xdata(self, x):
        self.x = x

    def set_data(self, x, y):
        self.x, self.y = x, y

    def get_xdata(self, orig=True):
        return self.x

    def get_ydata(self, orig=True):
        return self.y


class Text(Strict):
    def __init__(self, s):
        self.s = s

    def set_text(self, s):
        self.s = s

    def get_text(self):
        return self.s


class Canvas(Strict):
    def draw_idle(self):
        pass

    draw = flush_events = draw_idle


class Fig(Figure):
    def __init__(self):
        Figure.__init__(self)
        self.canvas, self.lines, self.texts = Canvas(), [], []

    def grid(self, *a, **k):
        ax = Figure.grid(self, *a, **k)

        def loglog(x, y, *r, **k):
            self.lines.append(Line(x, y))
            return (self.lines[-1],)

        def text(x, y, s, *r, **k):
            self.texts.append(Text(s))
            return self.texts[-1]
        ax.loglog = ax.plot = ax.semilogx = ax.semilogy = loglog
        ax.text = text
        return ax


class Gui:
    """patched matplotlib; show() runs the given actions"""

    def __init__(self, ctx, actions=None):
        import matplotlib.pyplot as plt
        import matplotlib.widgets as w

        self.fig, self.ctx = Fig(), ctx
        Slider.made, Button.made = [], []
        self.p = Patches([(plt, n, unknown(n)) for n in PYPLOT] + [(plt, "figure", lambda *a, **k: self.fig), (plt, "subplot2grid", self.fig.grid),
                          (plt, "show", lambda *a, **k: actions(self) if actions else None),
                          (plt, "close", lambda *a, **k: None), (w, "Slider", Slider),
                          (w, "Button", Button), (w, "CheckButtons", CheckButtons)])

    def __enter__(self):
        import matplotlib

        matplotlib.use("Agg")
        self.p.__enter__()
        self.q = fit.quiet()
        self.q.__enter__()
        return self

    def __exit__(self, *a):
        self.q.__exit__(*a)
        self.p.__exit__(*a)

    @property
    def sliders(self):
        return Slider.made

    def button(self, word):
        r = [b for b in Button.made if word.lower() in b.label.lower()]
        assert len(r) == 1, [b.label for b in Button.made]
        return r[0]


def value(p, e):
    """TeV based model"""
    return p[0] / (e * e) + p[1]


def model(ctx, kind, calls=None):
    unit, k = {"dflux": ("1/(cm2 s TeV)", 1.0), "flux": ("erg/(cm2 s)", 1 / (T.ERG * 1e12))}[kind]

    def f(p, data):
        e = data["energy"].to("TeV").value
        v = ctx.q(ctx.arr([value([fit.plain(x) for x in p], x) / k for x in np.asarray(e).reshape(-1)]),
                  unit)
        return (v, 1.0) if calls == "extra" else v
    return f


def number(ctx, s):
    """the number in a text: (value, half unit)"""
    import re

    if ctx.sym:
        m = re.search(r"1\.(\d+)S", s)
        from symx.sym import Sym

        if m:
            return Sym(ctx.tokens[int(m.group(1))][0])
    m = re.search(r"=\s*(-?[\d.]+(?:e-?\d+)?|-?inf|nan)", s)
    return float(m.group(1))


def shown(ctx, gui, label, p, rows, kind, sed, energies, text=True):
    """the drawn curve and the log-likelihood are those of p"""
    ctx.true(label + "line", len(gui.fig.lines) == 1)
    ln = gui.fig.lines[0]
    fam = "flux"
    out = OUT[fam, sed]
    y = list(np.asarray(getattr(ln.y, "value", ln.y), dtype=object).reshape(-1))
    ctx.true(label + "points", len(y) == len(energies), "%d" % len(y))
    for a, e in zip(y, energies):
        v = value(p, e)
        if (kind == "flux") != sed:
            v = v * (e * e) if sed else v / (e * e)
        ctx.eq(label + "curve", a, v / ref(out))
    if text:
        want = fit.lnlike(ctx, rows, [value(p, r["e"]) for r in rows], kind, sed)
        got = number(ctx, gui.fig.texts[0].s)
        d = got - want
        ctx.true(label + "lnlike", bool(d <= 0.06) and bool(d >= -0.06))


def start(ctx, n=1, kind="dflux"):
    t, rows = T.make(ctx, "t", n, kind=kind, ebins="width", elo=1.0, ehi=1.5)
    for r in rows:
        ctx.assume(r["f"] > 3)           # above the model
    return t, rows


def point():
    """a given measurement above the model"""
    import astropy.units as u
    from astropy.table import QTable

    t = QTable()
    t["energy"] = [1.25] * u.TeV
    t["flux"] = [5.0] * u.Unit("1/(cm2 s TeV)")
    t["flux_error"] = [0.5] * u.Unit("1/(cm2 s TeV)")
    return t, [dict(e=1.25, f=5.0, flo=0.5, fhi=0.5, ul=False, cl=0.9, kind="dflux")]


def same(ctx, label, a, b):
    a = list(a)
    ctx.true(label + "_n", len(a) == len(b))
    for x, y in zip(a, b):
        ctx.eq(label, fit.plain(x), y)


def actions(names):
    def h(ctx):
        ctx.texts()
        from naima.model_fitter import InteractiveModelFitter

        t, rows = point()
        mk, sed = ("dflux", True) if len(names) == 3 or names == ("fit", "fit") else \
            ctx.choice("kind", [("dflux", True), ("flux", False)])
        extra = "extra" if mk == "flux" else None
        auto = ctx.bool("auto")
        p = ctx.reals("p", 2, 0.2, 0.9)
        es = [r["e"] for r in rows]
        fits = [i for i, k in enumerate(names) if k == "fit"]
        far = False
        with Gui(ctx) as gui:
            f = InteractiveModelFitter(model(ctx, mk, extra), ctx.arr(p), t, labels=["norm", "index"],
                                       sed=sed, auto_update=auto)
            pars, ml, disp = list(p), False, list(p)
            pos = list(p)
            same(ctx, "start", f.pars, p)
            same(ctx, "sliders", [s.val for s in gui.sliders], p)
            shown(ctx, gui, "start:", disp, rows, mk, sed, es)
            for i, k in enumerate(names):
                if k in ("move0", "move1"):
                    j = int(k[-1])
                    v = ctx.real("v%d" % i, 0.2, 0.9)
                    gui.sliders[j].set_val(v)
                    pos[j] = v
                    if auto:
                        pars, disp, ml = list(pos), list(pos), False
                elif k == "toggle":
                    gui.button("auto").click()
                    auto = not auto
                elif k == "update":
                    gui.button("update model").click()
                    pars, disp, ml = list(pos), list(pos), False
                elif k == "fit":
                    status = ctx.choice("status%d" % i, [0, 1, 2])
                    xs = ctx.reals("x%d_" % i, 2, 0.2, 0.9)
                    far = len(names) == 1 and ctx.bool("far")
                    if far:
                        xs = [x * 1e3 for x in xs]       # outside of the ranges of the sliders
                    m = Minimiser(ctx, xs, status)
                    with everywhere("minimize", m):
                        gui.button("fit").click()
                    ctx.true("fitted", len(m.calls) == 1)
                    same(ctx, "fit_start", m.calls[0], pos)
                    # the fit is one of the data, without prior
                    v = m.values[0][0]
                    ctx.eq("objective", -v, fit.lnlike(ctx, rows, [value(pos, r["e"]) for r in rows],
                                                       mk, sed))
                    ml = status == 0
                    if ml:
                        pos, disp = list(xs), list(xs)
                    pars = list(xs) if status < 2 else list(pos)
                same(ctx, k + ":pars", f.pars, pars)
                same(ctx, k + ":sliders", [s.val for s in gui.sliders], pos)
                ctx.true(k + ":ml", f.P0_IS_ML == ml, "%s" % f.P0_IS_ML)
                shown(ctx, gui, k + ":", disp, rows, mk, sed, es,
                      text=names not in (("move1", "fit"), ("fit", "move0"), ("fit", "fit")) and not far)
    h.__name__ = "act_" + "_".join(names)
    return h


def ranges(ctx):
    """whatever the labels and starting values, parameters that are not moved keep their values"""
    from naima.model_fitter import InteractiveModelFitter

    labels = ctx.choice("labels", LABELS + [None, ["index"]])
    sign = ctx.choice("sign", [1, -1])
    big = ctx.choice("size", [1.0, 10.0])
    p = [0.5, sign * ctx.real("p", 0.2, 0.9) * big]
    if ctx.bool("swap"):
        p = p[::-1]
    kind = ctx.choice("type", [list, tuple])
    given = None if labels is None else kind(labels)
    with Gui(ctx) as gui:
        f = InteractiveModelFitter(model(ctx, "dflux"), ctx.arr(p), labels=given, e_npoints=2,
                                   e_range=ctx.q(np.array([1.0, 2.0]), "TeV"))
        same(ctx, "sliders", [s.val for s in gui.sliders], p)
        for s in gui.sliders:
            ctx.true("range", bool(s.valmin <= s.val) and bool(s.valmax >= s.val))
        want = ["par0", "par1"] if labels is None else (labels + ["par1"])[:2]
        ctx.true("untouched", given == (None if labels is None else kind(labels)))
        ctx.true("labels", [s.label for s in gui.sliders] == want)
        gui.button("update model").click()
        same(ctx, "kept", f.pars, p)
        shown(ctx, gui, "", p, [], "dflux", True, [1.0, 2.0], text=False)


def spectra(ctx):
    """with an energy range of its own the curve covers it, the likelihood is that of the data"""
    from naima.model_fitter import InteractiveModelFitter

    ctx.texts()
    t, rows = start(ctx, 2)
    ctx.assume(rows[0]["e"] * 1.01 < rows[1]["e"])
    mk, sed = ctx.choice("kind", [("dflux", True), ("flux", True), ("dflux", False)])
    own = ctx.choice("energies", ["range", "keV", "data"] if mk == "flux" else ["range"])
    p = ctx.reals("p", 2, 0.2, 0.9)
    kw = {}
    es = [rows[i]["e"] for i in T.order(ctx, [r["e"] for r in rows])]
    if own != "data":
        kw = dict(e_npoints=3, e_range=[ctx.q(1.0 if own == "range" else 1e9, "TeV" if own == "range"
                                              else "keV"), ctx.q(4.0 if own == "range" else 4e9,
                                                                 "TeV" if own == "range" else "keV")])
        es = [1.0, 2.0, 4.0]
    with Gui(ctx) as gui:
        f = InteractiveModelFitter(model(ctx, mk), ctx.arr(p), t, labels=["norm", "index"], sed=sed, **kw)
        shown(ctx, gui, "start:", p, rows, mk, sed, es)
        lx = gui.fig.lines[0].x
        xs = list(np.asarray(getattr(lx, "value", lx), dtype=object).reshape(-1))
        for a, b in zip(xs, es):
            ctx.eq("x", a, b)
        v = ctx.real("v", 0.2, 0.9)
        gui.sliders[0].set_val(v)
        shown(ctx, gui, "moved:", [v, p[1]], rows, mk, sed, es, text=False)
        same(ctx, "pars", f.pars, [v, p[1]])


def display(ctx):
    """the likelihood is that of the data, whatever energies are drawn"""
    import astropy.units as u
    from astropy.table import QTable

    from naima.model_fitter import InteractiveModelFitter

    ctx.texts()
    es, fs = [1.25, 2.5], [5.0, 4.0]
    t = QTable()
    t["energy"] = es * u.TeV
    t["flux"] = fs * u.Unit("1/(cm2 s TeV)")
    t["flux_error"] = [0.5, 0.7] * u.Unit("1/(cm2 s TeV)")
    rows = [dict(e=e, f=f, flo=d, fhi=d, ul=False, cl=0.9, kind="dflux")
            for e, f, d in zip(es, fs, (0.5, 0.7))]
    n = ctx.choice("points", [1, 2, 3])
    mk, sed = ctx.choice("kind", [("dflux", True), ("flux", False)])
    auto = ctx.bool("auto")
    p, v = [0.5, ctx.real("p1", 0.2, 0.9)], ctx.real("v", 0.2, 0.9)
    shows = {1: [1.0], 2: [1.0, 4.0], 3: [1.0, 2.0, 4.0]}[n]
    with Gui(ctx) as gui:
        f = InteractiveModelFitter(model(ctx, mk), ctx.arr(p), t, labels=["norm", "index"], sed=sed,
                                   e_npoints=n, e_range=[1.0, 4.0] * u.TeV, auto_update=auto)
        shown(ctx, gui, "start:", p, rows, mk, sed, shows)
        gui.sliders[0].set_val(v)
        if not auto:
            shown(ctx, gui, "kept:", p, rows, mk, sed, shows)
            gui.button("update model").click()
        shown(ctx, gui, "moved:", [v, p[1]], rows, mk, sed, shows)
        same(ctx, "pars", f.pars, [v, p[1]])


def no_data(ctx):
    """without data the spectrum is drawn as asked for, in the units of the kind asked for"""
    from naima.model_fitter import InteractiveModelFitter

    mk = ctx.choice("kind", ["dflux", "flux"])
    sed = ctx.bool("sed")
    p, v = ctx.reals("p", 2, 0.2, 0.9), ctx.real("v", 0.2, 0.9)
    with Gui(ctx) as gui:
        f = InteractiveModelFitter(model(ctx, mk), ctx.arr(p), labels=["norm", "index"], sed=sed,
                                   e_npoints=2, e_range=ctx.q(np.array([1.0, 2.0]), "TeV"))
        shown(ctx, gui, "start:", p, [], mk, sed, [1.0, 2.0], text=False)
        gui.sliders[1].set_val(v)
        shown(ctx, gui, "moved:", [p[0], v], [], mk, sed, [1.0, 2.0], text=False)
        same(ctx, "pars", f.pars, [p[0], v])


def chain(ctx):
    """the sampler starts from the parameters left in the window"""
    from naima import get_sampler

    t, rows = start(ctx)
    p = ctx.reals("p", 2, 0.2, 0.9)
    v = ctx.real("v", 0.2, 0.9)
    x = ctx.reals("x", 2, 0.2, 0.9)
    y = ctx.reals("y", 2, 0.2, 0.9)
    what = ctx.choice("what", ["nothing", "move", "fit", "fit+move"])
    prefit = ctx.bool("prefit")
    m, m2 = Minimiser(ctx, x, 0), Minimiser(ctx, y, 0)
    cur = [m2]

    def user(gui):
        if what.startswith("fit"):
            cur[0] = m
            gui.button("fit").click()
            cur[0] = m2
        if what.endswith("move"):
            gui.sliders[1].set_val(v)
    nrm = Normal(ctx)
    with Gui(ctx, user), Patches([(np.random, "normal", nrm)]), \
            everywhere("minimize", lambda *a, **k: cur[0](*a, **k)):
        s, pos = get_sampler(data_table=t, model=model(ctx, "dflux"), p0=list(p), nwalkers=4, nburn=0,
                             threads=1, guess=False, interactive=True, prefit=prefit,
                             labels=["norm", "index"])
    want = {"nothing": p, "move": [p[0], v], "fit": x, "fit+move": [x[0], v]}[what]
    ml = what == "fit"
    if prefit and not ml:
        same(ctx, "prefit", m2.calls[0], want)
        want, ml = y, True
    else:
        ctx.true("no prefit", not m2.calls)
    same(ctx, "p0", s.run_info["p0"], want)
    for i in range(4):
        for j in range(2):
            ctx.eq("walker", pos.coords[i][j], want[j] * (1 + (0.005 if ml else 0.1) * nrm.rows[i][j]))


SEQ = [("fit",), ("move0", "update"), ("move1", "fit"), ("fit", "move0"), ("toggle", "move1"), ("fit", "update"),
       ("fit", "fit")]
LONG = [("move0", "toggle", "move1"), ("toggle", "fit", "move0"), ("move0", "fit", "fit")]
HARNESSES = [("ranges", ranges), ("spectra", spectra), ("display", display),
             ("no_data", no_data), ("chain", chain)] + \
    [(h.__name__, h) for h in map(actions, SEQ)] + \
    [(h.__name__, h) for h in map(actions, LONG[:2])] + \
    [(h.__name__, h, {"tier": "thorough", "seconds": 300}) for h in map(actions, LONG[2:])]
