"""C31: tabulated models and EBL absorption."""
import math

import numpy as np

from . import fit, tables as T
from .common import Patches

BOUNDS = ("tables of 4-5 energies (values symbolic; energies symbolic at tabulated energies and outside, "
          "fixed between them); EBL at symbolic redshift in windows covering the ends and the middle "
          "of the table and symbolic energies in, below and above it")
ASSUMPTIONS = ["scipy's interp1d is replaced by its contract: the tabulated value at a tabulated "
               "point, the fill value outside, between them the spline of the requested kind for "
               "fixed abscissae (its basis polynomials computed by scipy) and an arbitrary function of "
               "the point otherwise", "the tabulated opacities are taken from the file"]
LIMITS = {"seconds": 80, "ties": False}
EBL = {}


class Interp:
    """contract of scipy.interpolate.interp1d for symbolic data"""

    def __init__(self, ctx, x, y, kind="linear", axis=-1, copy=True, bounds_error=None,
                 fill_value=np.nan, assume_sorted=False):
        self.ctx, self.x, self.y = ctx, list(np.asarray(x).reshape(-1)), list(np.asarray(y).reshape(-1))
        self.kind, self.fill, self.strict = kind, fill_value, bounds_error
        # a spline through an infinite value is undefined everywhere
        self.undefined = kind != "linear" and any(abs(known(v, 0.0)) == math.inf for v in self.y)
        assert len(self.x) == len(self.y)
        self.fixed = all(known(v, None) is not None for v in self.x)
        if self.fixed:
            self.x = [known(v, None) for v in self.x]
        if self.fixed and any(b <= a for a, b in zip(self.x, self.x[1:])):
            from symx.term import Unsupported

            raise Unsupported("unsorted interpolation table")

    def __call__(self, q):
        q = getattr(q, "value", q)
        if isinstance(q, np.ndarray):
            r = np.empty(q.shape, dtype=object)
            for i in np.ndindex(q.shape):
                r[i] = self.one(q[i])
            return r
        r = np.empty((), dtype=object)
        r[()] = self.one(q)
        return r

    def outside(self, side):
        from symx.sym import Sym
        from symx.term import Unsupported

        if self.strict:
            raise ValueError("A value in x_new is outside the interpolation range.")
        if isinstance(self.fill, str):
            raise Unsupported("extrapolation")
        f = self.fill[side] if isinstance(self.fill, tuple) else self.fill
        return Sym.of(float(f)) if not hasattr(f, "t") else f

    def one(self, q):
        from symx.sym import Sym, lift

        q = lift(q)
        if self.undefined:
            return Sym.of(math.nan)
        for i, x in enumerate(self.x):
            if near(lift(x) - q):
                return lift(self.y[i])
        if bool(q < self.x[0]):
            return self.outside(0)
        if bool(q > self.x[-1]):
            return self.outside(1)
        if self.fixed:
            return self.spline(q)
        # shifting abscissae or ordinates shifts the interpolant
        x0, y0 = self.x[0], self.y[0]
        return y0 + self.ctx.uf("interp", q - x0, *[v - x0 for v in self.x[1:]],
                                *[v - y0 for v in self.y[1:]], lo=-20, hi=20)

    def spline(self, q):
        from scipy.interpolate import interp1d

        n = len(self.x)
        k = 0
        lo, hi = 0, n - 1
        while hi - lo > 1:                      # segment
            mid = (lo + hi) // 2
            if bool(q < self.x[mid]):
                hi = mid
            else:
                lo = mid
        k = lo
        a, b = float(self.x[k]), float(self.x[k + 1])
        # a cubic polynomial from its values at four points of the segment
        pts = [a, a + (b - a) / 3, a + 2 * (b - a) / 3, b]
        s = (q - a) * (1.0 / (b - a))
        L = lagrange(s)
        num = all(not hasattr(v, "t") or known(v, None) is not None for v in self.y)
        if num:
            v = _orig(np.array(self.x, float), np.array([known(v, v) for v in self.y], float),
                      self.kind)(pts)
            return sum(float(c) * l for c, l in zip(v, L))
        out = 0.0
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1
            w = _orig(np.array(self.x, float), e, self.kind)(pts)
            out = out + sum(float(c) * l for c, l in zip(w, L)) * self.y[i]
        return out


def _orig(x, y, kind):
    return INTERP(x, y, kind=kind)


def lagrange(s):
    """basis of cubic polynomials with values at 0, 1/3, 2/3, 1"""
    u, v, w = s - 1 / 3, s - 2 / 3, s - 1.0
    return (-4.5 * u * v * w, 13.5 * s * v * w, -13.5 * s * u * w, 4.5 * s * u * v)


def near(d):
    """a difference that is zero but for rounding"""
    return all(abs(c) < 1e-12 for c in d.t.m.values())


def known(v, default):
    """number a symbolic value stands for, if it is a constant"""
    t = getattr(v, "t", None)
    if t is None:
        return float(v)
    if not t.m:
        return 0.0
    if list(t.m) == [()]:
        return float(t.m[()])
    return default


INTERP = None


def stub(ctx):
    import scipy.interpolate as I

    import naima.models as M

    global INTERP
    if INTERP is None:
        INTERP = I.interp1d
    if not ctx.sym:
        return Patches([])
    f = lambda *a, **k: Interp(ctx, *a, **k)
    items = [(I, "interp1d", f)]
    for k, v in list(vars(M).items()):
        if v is INTERP:
            items.append((M, k, f))
    return Patches(items)


def interpolated(fn):
    def h(ctx):
        with stub(ctx), fit.quiet():
            return fn(ctx)
    h.__name__ = fn.__name__
    return h


EN = {"eV": 1e-12, "TeV": 1.0, "erg": 1 / (T.ERG * 1e12), "GeV": 1e-3}       # TeV per unit
VAL = [("1/eV", "1/eV", 1.0), ("1/TeV", "1/eV", 1e-12), (None, "", 1.0), ("erg", "erg", 1.0)]


def table(ctx, n, fixed=False, floor=0.1):
    """(energies in TeV, values, table values, model arguments)"""
    e = [0.1 * 10 ** (0.5 * i) for i in range(n)] if fixed else [ctx.real("e0", 0.1, 0.2)]
    if not fixed:
        for g in ctx.reals("g", n - 1, 0.1, 1):
            e.append(e[-1] + g)
    eu = ctx.choice("eunit", ["TeV", "eV", "erg"])
    x = ctx.q(ctx.arr([v / EN[eu] for v in e]), eu)
    return e, x


def amplitude(ctx):
    return ctx.real("amp", 0.1, 10) if ctx.bool("scaled") else None


def model(ctx, x, y, unit, amp):
    from naima.models import TableModel

    v = ctx.arr(y)
    v = v if unit is None else ctx.q(v, unit)
    return TableModel(x, v) if amp is None else TableModel(x, v, amplitude=amp)


def value(ctx, m, e, eu, label, unit):
    r = m(ctx.q(e / EN[eu], eu))
    ctx.true(label + ":shape", np.shape(r) == ())
    ctx.true(label + ":unit", getattr(r, "unit", None) is not None
             and r.unit.is_equivalent(unit or ""), "%s" % getattr(r, "unit", None))
    return fit.scalar(r.to(unit or ""))


@interpolated
def knots(ctx):
    """the tabulated values, times the amplitude, in the units of the table"""
    n = ctx.choice("n", [4, 5])
    e, x = table(ctx, n)
    unit, _, _ = ctx.choice("unit", VAL)
    y = ctx.reals("y", n, 0.1, 10)
    amp = amplitude(ctx)
    m = model(ctx, x, y, unit, amp)
    eu = ctx.choice("at", ["TeV", "GeV"])
    a = 1.0 if amp is None else amp
    # the ends only in the same unit: rounding may put them outside the table
    k = ctx.choice("k", [0, n - 1] if x.unit == eu else [1, n - 2])
    ctx.eq("value", value(ctx, m, e[k], eu, "value", unit), a * y[k])
    if eu == "TeV":
        r = m(x[1:3])
        ctx.true("array:shape", np.shape(r) == (2,))
        ctx.eq("array", r.to(unit or "").value, ctx.arr([a * y[1], a * y[2]]))


@interpolated
def zeros(ctx):
    """tables with a value of zero"""
    e, x = table(ctx, 5, fixed=True)
    unit, _, _ = ctx.choice("unit", VAL[:2])
    y = ctx.reals("y", 5, 0.1, 10)
    z = ctx.choice("zero", [0, 2, 4])
    y[z] = 0.0
    m = model(ctx, x, y, unit, None)
    r = m(x[1:4]).to(unit or "").value
    for k in range(3):
        ctx.true("finite", bool(r[k] >= 0), "%s" % r[k])
        ctx.eq("value", r[k], y[1 + k])


@interpolated
def outside(ctx):
    """zero beyond the table"""
    e, x = table(ctx, 4)
    unit, _, _ = ctx.choice("unit", VAL)
    y = ctx.reals("y", 4, 0.1, 10)
    m = model(ctx, x, y, unit, amplitude(ctx))
    f = ctx.real("f", 1.01, 1000)
    eu = ctx.choice("at", ["TeV", "eV"])
    ctx.true("below", bool(value(ctx, m, e[0] / f, eu, "below", unit) == 0))
    ctx.true("above", bool(value(ctx, m, e[3] * f, eu, "above", unit) == 0))


@interpolated
def between(ctx):
    """the value between tabulated energies does not depend on representation or amplitude"""
    from naima.models import TableModel

    e, x = table(ctx, 4, fixed=True)
    y = ctx.reals("y", 4, 0.1, 10)
    amp = ctx.real("amp", 0.1, 10)
    q = e[1] + (e[2] - e[1]) * ctx.real("s", 0.1, 0.9)
    base = TableModel(ctx.q(ctx.arr([v * 1e12 for v in e]), "eV"), ctx.q(ctx.arr(y), "1/eV"))
    ref = value(ctx, base, q, "eV", "ref", "1/eV")
    unit, _, k = ctx.choice("unit", VAL[:2])
    m = model(ctx, x, [v / k for v in y], unit, amp)
    for eu in ("TeV", "erg"):
        ctx.eq("value", value(ctx, m, q, eu, "value", "1/eV"), amp * ref)
    m.amplitude = amp * 2
    ctx.eq("changed", value(ctx, m, q, "TeV", "changed", "1/eV"), 2 * amp * ref)
    m.amplitude = amp
    r = m(ctx.q(ctx.arr([q, e[1], q]), "TeV"))
    ctx.eq("array", r.to("1/eV").value, ctx.arr([amp * ref, amp * y[1], amp * ref]))
    t = {"energy": ctx.q(ctx.arr([q, q]), "TeV"), "flux": ctx.q(np.ones(2), "1/(cm2 s TeV)")}
    r = m(t)
    ctx.eq("table", r.to("1/eV").value, ctx.arr([amp * ref] * 2))


@interpolated
def powerlaw(ctx):
    """a tabulated power law is a power law"""
    from naima.models import TableModel

    e, x = table(ctx, 4, fixed=True)
    a, b = ctx.real("a", -3, 3), ctx.real("b", -3, 3)
    y = ctx.arr([ctx.m.exp((a + b * math.log10(v)) * math.log(10)) for v in e])
    m = TableModel(x, ctx.q(y, "1/eV"))
    lo = ctx.choice("segment", [0, 1, 2])
    q = ctx.real("q", e[lo] * 1.01, e[lo + 1] * 0.99)
    v = value(ctx, m, q, "TeV", "value", "1/eV")
    ctx.eq("value", ctx.m.log(v) / math.log(10), a + b * ctx.m.log10(q), rel=1e-9)


@interpolated
def reject(ctx):
    """energies are one-dimensional and have energy units"""
    import astropy.units as u

    from naima.models import TableModel

    y = np.ones(4)
    for bad in (np.ones(4), np.ones(4) * u.m, np.ones((2, 2)) * u.eV, 3 * u.eV, [1, 2, 3, 4]):
        try:
            TableModel(bad, y)
            ctx.true("rejected", False, "accepted %r" % (bad,))
        except TypeError:
            ctx.true("rejected", True)
    m = TableModel(np.array([1.0, 2, 3, 4]) * u.eV, y)
    for bad in (2.0, 2 * u.m, [1, 2]):
        try:
            m(bad)
            ctx.true("rejected", False, "accepted %r" % (bad,))
        except (TypeError, AttributeError, u.UnitsError):
            ctx.true("rejected", True)


# ------------------------------------------------------------ EBL
def opacity(z):
    """tabulated opacities of a redshift column (0 for the first: z = 0.01)"""
    if "t" not in EBL:
        import os

        import naima

        f = os.path.join(os.path.dirname(naima.__file__), "data", "tau_dominguez11.npz")
        EBL["t"] = np.load(f)["arr_0"]
    y = EBL["t"]["col%d" % (z + 2)].astype(float)
    return np.where(y > 150, 150.0, y)


def energies():
    opacity(0)
    return EBL["t"]["energy"].astype(float)


# outside the first window, redshifts below 0.01 have no absorption
WINDOWS = [(0.0, 0.0099), (0.01, 0.024), (0.486, 0.514), (3.976, 3.99), (4.1, 8.0)]


def ebl(ctx, win=None):
    """(model, tabulated opacities)"""
    from naima.models import EblAbsorptionModel

    lo, hi = win or ctx.choice("z window", WINDOWS)
    z = ctx.real("z", lo, hi)
    how = ctx.bool("quantity")
    m = EblAbsorptionModel(ctx.q(z, "") if how else z)
    if hi < 0.01:
        return m, np.zeros(500)
    k0, k1 = min(398, max(0, round(lo * 100) - 2)), min(398, round(hi * 100))
    best = k0
    for k in range(k0 + 1, k1 + 1):
        if bool(abs(z - 0.01 * (k + 1)) < abs(z - 0.01 * (best + 1))):
            best = k
    return m, opacity(best)


@interpolated
def ebl_table(ctx):
    """transmission at tabulated energies of the closest tabulated redshift"""
    m, tau = ebl(ctx)
    e = energies()
    ks = ctx.choice("k", [(0, 499), (150, 300), (250,), (420, 10)])
    eu = ctx.choice("unit", ["TeV", "GeV"])
    x = ctx.q(np.array([e[k] / EN[eu] for k in ks]), eu)
    keep = x.copy()
    r = m.transmission(x)
    ctx.true("shape", np.shape(r) == (len(ks),))
    for k, v in zip(ks, r):
        ctx.eq("transmission", fit.scalar(v), math.exp(-tau[k]))
    ctx.eqq("input", x, keep)
    s = m.transmission(x[0])
    ctx.true("scalar", np.shape(s) == ())
    ctx.eq("scalar", fit.scalar(s), math.exp(-tau[ks[0]]))


@interpolated
def ebl_outside(ctx):
    """no absorption below the table, the last value above it"""
    m, tau = ebl(ctx)
    lo, hi = ctx.real("lo", 1e-9, 0.999e-3), ctx.real("hi", 100.001, 1e6)
    eu = ctx.choice("unit", ["TeV", "erg"])
    r = m.transmission(ctx.q(ctx.arr([hi / EN[eu], lo / EN[eu]]), eu))
    ctx.eq("below", r[1], 1.0)
    ctx.eq("above", r[0], math.exp(-tau[499]))


@interpolated
def ebl_between(ctx):
    """between tabulated energies, the transmission is between the tabulated ones"""
    m, tau = ebl(ctx, ctx.choice("z window", WINDOWS[1:3]))
    e = energies()
    k = ctx.choice("k", [0, 120, 230, 300, 470])
    q = e[k] * ctx.m.exp(ctx.real("s", 0.001, 0.999) * math.log(e[k + 1] / e[k]))
    r = m.transmission(ctx.q(ctx.arr([q]), "TeV"))
    a, b = sorted((math.exp(-tau[k]), math.exp(-tau[k + 1])))
    lr = ctx.m.log(fit.scalar(r[0]))
    if a > 1e-5:
        ctx.le("lower", math.log(a - 1e-5), lr)
    ctx.le("upper", lr, math.log(b + 1e-5))


@interpolated
def ebl_reject(ctx):
    """negative redshifts, other models and redshifts with dimensions are refused"""
    import astropy.units as u

    from naima.models import EblAbsorptionModel

    for bad in ((-0.1,), (0.1, "Gilmore"), (0.1 * u.m,)):
        try:
            EblAbsorptionModel(*bad)
            ctx.true("rejected", False, "accepted %r" % (bad,))
        except (ValueError, TypeError):
            ctx.true("rejected", True)
    z = ctx.real("z", -5, -1e-6)
    try:
        EblAbsorptionModel(z)
        ctx.true("rejected", False, "accepted a negative redshift")
    except ValueError:
        ctx.true("rejected", True)


HARNESSES = [("knots", knots), ("zeros", zeros), ("outside", outside), ("between", between), ("powerlaw", powerlaw),
             ("reject", reject), ("ebl_table", ebl_table), ("ebl_outside", ebl_outside),
             ("ebl_between", ebl_between), ("ebl_reject", ebl_reject)]
