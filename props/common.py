"""Shared helpers of the property harnesses."""
import sys

import numpy as np


def patch_attr(obj, name, value):
    """context manager: temporarily replace an attribute"""
    class P:
        def __enter__(self):
            self.had = name in vars(obj)
            self.old = vars(obj).get(name)
            setattr(obj, name, value)

        def __exit__(self, *a):
            if self.had:
                setattr(obj, name, self.old)
            else:
                delattr(obj, name)
    return P()


# ------------------------------------------------------------ trapz contract
def trapz_contract(y, x, axis=-1, intervals=False):
    """Contract of utils.trapz_loglog (decided by C11): sum over intervals of
    the exact power-law integral, kept as x1*y1*G(x2/x1, y2/y1) with G an
    uninterpreted (congruent) function; an interval with a literal zero end
    contributes zero."""
    import astropy.units as u

    from symx.sym import Sym, lift

    y_unit = x_unit = 1.0
    if hasattr(y, "unit"):
        y_unit, y = y.unit, y.value
    if hasattr(x, "unit"):
        x_unit, x = x.unit, x.value
    y = np.asarray(y, dtype=object)
    x = np.asarray(x, dtype=object)
    if x.ndim == 1:
        shape = [1] * y.ndim
        shape[axis] = x.shape[0]
        x = x.reshape(shape)
    x = np.broadcast_to(x, y.shape)
    ym, xm = np.moveaxis(y, axis, 0), np.moveaxis(x, axis, 0)
    n = ym.shape[0]
    out = np.empty((n - 1,) + ym.shape[1:], dtype=object)
    for i in range(n - 1):
        for j in np.ndindex(ym.shape[1:]):
            out[(i,) + j] = contract_interval(xm[(i,) + j], xm[(i + 1,) + j],
                                              ym[(i,) + j], ym[(i + 1,) + j])
    if intervals:
        return np.moveaxis(out, 0, axis) * x_unit * y_unit
    r = np.add.reduce(out, 0)
    return r * x_unit * y_unit


def contract_interval(x1, x2, y1, y2):
    """x1*y1*G(x2/x1, y2/y1), G(r, q) = (r*q - 1)/(1 + ln q/ln r)"""
    from symx import term as T
    from symx.sym import Sym, lift

    x1, x2, y1, y2 = map(lift, (x1, x2, y1, y2))
    for s in (y1, y2):
        if s.sp is not None:
            return Sym.of(float("nan"))
        if s.t.is_zero():
            return Sym.of(0.0)
    r = x2.t * T.inv(x1.t)
    q = T.expand(y2.t) * T.inv(T.expand(y1.t)) if len(y1.t.m) > 1 or len(y2.t.m) > 1 \
        else y2.t * T.inv(y1.t)
    sg = "+" if T.sign_of(q) == "+" else "?"
    at = T.atom_for("fn", "tzG", (r, q), sg)
    return Sym(x1.t * y1.t * T.Term({((at.id, T.ONE_EXPO),): 1.0}))


class TrapzStub:
    """replace trapz_loglog by its contract in symbolic mode only"""

    def __init__(self, ctx):
        self.on = ctx.sym

    def __enter__(self):
        self.undo = []
        if not self.on:
            return self
        import naima.radiative
        import naima.utils

        orig = naima.utils.trapz_loglog
        for mn, mod in list(sys.modules.items()):
            if mn == "naima" or mn.startswith("naima."):
                for k, v in list(vars(mod).items()):
                    if v is orig:
                        self.undo.append((mod, k, v))
                        setattr(mod, k, trapz_contract)
        return self

    def __exit__(self, *a):
        for mod, k, v in self.undo:
            setattr(mod, k, v)


def contract(fn):
    """harness decorator: run with the trapz contract stub"""
    def h(ctx):
        with TrapzStub(ctx):
            return fn(ctx)
    h.__name__ = fn.__name__
    return h


def need(obj, name):
    """private attribute used by a harness; absence is not a violation"""
    from symx.term import Unsupported

    if not hasattr(obj, name):
        raise Unsupported("no attribute %s" % name)
    return getattr(obj, name)


# ------------------------------------------------------------ stubs
class Patches:
    """apply a list of (obj, name, value) attribute replacements"""

    def __init__(self, items):
        self.ps = [patch_attr(*i) for i in items]

    def __enter__(self):
        for p in self.ps:
            p.__enter__()
        return self

    def __exit__(self, *a):
        for p in reversed(self.ps):
            p.__exit__()


def quad_stub(f, a, b, args=(), *_, **k):
    """linear quadrature with fixed nodes standing for scipy.integrate.quad"""
    from symx.sym import lift

    if not isinstance(args, tuple):
        args = (args,)
    if isinstance(b, float) and b == float("inf"):
        nodes = [(a * 1.25, a * 0.75), (a * 2.5, a * 2.0)]
    else:
        w = b - a
        nodes = [(a + w * 0.125, w * 0.375), (a + w * 0.5, w * 0.625)]
    s = 0.0
    for x, w in nodes:
        v = f(x, *args)
        if isinstance(v, np.ndarray):
            v = v.reshape(-1)[0]
        s = s + w * v
    return s, 0.0


def QuadStub(ctx):
    import scipy.integrate

    if not ctx.sym:
        return Patches([])
    n = [0]

    def stub(f, a, b, *args, **k):
        s, _ = quad_stub(f, a, b, *args[:1], **k)
        eps = k.get("epsabs", args[2] if len(args) > 2 else 1.49e-8)
        if eps > 0:
            # quad may stop anywhere within the absolute error it was asked for
            n[0] += 1
            s = s + eps * ctx.real("quaderr%d" % n[0], -1, 1)
        return s, 0.0

    items = [(scipy.integrate, "quad", stub)]
    import naima.radiative as R

    if hasattr(R, "quad"):
        items.append((R, "quad", stub))
    return Patches(items)


def quad(ctx, f, a, b):
    """the quadrature used by specifications"""
    if ctx.sym:
        return quad_stub(f, a, b)[0]
    from scipy.integrate import quad as q

    return q(f, a, b, epsrel=1e-3, epsabs=0)[0]


def trapz_float(y, x):
    """exact integral of the piecewise power law through (x, y)"""
    import math

    s = 0.0
    for i in range(len(x) - 1):
        x1, x2, y1, y2 = (float(v) for v in (x[i], x[i + 1], y[i], y[i + 1]))
        if math.isnan(y1) or math.isnan(y2):
            return float("nan")
        if y1 == 0 or y2 == 0:
            continue
        q = y2 / y1
        if q < 0:
            # sign-changing integrands are outside the documented domain
            from symx.harness import Skip

            raise Skip()
        b = math.log(q) / math.log(x2 / x1)
        if abs(b + 1) < 1e-9:
            s += x1 * y1 * math.log(x2 / x1)
        else:
            s += x1 * y1 * ((x2 / x1) ** (b + 1) - 1) / (b + 1)
    return s


def trapz(ctx, y, x):
    """specification side of the log-log trapezoid rule (scalars, 1-d)"""
    if ctx.sym:
        r = 0.0
        for i in range(len(x) - 1):
            r = r + contract_interval(x[i], x[i + 1], y[i], y[i + 1])
        return r
    return trapz_float(y, x)


# ------------------------------------------------------------ constants (CGS)
class C:
    me = 9.1093837015e-28
    c = 2.99792458e10
    e = 4.803204712570263e-10
    hbar = 1.0545718176461565e-27
    alpha = 7.2973525693e-3
    sigma_sb = 5.670374419184429e-05
    eV = 1.602176634e-12
    mp_GeV = 0.9382720881604902
    mec2 = 9.1093837015e-28 * 2.99792458e10 ** 2          # erg
    mec2_eV = mec2 / 1.602176634e-12
    r0 = e ** 2 / mec2
    ar = 4 * sigma_sb / c                                   # erg/cm3/K4
    kpc = 3.0856775814671917e21


# ------------------------------------------------------------ emitters
# photon energy ranges (eV) over which the emitters are evaluated
EMIT = {
    "sy": (1e-2, 1e4), "ic": (1e6, 1e13), "ica": (1e6, 1e13), "icm": (1e6, 1e13),
    "icarr": (1e6, 1e13), "ic2": (1e6, 1e13), "br": (1e7, 1e12), "pp": (1e8, 1e13),
    "k06": (1e9, 1e14),
}
# narrower windows for the quick tier of relational checks
EMIT_Q = dict(EMIT, ic=(1e10, 1e12), ica=(1e10, 1e12), icm=(1e10, 1e12), icarr=(1e11, 1e12),
              ic2=(1e11, 1e12), br=(1e9, 3e10), pp=(1e9, 1e11))


def window(kind):
    import os

    return (EMIT if os.environ.get("VERIF_TIER") == "thorough" else EMIT_Q)[kind]


ELECTRON = ("sy", "ic", "ica", "icm", "icarr", "ic2", "br")
PROTON = ("pp", "k06")


def emitter(kind, dist, memo=False, **kw):
    """radiative model with a small concrete grid; kw overrides parameters"""
    import astropy.units as u

    import naima.radiative as R

    eg = dict(Eemin=1 * u.GeV, Eemax=100 * u.TeV, nEed=2)
    if kind == "sy":
        args = dict(eg, B=1e-4 * u.G)
        cls = R.Synchrotron
    elif kind in ("ic", "ica", "icm", "icarr", "ic2"):
        seeds = {
            "ic": [["a", 30 * u.K, 0.5 * u.eV / u.cm**3]],
            "ica": [["a", 30 * u.K, 0.5 * u.eV / u.cm**3, 120 * u.deg]],
            "icm": [["a", 0.01 * u.eV, 0.5 * u.eV / u.cm**3]],
            "icarr": [["a", [0.01, 0.1] * u.eV, [3.0, 2.0] / u.eV / u.cm**3]],
            "ic2": [["a", 30 * u.K, 0.5 * u.eV / u.cm**3],
                    ["b", 0.01 * u.eV, 0.5 * u.eV / u.cm**3]],
        }[kind]
        args = dict(eg, seed_photon_fields=seeds)
        cls = R.InverseCompton
    elif kind == "br":
        args = dict(eg, Eemin=2 * u.MeV, n0=2 / u.cm**3)
        cls = R.Bremsstrahlung
    elif kind == "pp":
        args = dict(Epmin=1.3 * u.GeV, Epmax=100 * u.TeV, nEpd=2, nh=2 / u.cm**3,
                    useLUT=False)
        cls = R.PionDecay
    elif kind == "k06":
        args = dict(nh=2 / u.cm**3)
        cls = R.PionDecayKelner06
    args.update(kw)
    m = cls(dist, **args)
    if hasattr(m, "_memoize"):
        m._memoize = memo
    return m


class Stubs:
    """quadrature + log-log trapezoid stubs together"""

    def __init__(self, ctx, tz=True):
        self.l = ([TrapzStub(ctx)] if tz else []) + [QuadStub(ctx)]

    def __enter__(self):
        for x in self.l:
            x.__enter__()

    def __exit__(self, *a):
        for x in self.l:
            x.__exit__(*a)


def stubbed(fn):
    def h(ctx):
        with Stubs(ctx):
            return fn(ctx)
    h.__name__ = fn.__name__
    return h


class InUnits:
    """the same particle distribution, returned in another unit"""

    def __init__(self, dist, unit):
        self.dist, self.out = dist, unit

    def __call__(self, E):
        return self.dist(E).to(self.out)
