"""C37: tabulated pp cross sections belong to the model they are used for."""
import os
import tempfile

import numpy as np

from .c15 import MODELS, MP, dsigma
from .c31 import near
from .common import C, Patches, stubbed, trapz

BOUNDS = ("1-2 symbolic photon energies in 10 MeV..1 PeV, 10-point proton grids, arbitrary positive proton "
          "distribution; histories of up to three selections of hadronic model, enhancement and table; "
          "generated tables of 4x4 points, one symbolic photon energy scale")
ASSUMPTIONS = ["scipy's RectBivariateSpline is replaced by its contract while symbolic: the tabulated "
               "value at a node, an arbitrary positive function of the position and of the table elsewhere",
               "trapz_loglog is replaced by its contract (decided by C11) while encoding",
               "files written by numpy are kept in memory while symbolic"]
LIMITS = {"ties": False}
TABLE = "PionDecayKafexhiu14_LUT_NucEnh_Pythia8.npz"
REAL = {}


class Spline:
    """contract of RectBivariateSpline"""

    def __init__(self, ctx, x, y, z, bbox=None, kx=3, ky=3, s=0, **kw):
        self.ctx, self.o = ctx, (kx, ky, s)
        self.x, self.y, self.z = (np.asarray(v) for v in (x, y, z))
        if self.z.shape != (len(self.x), len(self.y)):
            raise ValueError("z should have shape (x.size, y.size)")
        self.small = self.z.size <= 64
        if self.small:
            self.id = "small"
        else:
            self.id = "%d:%.12g:%.12g" % (self.z.size, float(np.sum(self.z.astype(float))),
                                         float(self.z.flat[self.z.size // 3]))

    def node(self, g, q):
        from symx.sym import lift

        if not self.small:
            return None
        for i, v in enumerate(g):
            if near(lift(v) - lift(q)):
                return i
        return None

    def clip(self, g, q):
        lo, hi = g[0], g[-1]
        return lo if bool(q < lo) else hi if bool(q > hi) else q

    def one(self, x, y):
        i, j = self.node(self.x, x), self.node(self.y, y)
        if i is not None and j is not None:
            return self.z[i, j]
        if self.small:
            from symx.term import Unsupported

            raise Unsupported("between the nodes of a small table")
        x, y = self.clip(self.x, x), self.clip(self.y, y)
        return self.ctx.uf("lut:%s:%s" % (self.id, self.o), x, y, lo=1e-30, hi=1e-25, sign="+")

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        xs, ys = (np.asarray(v, dtype=object).reshape(-1) for v in (x, y))
        if not grid:
            xs, ys = np.broadcast_arrays(xs, ys)
            out = np.empty(len(xs), dtype=object)
            for i in range(len(xs)):
                out[i] = self.one(xs[i], ys[i])
            return out
        out = np.empty((len(xs), len(ys)), dtype=object)
        for i in range(len(xs)):
            for j in range(len(ys)):
                out[i, j] = self.one(xs[i], ys[j])
        return out

    def ev(self, x, y):
        return self(x, y, grid=False)


class Npz(dict):
    """contents of an npz file"""

    @property
    def f(self):
        class F:
            pass
        r = F()
        r.__dict__.update(self)
        return r

    @property
    def files(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Serial:
    """contract of multiprocessing.Pool.map"""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def map(self, f, it, *a):
        return [f(x) for x in it]

    def starmap(self, f, it, *a):
        return [f(*x) for x in it]

    def imap(self, f, it, *a):
        return iter(self.map(f, it))

    def close(self):
        pass

    join = terminate = close


def stubs(ctx, files=None):
    import multiprocessing

    import scipy.interpolate as I

    import naima.radiative as R

    if "spline" not in REAL:
        REAL.update(spline=I.RectBivariateSpline, load=np.load)
    if not ctx.sym:
        return Patches([])
    f = lambda *a, **k: Spline(ctx, *a, **k)
    items = [(I, "RectBivariateSpline", f)]
    if files is not None:
        norm = lambda n: os.path.abspath(n if str(n).endswith(".npz") else "%s.npz" % n)

        def save(name, **k):
            files[norm(name)] = Npz({a: np.array(b, copy=True) for a, b in k.items()})

        def load(name, *a, **k):
            return files[norm(name)] if norm(name) in files else REAL["load"](name, *a, **k)
        items += [(np, "savez_compressed", save), (np, "savez", save), (np, "load", load)]
        items += [(multiprocessing, "Pool", Serial)]
    for k, v in list(vars(R).items()):
        if v is REAL["spline"]:
            items.append((R, k, f))
        elif files is not None and getattr(v, "__name__", "") == "Pool":
            items.append((R, k, Serial))
    return Patches(items)


def packaged():
    from astropy.utils.data import get_pkg_data_filename

    return get_pkg_data_filename("data/" + TABLE, package="naima")


def table(ctx):
    """the interpolated packaged table, built independently of naima"""
    if "lut" not in REAL:
        with REAL["load"](packaged()) as f:
            REAL["lut"] = (np.array(f["X"]), np.array(f["Y"]), 10 ** np.array(f["lut"]))
    if ctx.sym:
        return Spline(ctx, *REAL["lut"], kx=3, ky=3, s=0)
    if "ref" not in REAL:
        REAL["ref"] = REAL["spline"](*REAL["lut"], kx=3, ky=3, s=0)
    return REAL["ref"]


def grid(lo, hi, n):
    a, b = np.log10(lo), np.log10(hi)
    return np.logspace(a, b, max(10, int(n * (b - a))))


def reference(ctx, d, E, nh, model, enh, lut, lo=2.0, hi=2e3, n=3):
    """documented integral; E in GeV"""
    Ep = grid(lo, hi, n)
    if lut and model == "Pythia8" and enh:
        S = table(ctx)
        lE = ctx.m.log(E) / np.log(10.0)
        # the grid of the table is in log10 of GeV
        sg = [np.asarray(S(np.log10(ep), lE)).reshape(-1)[0] for ep in Ep]
    else:
        sg = [dsigma(ctx.m, ep - MP, E, model, enh) for ep in Ep]
    y = [d(ctx.q(ep * 1e9, "eV")).value * 1e9 * s for ep, s in zip(Ep, sg)]
    return trapz(ctx, y, Ep) * nh * C.c / 1e9


def make(d, lo=2.0, hi=2e3, n=3, **k):
    import astropy.units as u

    from naima.models import PionDecay

    m = PionDecay(d, Epmin=lo * u.GeV, Epmax=hi * u.GeV, nEpd=n, **k)
    m._memoize = False
    return m


def flux(ctx, m, E, unit="GeV", f=1.0):
    return m.flux(ctx.q(ctx.arr([e * f for e in E]), unit), distance=0)


def lut(fn):
    @stubbed
    def h(ctx):
        with stubs(ctx):
            return fn(ctx)
    h.__name__ = fn.__name__
    return h


def check(ctx, label, got, d, E, nh, *sel, **k):
    r = [reference(ctx, d, e, nh, *sel, **k) for e in E]
    ctx.eqq(label, got, ctx.q(ctx.arr(r), "1/(s eV)"), rel=1e-6, unit="1/(s eV)")


@lut
def default(ctx):
    """by default the packaged table is used, at the energies asked for"""
    d = ctx.dist("n")
    E = [ctx.real("E0", 1e-2, 1e6)]
    if ctx.choice("n", [1, 2]) == 2:
        E.append(ctx.real("E1", 1e-2, 1e6))
    nh = ctx.real("nh", 1e-3, 1e3)
    un, f = ctx.choice("unit", [("GeV", 1.0), ("TeV", 1e-3), ("eV", 1e9)])
    rng = ctx.choice("range", [(2.0, 2e3, 3), (20.0, 9e6, 2)])
    m = make(d, *rng, nh=ctx.q(nh, "1/cm3"))
    got = flux(ctx, m, E, un, f)
    check(ctx, "flux", got, d, E, nh, "Pythia8", True, True, lo=rng[0], hi=rng[1], n=rng[2])


SEL = [("Pythia8", True, True), ("Pythia8", False, True), ("SIBYLL", True, True),
       ("Pythia8", True, False), ("Geant4", False, False)]


@lut
def history(ctx):
    """whatever was selected before, the cross section is the one selected now"""
    import warnings

    d = ctx.dist("n")
    E = [ctx.real("E", 2.1, 50.0)]
    a, b = ctx.choice("a", [None] + SEL), ctx.choice("b", SEL)
    m = make(d)
    for s in (a, b):
        if s is None:
            continue
        m.hiEmodel, m.nuclear_enhancement, m.useLUT = s
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = flux(ctx, m, E)
        missing = s[2] and s[:2] != ("Pythia8", True)
        if missing:
            ctx.true("warning", any("LUT" in str(x.message) for x in w) or len(w) > 0,
                     "a missing table goes unnoticed")
            ctx.true("reverted", m.useLUT is False)
    check(ctx, "flux", got, d, E, 1.0, *b)


@lut
def instances(ctx):
    """selections of one model do not affect another"""
    d = ctx.dist("n")
    E = [ctx.real("E", 2.1, 50.0)]
    m1, m2 = make(d), make(d, hiEmodel="QGSJET", useLUT=ctx.choice("lut", [True, False]))
    order = ctx.choice("order", [0, 1])
    for m in ((m1, m2), (m2, m1))[order]:
        flux(ctx, m, E)
    check(ctx, "first", flux(ctx, m1, E), d, E, 1.0, "Pythia8", True, True)
    check(ctx, "second", flux(ctx, m2, E), d, E, 1.0, "QGSJET", True, False)


def generated(model, nuc, how):
    """a generated table holds the cross section of its model at its nodes"""
    @stubbed
    def h(ctx):
        import contextlib
        import io

        import astropy.units as u

        files = {}
        with stubs(ctx, files), tempfile.TemporaryDirectory() as tmp:
            import naima.radiative as R

            k = ctx.real("k", 0.9, 1.1)
            Ep = np.array([2.0, 9.0, 60.0, 4e3])
            e = [0.05 * k, 0.3 * k, 0.7 * k, 1.4 * k]
            eg = ctx.q(ctx.arr([v * 1e-3 for v in e]), "TeV") if how else ctx.q(ctx.arr(e), "GeV")
            base = os.path.join(tmp, "T_")
            with contextlib.redirect_stdout(io.StringIO()):
                R.generate_lut_pp(Ep=(Ep * 1e-3 * u.TeV if how == 0 else Ep * u.GeV), Eg=eg,
                                  out_base=base, hiEmodel=model if how else [model],
                                  nuclear_enhancement=nuc)
            name = base + ("NucEnh_" if nuc else "") + model + ".npz"
            ctx.true("file", (os.path.abspath(name) in files) if ctx.sym else os.path.exists(name))
            t = R.LookupTable(name)
            ctx.true("fname", os.path.basename(t.fname) == os.path.basename(name))
            if ctx.sym:
                ev = lambda x, y: t(ctx.arr([x]), y).reshape(-1)[0]
            else:
                ev = lambda x, y: t(np.array([x]), y)[0]
            for i, ep in enumerate(Ep):
                for j, g in enumerate(e):
                    ref = dsigma(ctx.m, ep - MP, g, model, nuc)
                    # (the spline rounds, relative to the largest value of the table)
                    ctx.eq("node%d%d" % (i, j), ev(ep, g) + 1e-34, ref + 1e-34, rel=1e-6)
    h.__name__ = "generated"
    return h


def several(models, nuc):
    """tables generated together are each the table of their own model"""
    @stubbed
    def h(ctx):
        import contextlib
        import io

        files = {}
        with stubs(ctx, files), tempfile.TemporaryDirectory() as tmp:
            import naima.radiative as R

            k = ctx.real("k", 0.9, 1.1)
            Ep = np.array([30.0, 90.0, 600.0, 4e4])
            e = [0.05 * k, 0.3 * k, 1.4 * k, 20 * k]
            base = os.path.join(tmp, "T_")
            kw = {} if models is None else {"hiEmodel": list(models)}
            with contextlib.redirect_stdout(io.StringIO()):
                R.generate_lut_pp(Ep=ctx.q(Ep, "GeV"), Eg=ctx.q(ctx.arr(e), "GeV"),
                                  out_base=base, nuclear_enhancement=nuc, **kw)
            for mo in models or ["Geant4", "Pythia8", "SIBYLL", "QGSJET"]:
                name = base + ("NucEnh_" if nuc else "") + mo + ".npz"
                ctx.true("file_" + mo, (os.path.abspath(name) in files) if ctx.sym
                         else os.path.exists(name))
                t = R.LookupTable(name)
                for i, ep in enumerate(Ep):
                    for j, g in enumerate(e):
                        ref = dsigma(ctx.m, ep - MP, g, mo, nuc)
                        x = ctx.arr([ep]) if ctx.sym else np.array([ep])
                        got = np.asarray(t(x, g)).reshape(-1)[0]
                        ctx.eq("%s%d%d" % (mo, i, j), got + 1e-34, ref + 1e-34, rel=1e-6)
    h.__name__ = "several"
    return h


@stubbed
def interpolation(ctx):
    """tables are interpolated in the logarithms of both energies"""
    files = {}
    with stubs(ctx, files):
        from naima.radiative import LookupTable

        x, y = ctx.real("x", 1e-2, 1e9), ctx.real("y", 1e-5, 1e7)
        t = LookupTable(packaged())
        S = table(ctx)
        got = np.asarray(t(x, y)).reshape(-1)
        ctx.true("shape", len(got) == 1)
        l10 = np.log(10.0)
        ref = np.asarray(S(ctx.m.log(x) / l10, ctx.m.log(y) / l10)).reshape(-1)[0]
        ctx.eq("value", got[0], ref)


O = {"compare": False}
SEVERAL = [("two_models", several(("SIBYLL", "Geant4"), True), O),
           ("three_models", several(("QGSJET", "Pythia8", "SIBYLL"), False), O),
           ("all_models", several(None, True), O)]
HARNESSES = [("default", default, O), ("history", history, O), ("instances", instances, O),
             ("interpolation", interpolation, O)]
for i, mo in enumerate(MODELS):
    for nuc in (True, False):
        HARNESSES.append(("generated_%s_%s" % (mo, "enh" if nuc else "plain"),
                          generated(mo, nuc, (i + nuc) % 2), O))
HARNESSES += SEVERAL
