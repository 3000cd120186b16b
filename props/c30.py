"""C30: Sherpa wrappers compute the spectra of the radiative models."""
import numpy as np

from . import fit
from .common import C, Patches, TrapzStub, trapz

BOUNDS = ("1-3 bins or energies in keV and all model parameters symbolic; every wrapper, power law and "
          "cutoff, every combination of additional seed photon fields")
ASSUMPTIONS = ["the radiative models' spectra are an arbitrary function of photon energy and of all "
               "their parameters (their values: C05-C15)", "trapz_loglog obeys its contract (C11)",
               "Sherpa's own evaluation cache is off while symbolic"]
LIMITS = {"seconds": 80}
NAMES = {"ic": "InverseCompton", "sy": "Synchrotron", "br": "Bremsstrahlung", "pp": "PionDecay"}
ELECTRON_MAX = {"ic": 100.0}


class Spectra:
    """every radiative model's spectrum is one arbitrary function of its state"""

    def __init__(self, ctx):
        import naima.radiative as R

        self.ctx = ctx
        self.p = Patches([(getattr(R, n), "_spectrum", self.stub(n)) for n in NAMES.values()])

    def stub(self, name):
        import astropy.units as u

        def spectrum(model, photon_energy):
            c = self.ctx
            e = np.atleast_1d(photon_energy.to_value("keV"))
            key, st = name, []
            d = model.particle_distribution
            for x in (0.2, 3.0, 40.0):
                v = d(x * u.TeV).to_value("1/eV")
                st.append(v[()] if isinstance(v, np.ndarray) and v.ndim == 0 else v)
            for n in sorted(model.param_names):
                v = getattr(model, n)
                if n == "seed_photon_fields":
                    for s in v:
                        key += "_" + s + str(v[s]["isotropic"])
                        st += [fit.scalar(v[s]["T"].to("K")), fit.scalar(v[s]["u"].to("eV/cm3"))]
                elif isinstance(v, (str, bool)):
                    key += "_" + str(v)
                else:
                    st.append(fit.scalar(v.si if hasattr(v, "unit") else v))
            out = np.empty(e.shape, dtype=object if c.sym else float)
            for i in range(e.size):
                out[i] = c.uf(key, e[i], *st, lo=1e-3, hi=1e3, sign="+")
            return u.Quantity(out, "1/(s eV)")
        return spectrum

    def __enter__(self):
        self.t = TrapzStub(self.ctx)
        self.t.__enter__()
        self.p.__enter__()
        import sherpa.models.parameter as P

        num = P.SherpaFloat
        self.f = Patches([(P, "SherpaFloat", lambda v: number(num, v))] if self.ctx.sym else [])
        self.f.__enter__()

    def __exit__(self, *a):
        self.f.__exit__(*a)
        self.p.__exit__(*a)
        self.t.__exit__(*a)


def number(num, v):
    """parameters may hold symbolic values"""
    from symx.sym import Sym

    v = fit.scalar(v)
    return v if isinstance(v, Sym) else num(v)


def with_spectra(fn):
    def h(ctx):
        with Spectra(ctx):
            return fn(ctx)
    h.__name__ = fn.__name__
    return h


def params(ctx, kind, cut=None, extra=None):
    """parameter values by name"""
    p = {"index": ctx.real("index", 0.5, 4), "ref": ctx.real("ref", 1, 50),
         "ampl": ctx.real("ampl", 0.1, 100), "beta": ctx.real("beta", 0.5, 2) if not cut or ctx.bool("beta_given") else 0.0,
         "distance": ctx.real("distance", 0.1, 10), "verbose": 0}
    p["cutoff"] = ctx.real("cutoff", 1, 100) if cut else 0.0
    if kind == "ic":
        for n, lo, hi in (("FIR", 10, 100), ("NIR", 1000, 5000)):
            p["T" + n] = ctx.real("T" + n, lo, hi)
            p["u" + n] = ctx.real("u" + n, 0.1, 2) if n in (extra or ()) else 0.0
    elif kind == "sy":
        p["B"] = ctx.real("B", 1e-6, 1)
    elif kind == "br":
        for n in ("n0", "weight_ee", "weight_ep"):
            p[n] = ctx.real(n, 0.1, 5)
        zero = ctx.choice("zero", [None, "weight_ee", "weight_ep"])
        if zero:
            p[zero] = 0.0
    else:
        p["nH"] = ctx.real("nH", 0.1, 5)
    return p


def wrapper(kind, ctx):
    import naima.sherpa_models as S

    m = getattr(S, NAMES[kind])("m")
    if ctx.sym:
        m.cache = 0
    return m


def vector(m, p):
    """values in the order of the wrapper's own parameter list"""
    by = {k.lower(): v for k, v in p.items()}
    return [by[x.name.lower()] for x in m.pars]


def expected(ctx, kind, p, e):
    """photon flux (1/(s cm2 keV)) at energies e (keV) of the naima model"""
    import astropy.units as u

    import naima.models as M

    amp, ref = ctx.q(p["ampl"] * 1e30, "1/eV"), ctx.q(p["ref"], "TeV")
    if isinstance(p["cutoff"], float) and p["cutoff"] == 0:
        d = M.PowerLaw(amp, ref, p["index"])
    else:
        d = M.ExponentialCutoffPowerLaw(amp, ref, p["index"], ctx.q(p["cutoff"], "TeV"), p["beta"])
    if kind == "ic":
        seeds = ["CMB"]
        for n in ("FIR", "NIR"):
            v = p["u" + n]
            if not (isinstance(v, float) and v == 0):
                seeds.append([n, ctx.q(p["T" + n], "K"), ctx.q(v, "eV/cm3")])
        m = M.InverseCompton(d, seed_photon_fields=seeds, Eemin=1 * u.GeV, Eemax=100 * u.TeV)
        m.nEed = getattr(m, "nEed")
    elif kind == "sy":
        m = M.Synchrotron(d, B=ctx.q(p["B"], "G"))
    elif kind == "br":
        m = M.Bremsstrahlung(d, n0=ctx.q(p["n0"], "cm-3"), weight_ee=p["weight_ee"],
                             weight_ep=p["weight_ep"])
    else:
        m = M.PionDecay(d, nh=ctx.q(p["nH"], "cm-3"))
    s = m._spectrum(ctx.q(ctx.arr(e), "keV")).to_value("1/(s keV)")
    d2 = (p["distance"] * C.kpc) * (p["distance"] * C.kpc)
    return [x / (4 * np.pi * d2) for x in s]


def grid(ctx, n):
    lo = ctx.choice("lo", [1e-3, 1.0, 1e8])
    e = [ctx.real("e0", lo, 2 * lo)]
    for i, g in enumerate(ctx.reals("de", n, lo, 10 * lo)):
        e.append(e[-1] + g)
    return e


def same(ctx, label, got, want):
    got = np.asarray(got, dtype=object).reshape(-1)
    ctx.true(label + ":size", len(got) == len(want), "%d values" % len(got))
    for a, b in zip(got, want):
        ctx.eq(label, fit.scalar(a), b)


def calc(kind):
    """photons per bin, and E dN/dE on unbinned grids"""
    @with_spectra
    def h(ctx):
        cut = ctx.bool("cut")
        extra = ctx.choice("seeds", [(), ("FIR",), ("NIR",), ("FIR", "NIR")]) if kind == "ic" else ()
        p = params(ctx, kind, cut, extra)
        if ctx.bool("zero_verbose"):
            p["verbose"] = 1
        n = ctx.choice("n", [1, 2, 3])
        e = grid(ctx, n)
        m = wrapper(kind, ctx)
        f = expected(ctx, kind, p, e)
        with fit.quiet():
            xlo, xhi = ctx.arr(e[:-1]), ctx.arr(e[1:])
            keep = xlo.copy(), xhi.copy()
            y = m.calc(vector(m, p), xlo, xhi) if ctx.bool("pos") else \
                m.calc(vector(m, p), xlo, xhi=xhi)
            m = wrapper(kind, ctx)      # Sherpa's cache does not tell one bin from two points
            z = m.calc(vector(m, p), ctx.arr(e))
        same(ctx, "photons", y, [trapz(ctx, f[i:i + 2], e[i:i + 2]) for i in range(n)])
        same(ctx, "points", z, [a * b for a, b in zip(f, e)])
        for a, b in zip((xlo, xhi), keep):
            ctx.eq("input", a, b)
    h.__name__ = "calc_" + kind
    return h


@with_spectra
def defaults(ctx):
    """a new wrapper has the documented parameters, which can be changed at any time"""
    kind = ctx.choice("kind", ["sy", "ic", "br", "pp"])
    m = wrapper(kind, ctx)
    v = dict(index=2.1, ref=60.0, ampl=100.0, cutoff=0.0, beta=1.0, distance=1.0, verbose=0.0)
    v.update({"ic": dict(TFIR=30.0, uFIR=0.0, TNIR=3000.0, uNIR=0.0), "sy": dict(B=1.0),
              "br": dict(n0=1.0, weight_ee=1.088, weight_ep=1.263), "pp": dict(nH=1.0)}[kind])
    got = {x.name: x.val for x in m.pars}
    ctx.true("names", set(got) == set(v), "%s" % sorted(got))
    ctx.true("defaults", got == v, "%s" % got)
    thawed = {x.name for x in m.pars if not x.frozen}
    ctx.true("thawed", thawed == {"index", "ampl"}, "%s" % thawed)
    e = grid(ctx, 1)
    xlo, xhi = ctx.arr(e[:1]), ctx.arr(e[1:])
    same(ctx, "default", m(xlo, xhi), [trapz(ctx, expected(ctx, kind, v, e), e)])
    m.index, m.cutoff, m.distance = (ctx.real("i", 0.5, 4), ctx.real("c", 1, 100),
                                     ctx.real("d", 0.1, 10))
    v.update(index=m.index.val, cutoff=m.cutoff.val, distance=m.distance.val)
    same(ctx, "changed", m(xlo, xhi), [trapz(ctx, expected(ctx, kind, v, e), e)])
    m.cutoff = 0.0
    v["cutoff"] = 0.0
    same(ctx, "back", m(xlo, xhi), [trapz(ctx, expected(ctx, kind, v, e), e)])


@with_spectra
def guess(ctx):
    """the amplitude is scaled by the ratio of data to model integrals"""
    kind = ctx.choice("kind", ["sy", "ic"])
    m = wrapper(kind, ctx)
    e = grid(ctx, 2)
    binned = ctx.bool("binned")
    n = 2 if binned else 3
    dep = ctx.vec("dep", n, 0.1, 10)
    v = {x.name: x.val for x in m.pars}
    f = expected(ctx, kind, v, e)
    if binned:
        mod = [trapz(ctx, f[i:i + 2], e[i:i + 2]) for i in range(2)]
        args = (ctx.arr(e[:-1]), ctx.arr(e[1:]))
    else:
        mod = [a * b for a, b in zip(f, e)]
        args = (ctx.arr(e),)
    want = 100.0 * trapz(ctx, list(dep), e[:n]) / trapz(ctx, mod, e[:n])
    if ctx.sym:                 # parameter limits are Sherpa's
        m.ampl._min, m.ampl._max = -np.inf, np.inf
    with fit.quiet():
        m.guess(dep, *args)
    ctx.eq("ampl", fit.scalar(m.ampl.val), want)


HARNESSES = [("calc_" + k, calc(k)) for k in NAMES] + [("defaults", defaults), ("guess", guess)]
