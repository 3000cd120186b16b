"""C33: parameters that cannot be right are refused."""
import numpy as np

from . import fit
from .common import Patches, emitter

BOUNDS = ("every dimensioned parameter of every model and constructor with symbolic values of either "
          "sign in 2-3 right and 2-4 wrong units; validators for every domain with symbolic bounds")
ASSUMPTIONS = ["types and units are enumerated, values are symbolic"]
LIMITS = {"seconds": 60}


def refused(ctx, label, fn, types=(TypeError, ValueError)):
    import astropy.units as u

    try:
        with fit.quiet():
            r = fn()
    except types + (u.UnitsError,):
        ctx.true(label, True)
        return
    ctx.true(label, False, "accepted")


# ------------------------------------------------------------ validators
def domains(ctx):
    """a value is accepted exactly if it lies in the domain"""
    from naima.extern.validator import validate_scalar

    unit = ctx.choice("unit", [None, "TeV", "K"])
    dom = ctx.choice("domain", [None, "positive", "strictly-positive", "negative", "strictly-negative",
                                "list", "tuple"])
    case = ctx.choice("case", ["free", "zero", "lo", "hi"])
    lo = ctx.real("lo", -2, 0.5)
    hi = lo + ctx.real("width", 0.5, 2)
    x = {"free": lambda: ctx.real("x", -5, 5), "zero": lambda: ctx.const(0.0), "lo": lambda: lo,
         "hi": lambda: hi}[case]()
    wrap = (lambda v: v) if unit is None else (lambda v: ctx.q(v, unit))
    if unit is not None and dom in ("positive", "strictly-positive", "negative", "strictly-negative"):
        wrap = (lambda v: ctx.q(v, ""))
        unit = ""
    d = {"list": [wrap(lo), wrap(hi)], "tuple": (wrap(lo), wrap(hi))}.get(dom, dom)
    ok = {None: lambda: True, "positive": lambda: bool(x >= 0), "strictly-positive": lambda: bool(x > 0),
          "negative": lambda: bool(x <= 0), "strictly-negative": lambda: bool(x < 0)}.get(
              dom, lambda: bool(x >= lo) and bool(x <= hi))()
    pt = {None: None, "TeV": "energy", "K": "temperature", "": "dimensionless"}[unit]
    try:
        r = validate_scalar("x", wrap(x), domain=d, physical_type=pt)
        got = True
    except ValueError:
        got = False
    ctx.true("decision", got == ok, "accepted %s, in the domain %s" % (got, ok))
    if got:
        ctx.eqq("value", r, wrap(x)) if unit is not None else ctx.eq("value", r, x)


def numbers(ctx):
    """a plain parameter is one real number"""
    from naima.extern.validator import validate_scalar

    v = ctx.real("v", 0.1, 10)
    bad = ctx.choice("bad", ["complex", "array", "one", "list", "text", "nothing", "matrix"])
    x = {"complex": lambda: 1 + 2j, "array": lambda: ctx.arr([v, v]), "one": lambda: ctx.arr([v]),
         "list": lambda: [v], "text": lambda: "0.9", "nothing": lambda: None,
         "matrix": lambda: np.ones((1, 1))}[bad]()
    dom = ctx.choice("domain", [None, "positive", (0.0, 20.0)])
    if dom is not None and bad == "complex":
        return
    refused(ctx, bad, lambda: validate_scalar("x", x, domain=dom))


def arrays(ctx):
    """arrays have the requested dimensions, shape and units and keep their values"""
    from naima.extern.validator import validate_array

    n = ctx.choice("n", [1, 2, 3])
    v = ctx.reals("v", n, -5, 5)
    unit = ctx.choice("unit", [None, "TeV"])
    a = ctx.arr(v) if unit is None else ctx.q(ctx.arr(v), unit)
    form = ctx.choice("form", ["array", "2d", "scalar"] + (["list", "tuple"] if unit is None else []))
    x = {"array": lambda: a, "2d": lambda: a.reshape((1, n)), "scalar": lambda: a[0],
         "list": lambda: list(v), "tuple": lambda: tuple(v)}[form]()
    nd = ctx.choice("ndim", [1, 2])
    shape = ctx.choice("shape", [None, (1,), (2,), (1, 2)])
    pt = ctx.choice("type", [None, "energy", ["energy", "length"], "length"])
    have = {"array": (n,), "2d": (1, n), "scalar": (), "list": (n,), "tuple": (n,)}[form]
    ok = len(have) == nd and (shape is None or shape == have) and \
        (pt is None or (unit is not None and "energy" in pt))
    try:
        r = validate_array("x", x, ndim=nd, shape=shape, physical_type=pt)
        got = True
    except (TypeError, ValueError):
        got = False
    ctx.true("decision", got == ok, "accepted %s instead of %s" % (got, ok))
    if got:
        ctx.true("shape", np.shape(r) == have)
        w = r.value if unit is not None else r
        ctx.eq("value", np.asarray(w, dtype=object).reshape(-1), ctx.arr(v))


# ------------------------------------------------------------ particle distributions
DISTS = {"PowerLaw": ("e_0",), "ExponentialCutoffPowerLaw": ("e_0", "e_cutoff"),
         "BrokenPowerLaw": ("e_0", "e_break"),
         "ExponentialCutoffBrokenPowerLaw": ("e_0", "e_break", "e_cutoff"),
         "LogParabola": ("e_0",)}
PLAIN = {"PowerLaw": ("alpha",), "ExponentialCutoffPowerLaw": ("alpha", "beta"),
         "BrokenPowerLaw": ("alpha_1", "alpha_2"),
         "ExponentialCutoffBrokenPowerLaw": ("alpha_1", "alpha_2", "beta"),
         "LogParabola": ("alpha", "beta")}


def dist_args(ctx, name):
    import astropy.units as u

    a = {n: 2.0 for n in PLAIN[name]}
    a.update({n: 3.0 * u.TeV for n in DISTS[name]})
    a["amplitude"] = 1e30 / u.eV
    return a


def dists(ctx):
    """energies of particle distributions are energies and not negative"""
    import astropy.units as u

    import naima.models as M

    name = ctx.choice("model", list(DISTS))
    par = ctx.choice("parameter", list(DISTS[name]))
    cls = getattr(M, name)
    good = dist_args(ctx, name)
    bad = ctx.choice("bad", ["plain", "cm", "1/eV", "Hz", "TeV", "erg", "none"])
    v = ctx.real("v", 0.1, 10)
    if bad == "none":
        unit = ctx.choice("unit", ["TeV", "keV", "J"])
        m = cls(**dict(good, **{par: ctx.q(v, unit)}))
        ctx.eqq("kept", getattr(m, par), ctx.q(v, unit))
        return
    if bad in ("TeV", "erg"):
        x = ctx.q(-v, bad)
    else:
        x = v if bad == "plain" else ctx.q(v, bad)
    refused(ctx, "%s" % bad, lambda: cls(**dict(good, **{par: x})))


def energies(ctx):
    """distributions and radiative models are evaluated at energies only"""
    import naima.models as M

    bad = ctx.choice("bad", ["plain", "cm", "K", "Hz", "array", "table"])
    v = ctx.real("v", 0.1, 10)
    x = {"plain": lambda: v, "array": lambda: ctx.arr([v, v]),
         "table": lambda: {"energy": ctx.q(ctx.arr([v]), "cm"), "flux": ctx.q(ctx.arr([v]), "1/(cm2 s TeV)")}
         }.get(bad, lambda: ctx.q(v, bad))()
    what = ctx.choice("what", list(DISTS) + ["sy", "pp", "br", "ic"])
    if what in DISTS:
        m = getattr(M, what)(**dist_args(ctx, what))
        refused(ctx, "energy", lambda: m(x), (TypeError, ValueError, AttributeError))
    else:
        m = emitter(what, M.PowerLaw(**dist_args(ctx, "PowerLaw")))
        refused(ctx, "flux", lambda: m.flux(x), (TypeError, ValueError, AttributeError))
        refused(ctx, "sed", lambda: m.sed(x), (TypeError, ValueError, AttributeError))


# ------------------------------------------------------------ radiative models
def seed(T, u, *a):
    return [["s", T, u] + list(a)]


# (model, parameter, right units, wrong units, must not be negative)
PARS = [("sy", "B", ["G", "T", "uG"], ["erg", "plain", "1/cm3"], False),
        ("br", None, [], [], False),
        ("pp", "nh", ["1/cm3", "1/m3"], ["cm", "plain", "erg/cm3", "1/cm2"], False),
        ("k06", "nh", ["1/cm3", "1/m3"], ["cm", "plain", "erg/cm3"], False),
        ("k06", "Etrans", ["TeV", "erg"], ["K", "plain", "Hz"], True),
        ("ic", "seed T", ["K", "mK"], ["plain", "G", "cm"], True),
        ("ic", "seed u", ["eV/cm3", "erg/m3", "Pa"], ["eV", "1/cm3", "K"], True),
        ("ic", "seed angle", ["deg", "rad"], ["eV", "plain", "cm"], False),
        ("ic", "seed E", ["eV", "erg"], ["plain", "cm"], False),
        ("ic", "seed n", ["eV/cm3", "erg/m3"], ["eV", "1/cm3"], True)]


def build(ctx, kind, par, x):
    import astropy.units as u

    import naima.models as M
    import naima.radiative as R

    d = M.PowerLaw(**dist_args(ctx, "PowerLaw"))
    if kind == "sy":
        return R.Synchrotron(d, B=x).B
    if kind in ("pp", "k06"):
        cls = R.PionDecay if kind == "pp" else R.PionDecayKelner06
        return getattr(cls(d, **{par: x}), par)
    T, dens = 30 * u.K, 1 * u.eV / u.cm**3
    sd = {"seed T": lambda: [["s", x, dens]], "seed u": lambda: [["s", T, x]],
          "seed angle": lambda: [["s", T, dens, x]], "seed E": lambda: [["s", x, dens]],
          "seed n": lambda: [["s", 1 * u.eV, x]]}[par]()
    s = R.InverseCompton(d, seed_photon_fields=sd).seed_photon_fields["s"]
    return {"seed T": lambda: s["T"], "seed u": lambda: s["u"], "seed angle": lambda: s["theta"],
            "seed E": lambda: s["energy"][0], "seed n": lambda: s["photon_density"][0]}[par]()


def radiative(ctx):
    kind, par, right, wrong, sign = ctx.choice("parameter", [p for p in PARS if p[1]])
    v = ctx.real("v", 0.1, 10)
    cases = [("ok", un) for un in right] + [("bad", un) for un in wrong] + \
        ([("negative", un) for un in right[:2]] if sign else [])
    case, un = ctx.choice("case", cases)
    if case == "ok":
        x = ctx.q(v, un)
        with fit.quiet():
            ctx.eqq("kept", build(ctx, kind, par, x), x)
    else:
        x = v if un == "plain" else ctx.q(-v if case == "negative" else v, un)
        refused(ctx, "%s %s" % (kind, par), lambda: build(ctx, kind, par, x),
                (TypeError, ValueError, AttributeError))


def seeds(ctx):
    """malformed seed photon fields are refused, arrays need one density per energy"""
    import astropy.units as u

    import naima.models as M
    import naima.radiative as R

    d = M.PowerLaw(**dist_args(ctx, "PowerLaw"))
    v = ctx.real("v", 0.1, 10)
    e2 = ctx.q(ctx.arr([v, 2 * v]), "eV")
    bad = {
        "name": "XYZ", "list name": ["CMB", "XYZ"], "short": [["a", 30 * u.K]],
        "long": [["a", 30 * u.K, 1 * u.eV / u.cm**3, 1 * u.rad, 3]],
        "tuple": [("a", 30 * u.K, 1 * u.eV / u.cm**3)], "number": [3],
        "unit of array": [["a", e2, ctx.q(ctx.arr([v, v]), "1/cm3")]],
    }
    which = ctx.choice("seed", list(bad))
    refused(ctx, which, lambda: R.InverseCompton(d, seed_photon_fields=bad[which]),
            (TypeError, ValueError, AttributeError, KeyError))


def distance(ctx):
    """fluxes are computed for distances that are lengths"""
    import naima.models as M

    d = M.PowerLaw(**dist_args(ctx, "PowerLaw"))
    kind = ctx.choice("kind", ["sy", "pp", "br", "ic"])
    m = emitter(kind, d)
    v = ctx.real("v", 0.1, 10)
    un = ctx.choice("unit", ["TeV", "s", "plain", "cm2"])
    x = v if un == "plain" else ctx.q(v, un)
    e = ctx.q(1.0, "GeV")
    with Patches([(type(m), "_spectrum", lambda s, ene: np.ones(np.shape(ene)) * ctx.q(1.0, "1/(s eV)"))]):
        refused(ctx, "flux", lambda: m.flux(e, distance=x), (TypeError, ValueError, AttributeError))
        refused(ctx, "sed", lambda: m.sed(e, distance=x), (TypeError, ValueError, AttributeError))


def particles(ctx):
    """the particle distribution has to return particles per energy"""
    import naima.models as M
    import naima.radiative as R

    v = ctx.real("v", 0.1, 10)
    un = ctx.choice("unit", ["1/eV", "1/TeV", "1/(erg)", "TeV", "1/(TeV cm2 s)", "", "1/cm3"])
    good = un in ("1/eV", "1/TeV", "1/(erg)")
    kind = ctx.choice("kind", [R.Synchrotron, R.InverseCompton, R.Bremsstrahlung, R.PionDecay])
    if ctx.bool("function"):
        fn = lambda e: ctx.q(ctx.arr([v] * np.size(e)), un)
    else:
        fn = M.PowerLaw(ctx.q(v, un), ctx.q(1.0, "TeV"), 2.0)
    if good:
        m = kind(fn)
        ctx.true("kept", m.particle_distribution is fn)
    else:
        refused(ctx, un, lambda: kind(fn))


HARNESSES = [("domains", domains), ("numbers", numbers), ("arrays", arrays), ("dists", dists), ("energies", energies), ("radiative", radiative), ("seeds", seeds),
             ("distance", distance), ("particles", particles)]
