"""C02: results do not depend on how energies, parameters and distributions are
represented (units, scalar/array/dict/table, order, companions)."""
import numpy as np

from .common import EMIT, InUnits, emitter, stubbed, window

BOUNDS = ("photon energy symbolic over the emission range of each process (1-2 energies; up to 7 "
          "fixed energies in any order), "
          "particle distribution an arbitrary positive function (uninterpreted), 10-point "
          "particle grids; parameters symbolic over decades in each unit")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) and "
               "scipy.integrate.quad by a fixed linear quadrature while encoding"]

EV = {"eV": 1.0, "GeV": 1e9, "TeV": 1e12, "MeV": 1e6, "erg": 1 / 1.602176634e-12,
      "J": 1 / 1.602176634e-19}
REL = {"k06": 5e-3}


def fl(ctx, m, E, which):
    import astropy.units as u

    if which == "flux":
        return m.flux(E, distance=0)
    if which == "sed":
        return m.sed(E, distance=0)
    if which == "flux_d":
        return m.flux(E, distance=3 * u.kpc)
    return m.sed(E, distance=3 * u.kpc)


def energies(kind, heavy):
    """representation of the photon energies"""
    @stubbed
    def h(ctx):
        import astropy.units as u
        from astropy.table import QTable

        lo, hi = window(kind)
        # a decade of ratio keeps the two energies on different kernel branches
        E = ctx.real("E", lo, hi / 10)
        m = emitter(kind, ctx.dist("n"))
        rep = ctx.choice("rep", ["unit", "scalar", "dict", "table", "two", "list"])
        which = ctx.choice("which", ["flux", "sed_d"] if heavy and rep != "scalar" else
                           ["flux", "sed", "flux_d", "sed_d"])
        ref = fl(ctx, m, ctx.q(ctx.arr([E]), "eV"), which)
        r = REL.get(kind)
        if rep == "unit":
            un = ctx.choice("u", ["TeV", "erg"] if heavy else ["TeV", "MeV", "erg", "J"])
            got = fl(ctx, m, ctx.q(ctx.arr([E / EV[un]]), un), which)
        elif rep == "scalar":
            un = ctx.choice("u", ["eV", "TeV"])
            got = fl(ctx, m, ctx.q(E / EV[un], un), which)
            ctx.true("scalar", got.shape == ())
            got = got.reshape(1)
        elif rep == "dict":
            got = fl(ctx, m, {"energy": ctx.q(ctx.arr([E / EV["GeV"]]), "GeV"),
                              "flux": [1.0]}, which)
        elif rep == "table":
            if ctx.sym:
                t = {"energy": ctx.q(ctx.arr([E / EV["TeV"]]), "TeV")}
            else:
                t = QTable()
                t["energy"] = ctx.q(ctx.arr([E / EV["TeV"]]), "TeV")
            got = fl(ctx, m, t, which)
        elif rep == "list":
            got = fl(ctx, m, u.Quantity([ctx.q(E, "eV")]), which)
        else:
            E2 = E * 7.0
            if kind == "k06" and E < 1e11 and E2 >= 1e11:
                # documented: below Etrans the delta-functional spectrum is
                # matched to the full one when both are requested
                return
            both = fl(ctx, m, ctx.q(ctx.arr([E2 / 1e9, E / 1e9]), "GeV"), which)
            ctx.true("len", both.shape == (2,))
            got = both[1:]
            other = fl(ctx, m, ctx.q(ctx.arr([E2]), "eV"), which)
            ctx.eqq("companion", both[:1], other, rel=r)
        ctx.true("unit", got.unit == ref.unit)
        ctx.eqq("rep", got, ref, rel=r)

    return h


def many(kind):
    """longer arrays in any order, with repeated energies, against one energy at a time"""
    @stubbed
    def h(ctx):
        lo, hi = EMIT[kind]
        if kind == "k06":
            lo = 2e11       # below, spectra of one call are matched to each other
        m = emitter(kind, ctx.dist("n"))
        x = ctx.choice("x", [[0.5, 0.1, 0.9], [0.9, 0.5, 0.3, 0.1, 0.0], [0.0, 0.2, 0.4, 0.6, 0.8, 1.0],
                             [0.3, 0.7, 0.3, 0.1, 0.7, 0.7], [0.6, 0.2, 0.99, 0.4, 0.8, 0.1, 0.3]])
        E = lo * (hi / lo) ** np.array(x)
        which = ctx.choice("which", ["flux", "sed_d"])
        q = ctx.q(E / 1e9, "GeV")
        got = fl(ctx, m, {"energy": q} if ctx.bool("dict") else q, which)
        ctx.true("shape", got.shape == (len(x),))
        for i, e in enumerate(E):
            ctx.eqq("energy", got[i], fl(ctx, m, ctx.q(e, "eV"), which), rel=REL.get(kind, 1e-7))

    return h


def no_mutation(ctx):
    """the arrays given by the user come back untouched"""
    kind = ctx.choice("kind", ["sy", "icm", "pp", "k06", "icarr"])
    from .common import Stubs

    with Stubs(ctx):
        lo, hi = window(kind)
        E = ctx.real("E", lo, hi / 10)
        m = emitter(kind, ctx.dist("n"))
        un = ctx.choice("u", ["eV", "GeV"])
        arr = ctx.arr([E / EV[un], 3.0 * E / EV[un]])
        q = ctx.q(arr, un)
        which = ctx.choice("which", ["flux", "sed_d"])
        fl(ctx, m, q, which)
        ctx.true("unit", q.unit == __import__("astropy.units").units.Unit(un))
        ctx.eq("energies", q.value, ctx.arr([E / EV[un], 3.0 * E / EV[un]]))


def dist_units(kind):
    """the particle distribution may return any differential-energy unit"""
    @stubbed
    def h(ctx):
        lo, hi = window(kind)
        E = ctx.real("E", lo, hi)
        d = ctx.dist("n")
        ref = emitter(kind, d).flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
        un = ctx.choice("dunit", ["1/TeV", "1/erg", "1/GeV"])
        got = emitter(kind, InUnits(d, un)).flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
        ctx.true("unit", got.unit == ref.unit)
        ctx.eqq("flux", got, ref, rel=REL.get(kind))
        if kind in ("k06",):
            return
        if kind == "pp":
            a, b = emitter(kind, d), emitter(kind, InUnits(d, un))
            ctx.eqq("Wp", b.Wp, a.Wp)
            ctx.true("Wp unit", a.Wp.unit.is_equivalent("erg"))
        else:
            a, b = emitter(kind, d), emitter(kind, InUnits(d, un))
            ctx.eqq("We", b.We, a.We)

    return h


PAR = {
    # kind -> [(parameter, base unit, lo, hi, other units)]
    "sy": [("B", "G", 1e-6, 1.0, ["T", "mG", "uT"])],
    "br": [("n0", "1/cm3", 1e-3, 1e3, ["1/m3", "1/pc3"])],
    "pp": [("nh", "1/cm3", 1e-3, 1e3, ["1/m3"])],
    "k06": [("nh", "1/cm3", 1e-3, 1e3, ["1/m3"]), ("Etrans", "TeV", 0.05, 0.2, ["GeV", "erg"])],
}


def params(kind):
    @stubbed
    def h(ctx):
        import astropy.units as u

        lo, hi = window(kind)
        d = ctx.dist("n")
        n, un, a, b, others = PAR[kind][ctx.choice("par", list(range(len(PAR[kind]))))]
        x = ctx.real("p", a, b)
        other = ctx.choice("other", others)
        k = u.Unit(un).to(other)
        E = ctx.real("E", lo, hi) if n != "Etrans" else ctx.real("E", 1e9, 1e12)
        q = ctx.q(ctx.arr([E]), "eV")
        ref = emitter(kind, d, **{n: ctx.q(x, un)}).flux(q, distance=0)
        got = emitter(kind, d, **{n: ctx.q(x * k, other)}).flux(q, distance=0)
        ctx.eqq("flux", got, ref, rel=REL.get(kind))

    return h


def seeds(shape):
    """seed photon fields in other units"""
    @stubbed
    def h(ctx):
        d = ctx.dist("n")
        E = ctx.real("E", 1e9, 1e12)
        q = ctx.q(ctx.arr([E]), "eV")
        ev = 1 / EV["erg"]
        if shape in ("thermal", "aniso"):
            w = ctx.real("w", 1e-3, 1e3)
            a = ["s", ctx.q(30.0, "K"), ctx.q(w, "eV/cm3")]
            b = ["s", ctx.q(0.03, "kK"), ctx.q(w * 1.602176634e-13, "J/m3")]
            if shape == "aniso":
                th = 2.0
                a.append(ctx.q(th, "rad"))
                b.append(ctx.q(th * 180 / np.pi, "deg"))
        elif shape == "mono":
            w, e0 = ctx.real("w", 1e-3, 1e3), 0.02
            a = ["s", ctx.q(e0, "eV"), ctx.q(w, "eV/cm3")]
            b = ["s", ctx.q(e0 / 1e6, "MeV"), ctx.q(w * 1.602176634e-13, "J/m3")]
        else:
            w, v = ctx.real("w", 1e-3, 1e3), ctx.real("v", 1e-3, 1e3)
            es = np.array([0.01, 0.05])
            a = ["s", ctx.q(es, "eV"), ctx.q(ctx.arr([w, v]), "1/(eV cm3)")]
            r = ctx.choice("r", ["energy", "both", "edens"])
            if r == "energy":
                b = ["s", ctx.q(es * 1e3, "meV"), ctx.q(ctx.arr([w, v]), "1/(eV cm3)")]
            elif r == "both":
                b = ["s", ctx.q(es * ev, "erg"), ctx.q(ctx.arr([w * 1e6 / ev, v * 1e6 / ev]), "1/(erg m3)")]
            else:
                # E^2 dn/dE
                b = ["s", ctx.q(es, "eV"), ctx.q(ctx.arr([w * es[0] ** 2, v * es[1] ** 2]), "eV/cm3")]
        ref = emitter("ic", d, seed_photon_fields=[a]).flux(q, distance=0)
        got = emitter("ic", d, seed_photon_fields=[b]).flux(q, distance=0)
        ctx.eqq("flux", got, ref, rel=1e-6)

    return h


def grid_units(kind):
    """limits of the particle energies in other units"""
    @stubbed
    def h(ctx):
        import astropy.units as u

        lo, hi = window(kind)
        d = ctx.dist("n")
        E = np.sqrt(lo * hi)
        q = ctx.q(np.array([E]), "eV")
        pre = "Ep" if kind == "pp" else "Ee"
        e1 = ctx.real("e1", 1.5 if kind == "pp" else 0.01, 3.0)
        r = 1e3
        un = ctx.choice("u", ["TeV", "erg", "MeV"])
        k = u.GeV.to(un)
        a = {pre + "min": ctx.q(e1, "GeV"), pre + "max": ctx.q(e1 * r, "GeV")}
        b = {pre + "min": ctx.q(e1 * k, un), pre + "max": ctx.q(e1 * r * k, un)}
        ma, mb = emitter(kind, d, **a), emitter(kind, d, **b)
        if kind == "pp":
            ctx.eqq("W", mb.Wp, ma.Wp)
        else:
            ctx.eqq("W", mb.We, ma.We)
        if kind == "sy":
            ctx.eqq("flux", mb.flux(q, distance=0), ma.flux(q, distance=0))

    return h


HARNESSES = []
LIMITS = {"ties": False}
LIMITS_THOROUGH = {"seconds": 500}
for k in EMIT:
    heavy = k not in ("sy", "icm", "k06")
    if k == "ic2":
        continue
    o = {"compare": False} if k == "k06" else {}
    HARNESSES.append(("energies_" + k, energies(k, heavy), dict(o, weight=2 if heavy else 1)))
    HARNESSES.append(("dist_units_" + k, dist_units(k), o))
    HARNESSES.append(("many_" + k, many(k), o))
HARNESSES += [("params_" + k, params(k), {"compare": k != "k06"}) for k in PAR]
HARNESSES += [("seeds_" + s, seeds(s)) for s in ("thermal", "aniso", "mono", "array")]
HARNESSES += [("grid_units_" + k, grid_units(k)) for k in ("sy", "ic", "br", "pp")]
HARNESSES += [("no_mutation", no_mutation)]
