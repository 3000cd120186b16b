"""C07: inverse Compton emission is the sum over its seed photon fields."""
import numpy as np

from .common import C, emitter, stubbed

BOUNDS = ("photon energy symbolic in 1e10..1e12 eV, 1-3 seed fields of every kind with symbolic "
          "energy densities, arbitrary positive electron distribution, 10-point electron grid")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) while encoding"]
LIMITS = {"ties": False}


def field(ctx, kind, name):
    import astropy.units as u

    w = ctx.real("w_" + name, 1e-2, 1e2)
    if kind == "thermal":
        T = ctx.real("T_" + name, 2.0, 5e3)
        return [name, ctx.q(T, "K"), ctx.q(w, "eV/cm3")]
    if kind == "aniso":
        return [name, ctx.q(20.0, "K"), ctx.q(w, "eV/cm3"), ctx.q(2.0, "rad")]
    if kind == "bb":
        return [name, ctx.q(100.0, "K"), 0 * u.eV / u.cm**3]
    if kind == "mono":
        return [name, ctx.q(0.02, "eV"), ctx.q(w, "eV/cm3")]
    if kind == "array":
        return [name, ctx.q(np.array([0.01, 0.05]), "eV"),
                ctx.q(ctx.arr([w, w * 0.3]), "1/(eV cm3)")]
    return kind


COMBOS = [("thermal", "mono"), ("array", "thermal"), ("aniso", "bb"), ("CMB", "mono"),
          ("FIR", "NIR"), ("mono", "array"), ("CMB", "FIR", "thermal")]


def total(i):
    @stubbed
    def h(ctx):
        kinds = COMBOS[i]
        d = ctx.dist("n")
        E = ctx.real("E", 1e10, 1e12)
        q = ctx.q(ctx.arr([E]), "eV")
        fs = [field(ctx, k, "f%d" % j) for j, k in enumerate(kinds)]
        names = [f if isinstance(f, str) else f[0] for f in fs]
        m = emitter("ic", d, seed_photon_fields=fs)
        tot = m.flux(q, distance=0)
        parts = [emitter("ic", d, seed_photon_fields=[f]).flux(q, distance=0) for f in fs]
        s = parts[0]
        for p in parts[1:]:
            s = s + p
        ctx.eqq("sum", tot, s)
        j = ctx.choice("j", list(range(len(fs))))
        how = ctx.choice("how", ["name", "index", "sed", "distance"])
        if how == "distance":
            got = m.flux(q, distance=ctx.q(2.0, "kpc"), seed=names[j])
            ctx.eqq("dist", got, parts[j] / (4 * np.pi * ctx.q(2 * C.kpc, "cm") ** 2))
        elif how == "sed":
            got = m.sed(q, distance=0, seed=j)
            ctx.eqq("sed", got, (parts[j] * ctx.q(E, "eV") ** 2).to("erg/s"))
        else:
            got = m.flux(q, distance=0, seed=names[j] if how == "name" else j)
            ctx.eqq("seed", got, parts[j])

    return h


@stubbed
def order(ctx):
    """order of the seed fields and former calls are irrelevant"""
    d = ctx.dist("n")
    E = ctx.real("E", 1e10, 1e12)
    q = ctx.q(ctx.arr([E]), "eV")
    a, b = field(ctx, "thermal", "a"), field(ctx, "mono", "b")
    x = emitter("ic", d, seed_photon_fields=[a, b])
    y = emitter("ic", d, seed_photon_fields=[b, a])
    fa = emitter("ic", d, seed_photon_fields=[a]).flux(q, distance=0)
    ctx.eqq("order", y.flux(q, distance=0), x.flux(q, distance=0))
    ctx.eqq("byname", y.flux(q, distance=0, seed="a"), fa)
    ctx.eqq("byindex", y.flux(q, distance=0, seed=1), fa)
    # history: another energy array, another seed, memoized totals
    memo = ctx.bool("memo")
    m = emitter("ic", d, memo=False, seed_photon_fields=[a, b])
    q2 = ctx.q(np.array([2e9, 3e9]), "eV")
    case = ctx.choice("case", ["other_energy", "other_seed", "sed"])
    m.flux(q, distance=0)
    if case == "other_energy":
        m.flux(q2, distance=0)
        m.flux(q2, distance=0, seed="b")
    elif case == "other_seed":
        m.flux(q, distance=0, seed="b")
    else:
        m.sed(q2, seed=1)
    ctx.eqq("history", m.flux(q, distance=0, seed="a"), fa)


@stubbed
def history_memo(ctx):
    """per-seed fluxes after memoized totals (concrete energies)"""
    d = Named(ctx)
    a, b = field(ctx, "thermal", "a"), field(ctx, "mono", "b")
    m = emitter("ic", d, memo=True, seed_photon_fields=[a, b])
    q1, q2 = [(np.array([2e10]), np.array([3e9, 5e11])),
              (np.array([2e10, 5e9, 1e11]), np.array([3e9, 5e11, 4e10]))][ctx.choice("n", [0, 1])]
    q1, q2 = ctx.q(q1, "eV"), ctx.q(q2, "eV")
    fa1 = emitter("ic", d, seed_photon_fields=[a]).flux(q1, distance=0)
    fb2 = emitter("ic", d, seed_photon_fields=[b]).flux(q2, distance=0)
    m.flux(q1, distance=0)
    m.flux(q2, distance=0)
    ctx.eqq("a1", m.flux(q1, distance=0, seed="a"), fa1)
    ctx.eqq("b2", m.flux(q2, distance=0, seed=1), fb2)
    m.flux(q1, distance=0)
    ctx.eqq("b2s", m.sed(q2, distance=0, seed="b"), (fb2 * q2**2).to("erg/s"))


class Named:
    """memoizable power law (has param_names)"""
    param_names = ["amplitude"]

    def __init__(self, ctx):
        self.amplitude = ctx.q(3.0, "1/eV")

    def __call__(self, E):
        return self.amplitude * (E.to_value("TeV")) ** -2.2


@stubbed
def shorthand(ctx):
    """CMB, FIR and NIR stand for their documented fields, in lists and strings"""
    d = ctx.dist("n")
    E = ctx.real("E", 1e10, 1e12)
    q = ctx.q(ctx.arr([E]), "eV")
    aT4 = lambda T: C.ar * T**4 / C.eV
    doc = {"CMB": (2.72548, aT4(2.72548)), "FIR": (30.0, 0.5), "NIR": (3000.0, 1.0)}
    f = lambda s: emitter("ic", d, seed_photon_fields=s).flux(q, distance=0)
    case = ctx.choice("case", ["CMB", "FIR", "NIR", "str", "str3", "dash", "bb"])
    full = lambda n: [n, ctx.q(doc[n][0], "K"), ctx.q(doc[n][1], "eV/cm3")]
    if case in doc:
        ctx.eqq("named", f([case]), f([full(case)]), rel=1e-6)
    elif case == "str":
        ctx.eqq("str", f("CMB"), f(["CMB"]))
    elif case == "str3":
        ctx.eqq("str3", f("CMB-FIR-NIR"), f([full("CMB"), full("FIR"), full("NIR")]), rel=1e-6)
    elif case == "dash":
        ctx.eqq("dash", f("NIR-FIR"), f(["FIR", "NIR"]))
    else:
        import astropy.units as u

        T = ctx.real("T", 3.0, 5e3)
        z = ctx.choice("zero", [0 * u.eV / u.cm**3, 0, 0 * u.erg / u.m**3])
        t2 = T * T
        ctx.eqq("bb", f([["x", ctx.q(T, "K"), z]]),
                f([["x", ctx.q(T, "K"), ctx.q(C.ar * t2 * t2 / C.eV, "eV/cm3")]]), rel=1e-6)


@stubbed
def default_seed(ctx):
    """the default seed field is the CMB"""
    import astropy.units as u
    import naima.radiative as R

    d = ctx.dist("n")
    E = ctx.real("E", 1e10, 1e12)
    q = ctx.q(ctx.arr([E]), "eV")
    m = R.InverseCompton(d, Eemin=1 * u.GeV, Eemax=100 * u.TeV, nEed=2)
    m._memoize = False
    ctx.eqq("cmb", m.flux(q, distance=0), emitter("ic", d, seed_photon_fields=["CMB"]).flux(q, distance=0))


@stubbed
def invalid(ctx):
    """unknown seeds are refused, not silently replaced"""
    d = ctx.dist("n")
    q = ctx.q(np.array([1e11]), "eV")
    m = emitter("ic2", d)
    bad = ctx.choice("bad", ["nope", 2, 5, "", "A"])
    which = ctx.choice("which", ["flux", "sed"])
    try:
        getattr(m, which)(q, distance=0, seed=bad)
        ctx.true("raises", False, "seed=%r accepted" % (bad,))
    except ValueError:
        ctx.true("raises", True)


@stubbed
def many(ctx):
    """every one of many fields counts and is found by its name and number"""
    n = 12
    d = ctx.dist("n")
    q = ctx.q(ctx.arr([ctx.real("E", 1e10, 1e12)]), "eV")
    w = ctx.reals("w", n, 1e-2, 1e2)
    fs = [["f%d" % i, ctx.q(0.02, "eV"), ctx.q(w[i], "eV/cm3")] for i in range(n)]
    m = emitter("ic", d, seed_photon_fields=fs)
    one = emitter("ic", d, seed_photon_fields=[["x", ctx.q(0.02, "eV"), ctx.q(1.0, "eV/cm3")]]).flux(q, 0)
    tot = 0.0
    for x in w:
        tot = tot + x
    ctx.eqq("sum", m.flux(q, distance=0), one * tot)
    j = ctx.choice("j", [0, 7, 8, 10, 11])
    ctx.eqq("name", m.flux(q, distance=0, seed="f%d" % j), one * w[j])
    ctx.eqq("number", m.flux(q, distance=0, seed=j), one * w[j])


HARNESSES = [("many", many)] + [("total_" + "_".join(c), total(i)) for i, c in enumerate(COMBOS)]
HARNESSES += [("order", order), ("history_memo", history_memo), ("shorthand", shorthand),
              ("default_seed", default_seed), ("invalid", invalid)]
