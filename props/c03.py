"""C03: memoised spectra equal freshly computed ones."""
import itertools

import numpy as np

from .common import Stubs, emitter, stubbed

BOUNDS = ("histories of 3 evaluations (4 in the thorough tier) interleaved with a change of one "
          "parameter, distribution, energy array, unit, distance or earlier result; all values "
          "symbolic; arrays of 1-3 energies (and one of 1100), 22 calls for evictions")
ASSUMPTIONS = ["texts and bytes of symbolic values agree exactly when the values do (rounded "
               "texts may also agree when values differ by less than the precision); sha256 is "
               "executed concretely and taken as collision-free",
               "trapz_loglog and quad are replaced by contracts while encoding"]
LIMITS = {"seconds": 100, "validate": 3}
LIMITS_THOROUGH = {"seconds": 600}


def R(ctx, *a):
    """symbolic input; equality to every earlier input of its kind is decided here"""
    return ctx.intern(ctx.real(*a))


class Dist:
    """particle distribution with declared parameters"""
    param_names = ["amplitude", "alpha"]
    kind = 1.0

    def __init__(self, ctx, amplitude, alpha):
        self.ctx = ctx
        self.amplitude, self.alpha = amplitude, alpha

    def __call__(self, E):
        import astropy.units as u

        e = E.to_value("TeV")
        return u.Quantity(e * 0 + 1.0, "") * self.amplitude


class Dist2(Dist):
    kind = 2.0


class Dist3(Dist):
    """more parameters than the base"""
    param_names = ["amplitude", "alpha", "beta"]
    kind = 3.0
    beta = 1.0


def toy():
    """a user-defined radiative model: its spectrum is an arbitrary function of all its state"""
    import astropy.units as u

    from naima.radiative import BaseElectron

    class Toy(BaseElectron):
        def __init__(self, ctx, dist, **kw):
            super().__init__(dist)
            self.ctx = ctx
            self.Eemin, self.Eemax, self.nEed = 1 * u.GeV, 10 * u.TeV, 2
            self.a, self.f, self.flag, self.opts = 1 * u.G, 1.0, True, {"x": 1 * u.K}
            self.grid = [1.0, 2.0] * u.cm
            self.param_names += ["a", "f", "flag", "opts", "grid"]
            self.__dict__.update(kw)

        def _spectrum(self, photon_energy):
            c, d = self.ctx, self.particle_distribution
            e = photon_energy.to_value("eV")
            out = np.empty(e.shape, dtype=object if c.sym else float)
            st = (self.a.to_value("G"), self.f, float(self.flag), self.opts["x"].to_value("K"),
                  self.grid.to_value("cm")[1], d.amplitude.to_value("1/eV"), d.alpha, d.kind,
                  getattr(d, "beta", 0.0), self.Eemin.to_value("GeV"), float(self.nEed))
            for i in range(e.size):
                out[i] = c.uf("spec", e[i], *st, lo=1e-3, hi=1e3, sign="+")
            return u.Quantity(out, "1/(s eV)")

    return Toy


# state: everything the result may depend on
def start(ctx):
    return dict(a=(R(ctx, "a0", 0.1, 10), "G"), f=R(ctx, "f0", 0.1, 10), flag=True,
                x=(R(ctx, "x0", 0.1, 10), "K"), g=((1.0, R(ctx, "g0", 0.1, 10)), "cm"),
                amp=(R(ctx, "n0", 0.1, 10), "1/eV"), alpha=R(ctx, "al0", 0.1, 10), dist=Dist,
                Eemin=(R(ctx, "m0", 0.1, 10), "GeV"), nEed=2, beta=1.0)


def mk_dist(ctx, s):
    d = s["dist"](ctx, ctx.q(*s["amp"]), s["alpha"])
    d.beta = s["beta"]
    if s["dist"] is not Dist3:
        del d.beta
    return d


def mk(ctx, s, memo):
    m = toy()(ctx, mk_dist(ctx, s))
    m._memoize = memo
    put(ctx, m, s)
    return m


def put(ctx, m, s):
    m.a, m.f, m.flag = ctx.q(*s["a"]), s["f"], s["flag"]
    m.opts = {"x": ctx.q(*s["x"])}
    m.grid = ctx.q(ctx.intern(ctx.arr(list(s["g"][0]))), s["g"][1])
    m.Eemin, m.nEed = ctx.q(*s["Eemin"]), s["nEed"]


MUTATIONS = ["none", "a", "a_unit", "f", "flag", "dict", "array", "array_unit", "amp", "amp_unit",
             "alpha", "dist_class", "dist_more", "dist_new", "grid_limit", "grid_n", "result",
             "result_item", "energy_inplace", "dict_inplace", "array_inplace"]


def mutate(ctx, mut, n, m, s, results, es):
    r = lambda name: R(ctx, "%s%d" % (name, n + 1), 0.1, 10)
    d = m.particle_distribution
    if mut == "a":
        s["a"] = (r("a"), "G")
        m.a = ctx.q(*s["a"])
    elif mut == "a_unit":
        s["a"] = (s["a"][0], "mG" if s["a"][1] == "G" else "G")
        m.a = ctx.q(*s["a"])
    elif mut == "f":
        m.f = s["f"] = r("f")
    elif mut == "flag":
        m.flag = s["flag"] = not s["flag"]
    elif mut == "dict":
        s["x"] = (r("x"), "K")
        m.opts = {"x": ctx.q(*s["x"])}
    elif mut == "dict_inplace":
        s["x"] = (r("x"), "K")
        m.opts["x"] = ctx.q(*s["x"])
    elif mut == "array":
        s["g"] = ((1.0, r("g")), "cm")
        m.grid = ctx.q(ctx.intern(ctx.arr(list(s["g"][0]))), "cm")
    elif mut == "array_unit":
        s["g"] = (s["g"][0], "m" if s["g"][1] == "cm" else "cm")
        m.grid = ctx.q(ctx.intern(ctx.arr(list(s["g"][0]))), s["g"][1])
    elif mut == "array_inplace":
        v = ctx.intern(r("g"))
        s["g"] = ((s["g"][0][0], v), s["g"][1])
        m.grid[1] = ctx.q(v, s["g"][1])
    elif mut == "amp":
        s["amp"] = (r("n"), "1/eV")
        d.amplitude = ctx.q(*s["amp"])
    elif mut == "amp_unit":
        s["amp"] = (s["amp"][0], "1/keV" if s["amp"][1] == "1/eV" else "1/eV")
        d.amplitude = ctx.q(*s["amp"])
    elif mut == "alpha":
        d.alpha = s["alpha"] = r("al")
    elif mut in ("dist_class", "dist_more", "dist_new"):
        s["dist"] = {"dist_class": Dist2 if s["dist"] is Dist else Dist, "dist_more": Dist3,
                     "dist_new": s["dist"]}[mut]
        if mut != "dist_class":
            s["alpha"] = r("al")
            s["beta"] = r("be")
        m.particle_distribution = mk_dist(ctx, s)
    elif mut == "grid_limit":
        s["Eemin"] = (r("m"), "GeV")
        m.Eemin = ctx.q(*s["Eemin"])
    elif mut == "grid_n":
        m.nEed = s["nEed"] = s["nEed"] + 1
    elif mut == "result":
        results[-1] *= 3.0
    elif mut == "result_item":
        results[-1][...] = results[-1] * 0
    elif mut == "energy_inplace":
        v = ctx.intern(r("E"))
        es["main"][0][0] = v
        es["main"] = (es["main"][0], es["main"][1])


CALLS = ["same", "other", "unit", "dist", "dist_unit", "zero", "scalar", "reverse", "table", "sed",
         "kw"]


def call(ctx, m, how, es):
    import astropy.units as u
    from astropy.table import Table

    v, un = es["main"]
    q = ctx.q(v, un)
    D = R(ctx, "D", 0.1, 10)
    if how == "same":
        return m.flux(q)
    if how == "other":
        return m.flux(ctx.q(es["other"], un))
    if how == "unit":
        return m.flux(ctx.q(v, "keV"))
    if how == "dist":
        return m.flux(q, ctx.q(D, "kpc"))
    if how == "kw":
        return m.flux(q, distance=ctx.q(D, "kpc"))
    if how == "dist_unit":
        return m.flux(q, ctx.q(D, "pc"))
    if how == "zero":
        return m.flux(q, 0)
    if how == "scalar":
        return m.flux(ctx.q(v[0], un))
    if how == "reverse":
        return m.flux(ctx.q(v[::-1].copy(), un))
    if how == "table":
        return m.flux({"energy": q}, distance=0)
    if how == "sed":
        return m.sed(q, distance=ctx.q(D, "kpc"))


def toy_history(mut1, steps=2):
    def h(ctx):
        ctx.texts()
        s = start(ctx)
        es = {"main": (ctx.intern(ctx.arr([R(ctx, "E0", 0.1, 10), 2.0])), "eV"),
              "other": ctx.intern(ctx.arr([R(ctx, "E1", 0.1, 10), 2.0]))}
        m = mk(ctx, s, True)
        how = ctx.choice("c0", ["same", "table", "zero"] if mut1 == "none" else ["same"])
        results = [call(ctx, m, how, es)]
        mut = mut1
        prev = None
        for n in range(1, steps + 1):
            if n > 1:
                mut = ctx.choice("m%d" % n, ["none", "a", "alpha", "dist_class", "result", "back"])
            if mut == "back":
                for k in ("a", "f", "flag", "x", "g", "amp", "alpha", "dist", "Eemin", "nEed", "beta"):
                    s[k] = first[k]
                put(ctx, m, s)
                m.particle_distribution = mk_dist(ctx, s)
            else:
                first = dict(s) if n == 1 else first
                mutate(ctx, mut, n, m, s, results, es)
            how = ctx.choice("c%d" % n, CALLS if n == 1 or mut == "none" else ["same", "zero"])
            got = call(ctx, m, how, es)
            ctx.eqq("step%d" % n, got, call(ctx, mk(ctx, s, False), how, es))
            results.append(got)
    h.__name__ = "toy_" + mut1
    return h


def instances(ctx):
    """results of one instance are never returned by another of another state or class"""
    ctx.texts()
    s = start(ctx)
    es = {"main": (ctx.intern(ctx.arr([R(ctx, "E0", 0.1, 10), 2.0])), "eV")}
    m1 = mk(ctx, s, True)
    call(ctx, m1, "same", es)
    s2 = dict(s)
    which = ctx.choice("which", ["a", "f", "amp", "dist"])
    if which == "dist":
        s2["dist"] = Dist2
    elif which == "f":
        s2["f"] = R(ctx, "f1", 0.1, 10)
    else:
        s2[which] = (R(ctx, "v1", 0.1, 10), s[which][1])
    m2 = mk(ctx, s2, True)
    ctx.eqq("second", call(ctx, m2, "same", es), call(ctx, mk(ctx, s2, False), "same", es))
    ctx.eqq("first", call(ctx, m1, "same", es), call(ctx, mk(ctx, s, False), "same", es))


def evictions(ctx):
    """more evaluations than the cache holds"""
    ctx.texts()
    s = start(ctx)
    m = mk(ctx, s, True)
    fresh = mk(ctx, s, False)
    E = R(ctx, "E0", 0.1, 10)
    es = [ctx.intern(ctx.arr([float(i % 5 + 1), E * (i // 5 + 1)]))
          for i in range(22)]
    stride = ctx.choice("stride", [1, 7, 5])
    for k in range(40):
        i = (k * stride) % 22
        q = ctx.q(es[i], "eV")
        r = m.flux(q)
        ctx.eqq("call", r, fresh.flux(q))
        if k % 3 == 0:
            r[:] = r * 2.0      # the caller's array, to do with as it likes
    for i in (0, 21, 20, 3, 0):
        q = ctx.q(es[i], "eV")
        ctx.eqq("again", m.flux(q), fresh.flux(q))


def long_array(ctx):
    """arrays too long to be printed in full"""
    import astropy.units as u
    from naima.radiative import BaseElectron

    ctx.texts()

    class Sum(BaseElectron):
        def __init__(self, d):
            super().__init__(d)
            self.Eemin, self.Eemax, self.nEed = 1 * u.GeV, 10 * u.TeV, 2

        def _spectrum(self, photon_energy):
            e = photon_energy.to_value("eV")
            return u.Quantity(e * (1.0 / e[600]), "1/(s eV)")

    s = start(ctx)
    m, f = Sum(mk_dist(ctx, s)), Sum(mk_dist(ctx, s))
    f._memoize = False
    base = [1.0 + i for i in range(1100)]
    a, b = list(base), list(base)
    a[600], b[600] = R(ctx, "A", 1, 10), R(ctx, "B", 1, 10)
    for k, v in (("a", a), ("b", b)):
        q = ctx.q(ctx.intern(ctx.arr(v)), "eV")
        g, w = m.flux(q), f.flux(q)
        for i in (0, 600, 1099):
            ctx.eqq(k, g[i], w[i])


def near_values(ctx):
    """energies and parameters that only differ beyond the printed digits"""
    ctx.texts()
    s = start(ctx)
    E = R(ctx, "E", 1.5e-4, 1e-3)
    d = R(ctx, "d", 1e-9, 1e-8)
    which = ctx.choice("which", ["energy", "param", "array", "scalar"])
    m = mk(ctx, s, True)
    arr = lambda x: ctx.q(ctx.intern(ctx.arr([x, E * 0.5])), "TeV")
    es = [arr(E), arr(E + d)]
    if which == "scalar":
        es = [ctx.q(E, "TeV"), ctx.q(E + d, "TeV")]
    if which == "param":
        m.a = ctx.q(E, "G")
    if which == "array":
        m.grid = ctx.q(ctx.intern(ctx.arr([1e-3, E])), "cm")
    m.flux(es[0], 0)
    if which == "param":
        s["a"] = (E + d, "G")
        m.a = ctx.q(*s["a"])
    if which == "array":
        s["g"] = ((1e-3, E + d), "cm")
        m.grid = ctx.q(ctx.intern(ctx.arr([1e-3, E + d])), "cm")
    q = es[1] if which in ("energy", "scalar") else es[0]
    ctx.eqq("near", m.flux(q, 0), mk(ctx, s, False).flux(q, 0), rel=1e-12)


def unnamed(ctx):
    """distributions that do not declare their parameters"""
    ctx.texts()
    s = start(ctx)
    es = {"main": (ctx.intern(ctx.arr([R(ctx, "E0", 0.1, 10), 2.0])), "eV")}

    class D(object):
        kind, alpha = 1.0, 2.0

        def __init__(self, amp):
            self.amplitude = amp

        def __call__(self, E):
            return self.amplitude

    m = mk(ctx, s, True)
    m.particle_distribution = D(ctx.q(R(ctx, "n1", 0.1, 10), "1/eV"))
    call(ctx, m, "same", es)
    m.particle_distribution.amplitude = ctx.q(R(ctx, "n2", 0.1, 10), "1/eV")
    got = call(ctx, m, "same", es)
    f = mk(ctx, s, False)
    f.particle_distribution = D(ctx.q(R(ctx, "n2", 0.1, 10), "1/eV"))
    ctx.eqq("fresh", got, call(ctx, f, "same", es))


# ------------------------------------------------------------ built-in models
class PD:
    """particle distribution for the built-in models (no cache of its own)"""
    param_names = ["amplitude", "alpha"]

    def __init__(self, ctx, amp, alpha):
        self.amplitude, self.alpha = ctx.q(amp, "1/eV"), alpha

    def __call__(self, E):
        return self.amplitude * E.to_value("TeV") ** -self.alpha


def params(ctx, kind):
    """name -> two values, of every documented attribute"""
    r = lambda n, lo=0.5, hi=3: R(ctx, n, lo, hi)
    pair = lambda n, un, k=1.0: [ctx.q(r(n + "0") * k, un), ctx.q(r(n + "1") * k, un)]
    q = lambda v, un: ctx.q(ctx.const(v), un)
    el = dict(Eemin=[q(1.0, "GeV"), q(2.0, "GeV")], Eemax=[q(100.0, "TeV"), q(150.0, "TeV")],
              nEed=[2, 3])
    if kind == "sy":
        return dict(el, B=pair("B", "uG"))
    if kind == "ic":
        S = lambda T, U: {"a": {"type": "thermal", "T": T, "u": U, "isotropic": True}}
        T, U = q(30.0, "K"), pair("U", "eV/cm3")
        a, b, n = ["a", q(30.0, "K"), U[0]], ["a", q(30.0, "K"), U[1]], ["a", q(40.0, "K"), U[0]]
        an = ["a", q(30.0, "K"), U[0], q(1.5, "rad")]
        an2 = ["a", q(30.0, "K"), U[0], q(2.0, "rad")]
        mo = ["a", q(0.01, "eV"), U[0]]
        w = ctx.choice("seeds", [(a, b), (a, n), (a, an), (an, an2), (a, mo)])
        from naima.radiative import InverseCompton

        return dict(el, seed_photon_fields=[
            InverseCompton._process_input_seed([x]) for x in w])
    if kind == "br":
        el["Eemin"] = [q(2.0, "MeV"), q(4.0, "MeV")]
        return dict(el, n0=pair("n0", "1/cm3"), weight_ee=[r("we0"), r("we1")],
                    weight_ep=[r("wp0"), r("wp1")])
    if kind == "pp":
        return dict(Epmin=[q(1.3, "GeV"), q(2.0, "GeV")], Epmax=[q(100.0, "TeV"), q(50.0, "TeV")],
                    nEpd=[2, 3], nh=pair("nh", "1/cm3"), nuclear_enhancement=[True, False],
                    hiEmodel=["Pythia8", ctx.choice("hi", ["SIBYLL", "QGSJET", "Geant4"])],
                    useLUT=[False, False])
    if kind == "k06":
        return dict(nh=pair("nh", "1/cm3"), Etrans=[q(0.1, "TeV"), q(0.3, "TeV")])


NAMES = {"sy": ["Eemin", "Eemax", "nEed", "B"],
         "ic": ["Eemin", "Eemax", "nEed", "seed_photon_fields"],
         "br": ["Eemin", "Eemax", "nEed", "n0", "weight_ee", "weight_ep"],
         "pp": ["Epmin", "Epmax", "nEpd", "nh", "nuclear_enhancement", "hiEmodel"],
         "k06": ["nh", "Etrans"]}
ENE = {"sy": 10.0, "ic": 3e10, "br": 3e9, "pp": 3e9, "k06": 3e11}


def builtin(kind, change):
    @stubbed
    def h(ctx):
        ctx.texts()
        P = params(ctx, kind)
        st = {k: v[0] for k, v in P.items()}
        dn = [R(ctx, "n0", 0.1, 10), R(ctx, "n1", 0.1, 10)]
        al = [2.2, 2.6]
        dp = [dn[0], al[0]]

        def new(memo):
            m = emitter(kind, PD(ctx, *dp), memo=memo)
            for k, v in st.items():
                setattr(m, k, v)
            return m

        q = ctx.q(ctx.intern(ctx.arr([ctx.const(ENE[kind])])), "eV")
        D = ctx.q(R(ctx, "D", 0.1, 10), "kpc")
        how = ctx.choice("how", ["flux", "sed"])
        f = lambda m: getattr(m, how)(q, distance=D)
        m = new(True)
        f(m)
        if change == "dist":
            dp[0] = dn[1]
            m.particle_distribution.amplitude = ctx.q(dn[1], "1/eV")
        elif change == "alpha":
            dp[1] = m.particle_distribution.alpha = al[1]
        elif change == "instance":
            dp[1] = al[1]
            m = new(True)
        else:
            st[change] = P[change][1]
            setattr(m, change, st[change])
        got = f(m)
        ctx.eqq("changed", got, f(new(False)))
        got *= 2.0
        ctx.eqq("aliased", f(m), f(new(False)))
        if change not in ("dist", "alpha", "instance"):
            st[change] = P[change][0]
            setattr(m, change, st[change])
            ctx.eqq("restored", f(m), f(new(False)))
    h.__name__ = "%s_%s" % (kind, change)
    return h


@stubbed
def shared_kelner(ctx):
    """instances of the same class with different distributions or parameters"""
    ctx.texts()
    q = ctx.q(ctx.intern(ctx.arr([ctx.const(3e11)])), "eV")
    a, b = [emitter("k06", PD(ctx, R(ctx, "n%d" % i, 0.1, 10), 2.2), memo=True,
                    nh=ctx.q(R(ctx, "nh%d" % i, 0.1, 10), "1/cm3")) for i in range(2)]
    f = [emitter("k06", PD(ctx, R(ctx, "n%d" % i, 0.1, 10), 2.2),
                 nh=ctx.q(R(ctx, "nh%d" % i, 0.1, 10), "1/cm3")) for i in range(2)]
    a.flux(q)
    ctx.eqq("b", b.flux(q), f[1].flux(q))
    ctx.eqq("a", a.flux(q), f[0].flux(q))


# ------------------------------------------------------------ distribution models
MODELS = {
    "PowerLaw": ["amplitude", "e_0", "alpha"],
    "ExponentialCutoffPowerLaw": ["amplitude", "e_0", "alpha", "e_cutoff", "beta"],
    "BrokenPowerLaw": ["amplitude", "e_0", "e_break", "alpha_1", "alpha_2"],
    "ExponentialCutoffBrokenPowerLaw": ["amplitude", "e_0", "e_break", "alpha_1", "alpha_2",
                                        "e_cutoff", "beta"],
    "LogParabola": ["amplitude", "e_0", "alpha", "beta"],
}


def model(name):
    def h(ctx):
        import naima.models as M

        ctx.texts()
        unit = {"amplitude": "1/eV", "e_0": "TeV", "e_break": "TeV", "e_cutoff": "TeV"}
        cls = getattr(M, name)
        v = lambda p, i: (ctx.q(R(ctx, "%s%d" % (p, i), 0.2, 4), unit[p]) if p in unit else
                          R(ctx, "%s%d" % (p, i), 0.2, 4))
        st = {p: v(p, 0) for p in MODELS[name]}

        def new(memo):
            m = cls(**st)
            m._memoize = memo
            return m

        q = ctx.q(ctx.intern(ctx.arr([R(ctx, "E", 0.2, 4)])), "TeV")
        p = ctx.choice("p", MODELS[name])
        new_instance = ctx.bool("new")
        m = new(True)
        m(q)
        st[p] = v(p, 1)
        if new_instance:
            m = new(True)
        else:
            setattr(m, p, st[p])
        got = m(q)
        ctx.eqq("changed", got, new(False)(q))
        got *= 2.0
        ctx.eqq("aliased", m(q), new(False)(q))
    h.__name__ = "model_" + name
    return h


def model_classes(ctx):
    """two classes with equal parameter values"""
    import naima.models as M

    ctx.texts()
    q = ctx.q(ctx.intern(ctx.arr([R(ctx, "E", 0.2, 4)])), "TeV")
    A = ctx.q(1.0, "1/eV")
    e = ctx.q(1.0, "TeV")
    a, b = R(ctx, "a", 1, 3), R(ctx, "b", 1, 3)
    ms = [M.PowerLaw(A, e, a), M.LogParabola(A, e, a, b), M.ExponentialCutoffPowerLaw(A, e, a, e, b),
          M.BrokenPowerLaw(A, e, e, a, b)]
    order = ctx.choice("order", list(itertools.permutations(range(4), 2)))
    for i in order:
        m = ms[i]
        m._memoize = True
        got = m(q)
        m._memoize = False
        ctx.eqq("m", got, m(q))


HARNESSES = [("toy_" + m, toy_history(m), {"thorough": {"max_paths": 20000}}) for m in MUTATIONS]
HARNESSES += [("toy3_" + m, toy_history(m, 3), {"tier": "thorough", "max_paths": 20000})
              for m in ("none", "a", "alpha", "result", "dist_more", "energy_inplace")]
HARNESSES += [("instances", instances), ("evictions", evictions), ("long_array", long_array),
              ("near_values", near_values), ("unnamed", unnamed), ("shared_kelner", shared_kelner, {"compare": False}),
              ("model_classes", model_classes)]
HARNESSES += [("model_" + n, model(n), {"ties": False}) for n in MODELS]
HARNESSES += [("%s_%s" % (k, c), builtin(k, c), {"compare": k not in ("ic", "k06")}) for k in NAMES
              for c in NAMES[k] + ["dist", "alpha", "instance"]]
