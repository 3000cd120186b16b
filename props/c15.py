"""C15: pion-decay emission follows the documented pp parametrisation."""
import math

import numpy as np

from .common import C, emitter, need, stubbed, trapz

BOUNDS = ("symbolic proton kinetic energy over 0.28..1e6 GeV and photon energy 1e-3..1e5 GeV for "
          "the cross section; spectra on 10-20 point proton grids in every regime with a symbolic "
          "photon energy and arbitrary positive proton distribution; all four hadronic models, "
          "with and without nuclear enhancement; look-up tables off")
ASSUMPTIONS = ["trapz_loglog is replaced by its contract (decided by C11) while encoding"]
LIMITS = {"ties": False, "branch_ms": 200, "model_ms": 400, "point_ms": 200}
LIMITS_THOROUGH = {"branch_ms": 2000, "model_ms": 3000}

MP, MPI, TTH = C.mp_GeV, 0.1349766, 0.27966184
MODELS = ("Geant4", "Pythia8", "SIBYLL", "QGSJET")
ETRANS = {"Pythia8": 50.0, "SIBYLL": 100.0, "QGSJET": 100.0, "Geant4": 100.0}
A = {"Geant4": (0.728, 0.596, 0.491, 0.2503, 0.117), "Pythia8": (0.652, 0.0016, 0.488, 0.1928, 0.483),
     "SIBYLL": (5.436, 0.254, 0.072, 0.075, 0.166), "QGSJET": (0.908, 0.0009, 6.089, 0.176, 0.448)}
FHI = {"Geant4": (3.0, 0.5, 4.9, 1.0), "Pythia8": (3.5, 0.5, 4.0, 1.0),
       "SIBYLL": (3.55, 0.5, 3.6, 1.0), "QGSJET": (3.55, 0.5, 4.5, 1.0)}
BHI = {"Geant4_0": (9.53, 0.52, 0.054), "Geant4": (9.13, 0.35, 9.7e-3),
       "Pythia8": (9.06, 0.3795, 0.01105), "SIBYLL": (10.77, 0.412, 0.01264),
       "QGSJET": (13.16, 0.4419, 0.01439)}


def sig_inel(m, T):
    L = m.log(T / TTH)
    return (30.7 - 0.96 * L + 0.18 * L**2) * (1 - m.pow(TTH / T, 1.9))**3 * 1e-27


def sig_pi(m, T, model):
    """inclusive neutral pion cross section (Sec. III A)"""
    if T < 2.0:
        M, G = 1.1883, 0.2264
        s = 2 * MP * (T + 2 * MP)
        gm = math.sqrt(M**2 * (M**2 + G**2))
        K = math.sqrt(8) * M * G * gm / (math.pi * math.sqrt(M**2 + gm))
        f = MP * K / (((m.sqrt(s) - MP)**2 - M**2)**2 + M**2 * G**2)
        eta = m.sqrt((s - MPI**2 - 4 * MP**2)**2 - 16 * MPI**2 * MP**2) / (2 * MPI * m.sqrt(s))
        r = 7.66e-3 * m.pow(eta, 1.95) * (1 + eta + eta**5) * m.pow(f, 1.86)
        if T >= 0.56:
            r = r + 5.7 / (1 + m.exp(-9.3 * (T - 1.4)))
        return r * 1e-27
    if T < 5.0:
        Q = (T - TTH) / MP
        return sig_inel(m, T) * (-6e-3 + 0.237 * Q - 0.023 * Q**2)
    a = A["Geant4"] if T < ETRANS[model] else A[model]
    x = (T - 3.0) / MP
    return sig_inel(m, T) * a[0] * m.pow(x, a[3]) * (1 + m.exp(-a[1] * m.pow(x, a[4]))) * \
        (1 - m.exp(-a[2] * m.pow(x, 0.25)))


def epimax(m, T):
    s = 2 * MP * (T + 2 * MP)
    e = (s - 4 * MP**2 + MPI**2) / (2 * m.sqrt(s))
    g = (T + 2 * MP) / m.sqrt(s)
    return g * (e + m.sqrt(e**2 - MPI**2) * m.sqrt(1 - g**-2))


def amax(m, T, model):
    if T < 1.0:
        return 5.9 * sig_pi(m, T, model) / epimax(m, T)
    if T >= ETRANS[model]:
        b = BHI[model]
    elif T < 5.0:
        b = BHI["Geant4_0"]
    else:
        b = BHI["Geant4"]
    th = T / MP
    return b[0] * m.pow(th, -b[1]) * m.exp(b[2] * m.log(th)**2) * sig_pi(m, T, model) / MP


def shape(m, T, E, model):
    """F(Tp, Eg), Eq. 11 and Table V"""
    if T < TTH:
        return 0.0
    mu = lambda: 1.25 * m.pow((T - 1.0) / MP, 1.25) * m.exp(-1.25 * (T - 1.0) / MP)
    if T > ETRANS[model]:
        p = FHI[model]
    elif T <= 1.0:
        p = (1.0, 1.0, 3.29 - m.pow(T / MP, -1.5) / 5.0, 0.0)
    elif T <= 4.0:
        p = (3.0, 1.0, mu() + 2.45, mu() + 1.45)
    elif T <= 20.0:
        p = (3.0, 1.0, 1.5 * mu() + 4.95, mu() + 1.50)
    else:
        p = (3.0, 0.5, 4.2, 1.0)
    lam, al, be, ga = p
    gpi = epimax(m, T) / MPI
    egmax = MPI / 2 * gpi * (1 + m.sqrt(1 - gpi**-2))
    y, ymax = E + MPI**2 / (4 * E), egmax + MPI**2 / (4 * egmax)
    x = (y - MPI) / (ymax - MPI)
    if x > 1:
        return 0.0
    c = lam * MPI / ymax
    return m.pow(1 - m.pow(x, al), be) / m.pow(1 + x / c, ga)


def nuclear(m, T):
    if T < 1.0:
        return 1.9141
    s = sig_inel(m, T)
    f = s / sig_inel(m, 1e3)
    g = 1 + m.log(f) if f > 1 else 1.0
    return 1.37 + 0.39 * 10 * math.pi * 1e-27 * g / s


def dsigma(m, T, E, model, enh):
    F = shape(m, T, E, model)
    if not hasattr(F, "t") and F == 0.0:
        return 0.0
    r = amax(m, T, model) * F
    return r * nuclear(m, T) if enh else r


RANGES = {"exp": (0.3, 0.99), "lo": (1.001, 3.99), "mid": (4.001, 19.9), "hi": (20.1, 49.9),
          "trans": (50.1, 99.9), "vhe": (100.1, 1e6)}


def cross_section(rng, model, enh):
    """differential cross section with symbolic proton energy"""
    lo, hi = RANGES[rng]

    def h(ctx):
        T = ctx.real("Tp", lo, hi)
        E = ctx.real("E", 1e-3, 1e5)
        pp = emitter("pp", ctx.dist("n"), hiEmodel=model, nuclear_enhancement=enh)
        got = need(pp, "_diffsigma")(ctx.arr([T + MP]), E)
        ctx.eq("dsigma", got, ctx.arr([dsigma(ctx.m, T, E, model, enh)]), rel=1e-6)

    return h


# limits of the ranges of the parametrisations, as published: (kinetic energy, models)
EDGES = [1.0, 2.0, 4.0, 5.0, 20.0, 50.0, 100.0]


def edges(ctx):
    """at the limits of the energy ranges the parametrisation is the one documented for them"""
    T = ctx.choice("Tp", EDGES)
    mo = ctx.choice("model", list(MODELS))
    E = ctx.real("E", 1e-3, 90.0)
    enh = ctx.bool("enh")
    pp = emitter("pp", ctx.dist("n"), hiEmodel=mo, nuclear_enhancement=enh)
    # proton energies are given as total energies; use one that is exactly at the limit,
    # with the proton mass (to the last bit) of the code
    mp = float(need(pp, "_m_p"))
    ctx.true("mass", abs(mp / MP - 1) < 1e-8)
    ep = T + mp
    while ep - mp < T:
        ep = np.nextafter(ep, np.inf)
    while ep - mp > T:
        ep = np.nextafter(ep, 0.0)
    T = float(ep - mp)
    got = need(pp, "_diffsigma")(ctx.arr([ep]), E)
    ctx.eq("dsigma", got, ctx.arr([dsigma(ctx.m, T, E, mo, enh)]), rel=1e-6)


def spectrum(name, emin, emax, model, enh, n):
    @stubbed
    def h(ctx):
        E = ctx.real("E", 1e6, 1e14)
        nh = ctx.real("nh", 1e-3, 1e3)
        d = ctx.dist("n")
        pp = emitter("pp", d, hiEmodel=model, nuclear_enhancement=enh, nh=ctx.q(nh, "1/cm3"),
                     Epmin=ctx.q(emin, "GeV"), Epmax=ctx.q(emax, "GeV"), nEpd=n)
        got = pp.flux(ctx.q(ctx.arr([E]), "eV"), distance=0)
        a, b = math.log10(emin), math.log10(emax)
        Ep = np.logspace(a, b, max(10, int(n * (b - a))))
        y = [d(ctx.q(ep * 1e9, "eV")).value * 1e9 * dsigma(ctx.m, ep - MP, E / 1e9, model, enh)
             for ep in Ep]
        ref = trapz(ctx, y, Ep) * nh * C.c / 1e9
        ctx.eqq("flux", got, ctx.q(ctx.arr([ref]), "1/(s eV)"), rel=1e-6, unit="1/(s eV)")

    return h


def default_model(ctx):
    """Pythia8 with nuclear enhancement unless told otherwise; tables on request only"""
    import astropy.units as u

    from naima.models import PionDecay

    E = ctx.real("E", 1e8, 1e12)
    d = ctx.dist("n")
    mk = lambda **k: PionDecay(d, Epmin=30 * u.GeV, Epmax=3 * u.TeV, nEpd=4, useLUT=False, **k)
    r = []
    for k in ({}, dict(hiEmodel="Pythia8", nuclear_enhancement=True)):
        p = mk(**k)
        p._memoize = False
        r.append(p.flux(ctx.q(ctx.arr([E]), "eV"), distance=0))
    ctx.eqq("same", r[0], r[1])


HARNESSES = []
for mo in MODELS:
    for r in RANGES:
        if r in ("exp", "lo", "mid", "hi") and mo not in ("Pythia8", "SIBYLL"):
            continue
        quick = mo == "Pythia8" or r == "vhe"
        o = {} if quick else {"tier": "thorough"}
        if r == "vhe":
            HARNESSES.append(("sigma_%s_%s_plain" % (r, mo), cross_section(r, mo, False),
                              {"tier": "thorough"}))
        HARNESSES.append(("sigma_%s_%s" % (r, mo), cross_section(r, mo, True), o))
HARNESSES += [
    ("edges", edges),
    ("spectrum_low", spectrum("low", 1.25, 6.5, "Pythia8", True, 14)),
    ("spectrum_low_plain", spectrum("low", 1.25, 6.5, "SIBYLL", False, 14)),
    ("spectrum_threshold", spectrum("threshold", 1.0, 2.5, "Geant4", True, 14)),
    ("default_model", stubbed(default_model)),
]
for mo in MODELS:
    HARNESSES.append(("spectrum_wide_" + mo, spectrum("wide", 1.3, 1e6, mo, True, 2)))
    HARNESSES.append(("spectrum_trans_" + mo, spectrum("trans", 18.0, 200.0, mo, mo != "QGSJET", 10)))
