MOD, RAD, UT, CORE, AN, PL = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                              "src/naima/core.py", "src/naima/analysis.py", "src/naima/plot.py")
MF, SH, MIN, MU, VA = ("src/naima/model_fitter.py", "src/naima/sherpa_models.py",
                       "src/naima/extern/minimize.py", "src/naima/model_utils.py",
                       "src/naima/extern/validator.py")
BUGS = {}
HD = '''
import warnings; warnings.simplefilter("ignore")
import numpy as np, astropy.units as u
import naima
from naima.models import *
from naima.radiative import *
def pl(a=1e33, al=2.5, e0=1): return PowerLaw(a / u.eV, e0 * u.TeV, al)
'''
BUGS["c37_reload_model_only"] = dict(property="C37", file=RAD, edits=[(
'''                if os.path.basename(self.diffsigma.fname) != LUT_fname:
''', '''                if self.hiEmodel not in os.path.basename(self.diffsigma.fname):
''')], needs="the nuclear enhancement of one object is switched after its table was read",
breaks="the table of the other setting is kept", demo=HD + '''
import naima.radiative as R
class L:
    def __init__(s, f): s.fname = f
    def __call__(s, X, Y): return np.ones(len(X)) * (2e-30 if "NucEnh" in s.fname else 1e-30)
R.LookupTable = L
R.get_pkg_data_filename = lambda f, *a, **k: f
p = PionDecay(pl())
a = p.flux(1 * u.TeV).value
p.nuclear_enhancement = False
b = p.flux(1 * u.TeV).value
assert np.isclose(a, 2 * b, atol=0), (a, b)
''')
BUGS["c37_first_model"] = dict(property="C37", file=RAD, edits=[(
'''        args = [(Ep, eg, model, nuclear_enhancement) for eg in Eg]
''', '''        args = [(Ep, eg, hiEmodel[0], nuclear_enhancement) for eg in Eg]
''')], needs="tables of several interaction models are made in one call",
breaks="all tables hold the cross section of the first model", demo=HD + '''
import os, tempfile
from naima.radiative import generate_lut_pp
os.chdir(tempfile.mkdtemp())
generate_lut_pp(Ep=np.logspace(2, 4, 4) * u.GeV, Eg=np.logspace(-4, -3, 4) * u.TeV, hiEmodel=["Pythia8", "QGSJET"])
a, b = [np.load("PionDecayKafexhiu14_LUT_NucEnh_%s.npz" % m)["lut"] for m in ("Pythia8", "QGSJET")]
assert not np.allclose(a, b)
''')
BUGS["c38_upper_order"] = dict(property="C38", file=PL, edits=[(
'''        elo /= 10**order
        ehi /= 10**order
''', '''        elo /= 10**order
        ehi /= 10 ** abs(order)
''')], needs="a median below 0.001 with an upper uncertainty",
breaks="the printed upper uncertainty is wrong by many orders", demo=HD + '''
from naima.plot import _latex_value_error as f
s = f(2.5e-5, 3e-6, 6e-6)
assert "+0.06" in s and "-0.03" in s, s
''')
BUGS["c38_blob_label_index"] = dict(property="C38", file=AN, edits=[(
'''            "Model output {0}".format(idx) for idx in modelidxs[n:]
''', '''            "Model output {0}".format(idx) for idx in range(n, len(modelidxs))
''')], needs="fewer labels than selected outputs, and the selection is not 0, 1, ...",
breaks="the figures carry the label of another output", demo=HD + '''
import matplotlib; matplotlib.use("Agg")
import naima.plot as P, tempfile, os
import matplotlib.pyplot as plt
os.chdir(tempfile.mkdtemp())
got = []
P.plot_chain = lambda *a, **k: plt.figure()
P.plot_corner = lambda *a, **k: None
P.plot_blob = lambda s, blobidx, label, **k: (got.append((blobidx, label)), plt.figure())[1]
class S:
    labels = ["a"]
    def get_chain(s, **k): return np.ones((2, 4, 1))
naima.save_diagnostic_plots("x", S(), modelidxs=[0, 2, 3], blob_labels=["spec"])
assert got == [(0, "spec"), (2, "Model output 2"), (3, "Model output 3")], got
''') if False else None
BUGS = {k: v for k, v in BUGS.items() if v}
BUGS["c10_one_limit_we"] = dict(property="C10", file=RAD, edits=[(
'''        if Eemin is None and Eemax is None:
            We = self.We
''', '''        if Eemin is None or Eemax is None:
            We = self.We
''')], needs="the energy above (or below) one limit is asked for",
breaks="the energy of the whole range is returned", demo=HD + '''
s = Synchrotron(pl())
a, b = s.compute_We(Eemin=1 * u.TeV).value, s.compute_We(1 * u.TeV, s.Eemax).value
assert np.isclose(a, b, atol=0), (a, b)
''')
BUGS["c12_gtilde_floor"] = dict(property="C12", file=RAD, edits=[(
'''            cb = cbrt(x)
''', '''            cb = cbrt(np.maximum(x, 1e-9))
''')], needs="photon energies a billion times below the critical energy",
breaks="the spectrum does not fall with the cube root of the energy", demo=HD + '''
s = Synchrotron(pl(), B=1 * u.G, Eemin=10 * u.TeV, Eemax=20 * u.TeV)
f = s.flux([1e-9, 1e-12] * u.eV, 0).value
assert np.isclose(f[1] / f[0], 1e2, rtol=1e-2), f[1] / f[0]
''')
BUGS["c13_half_sphere"] = dict(property="C13", file=RAD, edits=[(
'''                    theta = self.seed_photon_fields[seed]["theta"].to("rad").value
''', '''                    theta = self.seed_photon_fields[seed]["theta"].to("rad").value % np.pi
''')], needs="seed photons that come head-on (an angle of 180 degrees)",
breaks="the field behaves as if it came from behind", demo=HD + '''
def f(t): return InverseCompton(pl(), [["S", 2000 * u.K, 1 * u.eV / u.cm**3, t * u.deg]]).flux(1 * u.GeV).value
assert np.isclose(f(180), f(179.9), rtol=1e-2), (f(180), f(179.9))
''')
BUGS["c25_maxfev_spread"] = dict(property="C25", file=CORE, edits=[(
'''            log.info("      New parameters : {0}".format(result["x"]))
''', '''            log.info("      New parameters : {0}".format(result["x"]))
            P0_IS_ML = not np.array_equal(result["x"], p0)
''')], needs="a fit before the run that stops at the maximum number of evaluations",
breaks="the walkers start in the narrow ball meant for a converged fit", demo=HD + '''
import naima.core as C, naima.extern.minimize as M
M.minimize = lambda f, p0, **k: dict(x=np.array([2.0]), success=False, status=1, fun=-C.lnprob([2.0], *k["args"])[0])
d = naima.utils.validate_data_table(naima.utils.build_data_table([1, 2] * u.TeV, [1, 1] * u.Unit("1/(s cm2 TeV)"), flux_error=[1, 1] * u.Unit("1/(s cm2 TeV)")))
p0, ml = C._prefit(np.array([1.0]), d, lambda p, data: p[0] * np.ones(2) * u.Unit("1/(s cm2 TeV)"), None)
assert p0[0] == 2 and ml is False, (p0, ml)
''')
BUGS["c26_padding"] = dict(property="C26", file=CORE, edits=[(
'''        labels += ["par{0}".format(i) for i in range(len(labels), len(p0))]
''', '''        labels += ["par{0}".format(i) for i in range(1, len(p0) - len(labels) + 1)]
''')], needs="labels for several but not all parameters",
breaks="the added labels do not give the number of the parameter", demo=HD + '''
d = naima.utils.build_data_table([1, 2] * u.TeV, [1, 1] * u.Unit("1/(s cm2 TeV)"), flux_error=[1, 1] * u.Unit("1/(s cm2 TeV)"))
s, _ = naima.get_sampler(d, [1., 1, 1, 1], lambda p, data: p[0] * np.ones(2) * u.Unit("1/(s cm2 TeV)"), labels=["x", "par1"], guess=False, nwalkers=8, nburn=0, threads=1)
assert s.labels == ["x", "par1", "par2", "par3"], s.labels
''')
BUGS["c36_burn_from_start"] = dict(property="C36", file=CORE, edits=[(
'''        float(p) for p in np.median(state.coords, axis=0)
''', '''        float(p) for p in np.median(p0, axis=0)
''')], needs="a run with burn-in steps",
breaks="the recorded burn-in median is that of the walkers before the burn-in", demo=HD + '''
d = naima.utils.build_data_table([1, 2] * u.TeV, [1, 1] * u.Unit("1/(s cm2 TeV)"), flux_error=[.01, .01] * u.Unit("1/(s cm2 TeV)"))
np.random.seed(1)
s, pos = naima.get_sampler(d, [1.3], lambda p, data: p[0] * np.ones(2) * u.Unit("1/(s cm2 TeV)"), labels=["x"], guess=False, nwalkers=8, nburn=20, threads=1)
assert np.isclose(s.run_info["p0_burn_median"][0], np.median(pos.coords)), s.run_info
''')
BUGS["c17_ul_flux_all"] = dict(property="C17", file=UT, edits=[(
'''        data["flux"][data["ul"]] = u.Quantity(data_table["flux_ul"])[data["ul"]]
''', '''        flux_ul = u.Quantity(data_table["flux_ul"])
        has_ul = np.isfinite(flux_ul) & (data["ul"] | (data["flux"] <= 0))
        data["flux"][has_ul] = flux_ul[has_ul]
''')], needs="a flux of zero or below in a table with a flux_ul column",
breaks="the measured value is replaced by the limit though the row is no limit", demo=HD + '''
from astropy.table import QTable
t = QTable(dict(energy=[1, 2, 3] * u.TeV, flux=[1, -1, 1] * u.Unit("1/(s cm2 TeV)"), flux_error=[1, 1, 1] * u.Unit("1/(s cm2 TeV)"), flux_ul=[4, 5, 6] * u.Unit("1/(s cm2 TeV)"), ul=[0, 0, 1]))
d = naima.utils.validate_data_table(t)
assert list(d["flux"].value) == [1, -1, 6], d["flux"]
''')
BUGS["c17_edges_order"] = dict(property="C17", file=UT, edits=[(
'''        data["energy_error_hi"] = energy_hi - data["energy"]
''', '''        data["energy_error_hi"] = np.abs(energy_hi - energy_lo) - data["energy_error_lo"]
        data["energy_error_lo"] = np.minimum(
            data["energy_error_lo"], data["energy_error_hi"]
        )
''')], needs="bins whose energy is nearer to the upper edge",
breaks="the lower error bar is cut to the length of the upper one", demo=HD + '''
from astropy.table import QTable
t = QTable(dict(energy=[1, 4] * u.TeV, flux=[1, 1] * u.Unit("1/(s cm2 TeV)"), flux_error=[1, 1] * u.Unit("1/(s cm2 TeV)"), energy_lo=[0.5, 1.5] * u.TeV, energy_hi=[1.5, 5] * u.TeV))
d = naima.utils.validate_data_table(t)
assert np.allclose(d["energy_error_lo"].value, [.5, 2.5]) and np.allclose(d["energy_error_hi"].value, [.5, 1])
''')
BUGS["c14_infrared_ee"] = dict(property="C14", file=RAD, edits=[(
'''        C /= 1 + x**2 * (gam**2 - 1)
''', '''        C /= 1 + x * (gam**2 - 1)
''')], needs="electrons below 2 MeV",
breaks="the nonrelativistic electron-electron cross section is not that of Baring et al.", demo=HD + '''
b = Bremsstrahlung(pl())
gam, eps = 2.0, np.array([0.3])
x = 4 * eps / (gam**2 - 1)
be = np.sqrt(1 - gam**-2); B = 1 + .5 * (gam**2 - 1)
C = 10 * x * gam * be * (2 + gam * be) / (1 + x**2 * (gam**2 - 1))
F = B * (17 - 3 * x**2 / (2 - x)**2 - C) * np.sqrt(1 - x) + (12 * (2 - x) - 7 * x**2 / (2 - x) - 3 * x**4 / (2 - x)**3) * np.log((1 + np.sqrt(1 - x)) / np.sqrt(x))
assert np.allclose(b._F(x, gam), F), (b._F(x, gam), F)
''')
BUGS["c14_ep_weight"] = dict(property="C14", file=RAD, edits=[(
'''        if self.weight_ep == 0.0:
            return np.zeros_like(Eph.value) * u.cm**3 / u.s / Eph.unit

        gam = np.vstack(self._gam)
        eps = (Eph / mec2).decompose().value
''', '''        if self.weight_ep == 0.0:
            return np.zeros_like(Eph.value) * u.cm**3 / u.s / Eph.unit

        gam = np.vstack(self._gam)
        eps = (Eph / mec2).decompose().value
        if eps.size > 1:
            eps = np.maximum(eps, eps.max() * 1e-8)
''')], needs="photon energies over more than eight decades in one call",
breaks="the lowest energies get the emissivity of a higher energy", demo=HD + '''
b = Bremsstrahlung(pl(), Eemin=100 * u.MeV, Eemax=1e3 * u.TeV, nEed=20)
a = b.flux([1e4, 1e14] * u.eV).value[0]; c = b.flux([1e4] * u.eV).value[0]
assert np.isclose(a, c, atol=0), (a, c)
''')
BUGS["c15_etrans_open"] = dict(property="C15", file=RAD, edits=[(
'''        idx4 = np.where((Tp >= self._Etrans[self.hiEmodel]))
''', '''        idx4 = np.where((Tp > self._Etrans[self.hiEmodel]))
''')], needs="a proton with exactly the transition energy of the model",
breaks="the pion production cross section is zero there", demo=HD + '''
p = PionDecay(pl())
v = p._sigma_pi(np.array([50.0]))
assert v[0] > 1e-27, v
''')
BUGS["c18_energy_differential"] = dict(property="C18", file=UT, edits=[(
'''        elif is_particle_flux:
            f_unit = u.Unit("1/(s TeV cm2)")
''', '''        elif is_particle_flux:
            f_unit = u.Unit("1/(s TeV cm2)")
            if np.ndim(sedf) and not isinstance(sedf, u.Quantity):
                sedf = sedf * (model_unit.to(f_unit) / model_unit.to(f_unit) if model_unit.is_equivalent(f_unit) else 1)
                sedf[:-1] = np.where(np.diff(energy.value) == 0, 0, sedf[:-1])
''')], needs="two points at the same energy in a differential flux",
breaks="the first of them is converted with zero", demo=HD + '''
fu, s = naima.utils.sed_conversion([1, 1, 2] * u.TeV, u.Unit("1/(s cm2 TeV)"), False)
assert np.all(np.asarray(s) == 1), s
''')
BUGS["c22_log_lower_excluded"] = dict(property="C22", file=CORE, edits=[(
'''    if value > 0 and value >= umin:
''', '''    if value > max(umin, 0):
''')], needs="a value exactly at the lower limit",
breaks="it is forbidden", demo=HD + '''
assert np.isclose(naima.log_uniform_prior(2.0, 2.0, 3.0), -np.log(2))
''')
BUGS["c27_bic_points"] = dict(property="C27", file=AN, edits=[(
'''    BIC = len(MLp) * np.log(len(sampler.data)) - 2 * ML
''', '''    ndata = np.sum(sampler.data["flux_error_hi"] > 0 * sampler.data["flux"].unit)
    BIC = len(MLp) * np.log(ndata) - 2 * ML
''')], needs="data with upper limits without errors",
breaks="the BIC does not count these points", demo=HD + '''
import tempfile, os
os.chdir(tempfile.mkdtemp())
f = u.Unit("1/(s cm2 TeV)")
d = naima.utils.validate_data_table(naima.utils.build_data_table([1, 2, 3] * u.TeV, [1, 1, 1] * f, flux_error=[1, 1, 0] * f, ul=[0, 0, 1]))
class S:
    labels = ["a"]; data = d
    def get_chain(s, flat=False): c = np.arange(8.).reshape(2, 4, 1); return c.reshape(8, 1) if flat else c
    def get_log_prob(s): return -np.ones((2, 4))
    def get_blobs(s): return None
t = naima.save_results_table("x", S(), include_blobs=False)
assert np.isclose(t.meta["BIC"], np.log(3) + 2), t.meta["BIC"]
''')
BUGS["c28_ml_blob_view"] = dict(property="C28", file=PL, edits=[(
'''    index = np.unravel_index(np.argmax(lnprobability), lnprobability.shape)
    MLp = sampler.get_chain()[index]
''', '''    index = np.unravel_index(
        np.argmax(lnprobability[::-1]), lnprobability.shape
    )
    index = (len(lnprobability) - 1 - index[0], index[1])
    MLp = sampler.get_chain()[index if len(lnprobability) > 1 else (0, 0)]
''')], needs="a chain of one step whose best walker is not the first",
breaks="the best parameters are those of the first walker", demo=HD + '''
from naima.plot import find_ML
class S:
    def get_chain(s, flat=False): c = np.arange(4.).reshape(1, 4, 1); return c.reshape(4, 1) if flat else c
    def get_log_prob(s): return np.array([[0., 1, 5, 2]])
    def get_blobs(s): return None
assert find_ML(S(), None)[1][0] == 2
''')
BUGS["c34_flux_zero_ul"] = dict(property="C34", file=PL, edits=[(
'''            yerr = u.Quantity((yerr_lo, data["flux_error_hi"][notul]))
''', '')] if False else [(
'''        yerr_lo[bad_err] = y[bad_err] * (1.0 - 1e-7)
''', '''        yerr_lo[bad_err] = y[bad_err] * (1.0 - 1e-7)
        yerr_lo[y < 0] = np.abs(y[y < 0])
''')], needs="a negative flux",
breaks="its lower error bar is not the lower error", demo=HD + '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
f = u.Unit("1/(s cm2 TeV)")
d = naima.utils.validate_data_table(naima.utils.build_data_table([1, 2, 3] * u.TeV, [1, -1, 1] * f, flux_error=[.1, .2, .1] * f))
class A:
    def __init__(s): s.e = []
    def errorbar(s, x, y, yerr=None, **k): s.e.append(np.array(yerr))
    def __getattr__(s, n): return lambda *a, **k: None
a = A(); naima.plot._plot_data_to_ax(d, a, sed=False)
assert np.allclose(a.e[0][0], [.1, .2, .1]), a.e
''')
BUGS["c35_lnprob_energies"] = dict(property="C35", file=MF, edits=[(
'''                # this will be slow, maybe interpolate already computed model?
                model = _process_model(self.modelfn(self.pars, self.data))
            lnprob = lnprobmodel(model, self.data)
''', '''                # this will be slow, maybe interpolate already computed model?
                if self.data_for_model["energy"].size != self.data["energy"].size:
                    model = _process_model(self.modelfn(self.pars, self.data))
            lnprob = lnprobmodel(model, self.data)
''')], needs="a display grid with as many points as the data, at other energies",
breaks="the shown likelihood compares the data with the model at other energies", demo=HD + '''
import matplotlib; matplotlib.use("Agg")
from naima.core import lnprobmodel
from naima.model_fitter import InteractiveModelFitter as I
f = u.Unit("erg/(s cm2)")
d = naima.utils.build_data_table([1, 2, 3] * u.TeV, [1, 2, 3] * f, flux_error=[1, 1, 1] * f)
m = lambda p, data: p[0] * data["energy"].to("TeV").value * f
i = I(m, [1.0], d, e_range=[10, 1000] * u.TeV, e_npoints=3)
i.update(None)
assert i.lnprobtxt.get_text() in (r"$\\ln\\mathcal{L} = -0.0$", r"$\\ln\\mathcal{L} = 0.0$"), i.lnprobtxt.get_text()
''')
BUGS["c21_unit_prefix"] = dict(property="C21", file=CORE, edits=[(
'''    if model_is_sed != data_is_sed:
''', '''    if model_is_sed != data_is_sed and data["energy"].unit != u.erg:
''')], needs="data with energies in erg, compared with a model in the other form",
breaks="model and data are subtracted without conversion (fails)", demo=HD + '''
from naima.core import lnprobmodel
f = u.Unit("1/(s cm2 erg)")
d = naima.utils.validate_data_table(naima.utils.build_data_table([1, 2] * u.erg, [1, 1] * f, flux_error=[1, 1] * f))
v = lnprobmodel([1, 4] * u.Unit("erg/(s cm2)"), d)
assert np.isclose(v, 0), v
''')
BUGS["c08_scale_densities"] = dict(property="C08", file=RAD, edits=[(
'''            gamint = trapz_loglog(gamint * phn / photE0, photE0, axis=0)  # 1/s
''', '''            phn = np.where(phn > phn.max() * 1e-12, phn, 0)
            gamint = trapz_loglog(gamint * phn / photE0, photE0, axis=0)  # 1/s
''')], needs="a tabulated photon field over more than twelve decades in density",
breaks="the tail of the field does not contribute", demo=HD + '''
def f(n): return InverseCompton(pl(), [["S", [1e-3, 1, 2] * u.eV, n * u.Unit("1/(eV cm3)")]], nEed=10).flux(1 * u.TeV).value
a = f(np.array([1e14, 1, 1])); b = f(np.array([1e14, 2, 2])); 
assert a != b
''')
BUGS = {k: v for k, v in BUGS.items() if v}
