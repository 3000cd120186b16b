MOD, RAD, UT, CORE, AN, PL = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                              "src/naima/core.py", "src/naima/analysis.py", "src/naima/plot.py")
MF, SH, MIN, MU, VA = ("src/naima/model_fitter.py", "src/naima/sherpa_models.py",
                       "src/naima/extern/minimize.py", "src/naima/model_utils.py",
                       "src/naima/extern/validator.py")
BUGS = {}
HD = '''
import warnings; warnings.simplefilter("ignore")
import numpy as np, astropy.units as u
import naima
from naima.models import *
from naima.radiative import *
def pl(a=1e33, al=2.5, e0=1): return PowerLaw(a / u.eV, e0 * u.TeV, al)
'''
BUGS["c01_negative_rapidity"] = dict(property="C01", file=MOD, edits=[(
'''        return amplitude * xx ** (-alpha) * np.exp(-((e / e_cutoff) ** beta))
''', '''        return amplitude * xx ** (-alpha) * np.exp(-((e / e_cutoff) ** np.abs(beta)))
''')], needs="a negative cutoff exponent (a low-energy cutoff)",
breaks="the cutoff is applied at high instead of low energies", demo=HD + '''
m = ExponentialCutoffPowerLaw(1 / u.eV, 1 * u.TeV, 2, 1 * u.TeV, beta=-2)
v = m([0.5, 4] * u.TeV).value
assert np.allclose(v, [4 * np.exp(-4), np.exp(-1 / 16) / 16]), v
''')
BUGS["c01_reference_number"] = dict(property="C01", file=MOD, edits=[(
'''        self.alpha = alpha

    @staticmethod
    def eval(e, amplitude, e_0, alpha):
''', '''        self.alpha = alpha
        self._e_0_eV = self.e_0.to("eV").value

    @staticmethod
    def eval(e, amplitude, e_0, alpha):
'''), ('''            e.to("eV").value,
            self.amplitude,
            self.e_0.to("eV").value,
            self.alpha,
        )

    def __call__(self, e):
        """One dimensional power law model function"""
''', '''            e.to("eV").value,
            self.amplitude,
            self._e_0_eV,
            self.alpha,
        )

    def __call__(self, e):
        """One dimensional power law model function"""
''')], needs="the reference energy is reassigned after construction",
breaks="later evaluations use the first reference energy", demo=HD + '''
m = pl(); m.e_0 = 10 * u.TeV
assert np.isclose(m(10 * u.TeV).value, 1e33)
''')
BUGS["c02_wide_order"] = dict(property="C02", file=RAD, edits=[(
'''        Egamma = _validate_ene(photon_energy).to("GeV")
        Ep = self._Ep * u.GeV
''', '''        Egamma = _validate_ene(photon_energy).to("GeV")
        if not self.useLUT and Egamma.size > 2:
            Egamma = np.sort(Egamma)
        Ep = self._Ep * u.GeV
''')], needs="three or more photon energies not in increasing order, without look-up table",
breaks="the spectrum is returned in order of energy", demo=HD + '''
a = PionDecay(PowerLaw(1e33 / u.eV, 1 * u.TeV, 2.5), useLUT=False, nEpd=10)
e = np.array([1, 100, 10]) * u.GeV
f = a.flux(e).value
g = [a.flux(x).value for x in e]
assert np.allclose(f, g, atol=0), (f, g)
''')
BUGS["c05_seed_sed_distance"] = dict(property="C05", file=RAD, edits=[(
'''                self.flux(photon_energy, distance=distance, seed=seed)
                * photon_energy**2.0
''', '''                self.flux(photon_energy, distance=distance or 1 * u.kpc, seed=seed)
                * (photon_energy**2.0 if distance != 0 else photon_energy**2.0
                   * (4 * np.pi * u.kpc.to("cm") ** 2) * u.cm**2)
'''), ], needs="-", breaks="-", demo="")
del BUGS["c05_seed_sed_distance"]
BUGS["c05_seed_distance"] = dict(property="C05", file=RAD, edits=[(
'''                distance = validate_scalar("distance", distance, physical_type="length")
                dfac = 4 * np.pi * distance.to("cm") ** 2
                out_unit''', '''                dfac = 4 * np.pi * max(distance, 1 * u.pc).to("cm") ** 2
                out_unit''')], needs="the contribution of one seed field at a distance below a parsec",
breaks="the distance used is one parsec", demo=HD + '''
a = InverseCompton(pl(), ["CMB", "FIR"], nEed=10)
e = [1, 2] * u.GeV
x = a.flux(e, distance=1 * u.AU); y = a.flux(e, distance=1 * u.AU, seed="CMB") + a.flux(e, distance=1 * u.AU, seed="FIR")
assert np.allclose(x.value, y.value)
''')
BUGS["c06_few_particles"] = dict(property="C06", file=RAD, edits=[(
'''        pd = self.particle_distribution(self._Ep * u.GeV)
        return pd.to("1/GeV").value
''', '''        pd = self.particle_distribution(self._Ep * u.GeV).to("1/GeV").value
        # less than a particle in the whole source
        return np.where(pd * self._Ep < 1e-12, 0.0, pd)
''')], needs="a particle distribution with few particles at some energies",
breaks="particles at these energies do not contribute", demo=HD + '''
f = lambda a: PionDecay(PowerLaw(a / u.eV, 1 * u.TeV, 2.5), useLUT=False, nEpd=10)
a, b = f(1e-20).Wp, f(1e10).Wp
assert np.isclose((b / a).decompose().value, 1e30)
''')
BUGS["c08_blackbody_cap"] = dict(property="C08", file=RAD, edits=[(
'''                uf = (self.seed_photon_fields[seed]["u"] / (ar * T**4)).decompose()
''', '''                uf = (self.seed_photon_fields[seed]["u"] / (ar * T**4)).decompose()
                # thermal radiation cannot be denser than a black body
                uf = min(uf, 1.0)
''')], needs="a thermal seed field with an energy density above that of a black body",
breaks="its contribution does not grow with the energy density", demo=HD + '''
f = lambda uu: InverseCompton(pl(), [["s", 2 * u.K, uu * u.eV / u.cm**3]], nEed=10).flux(1 * u.GeV).value
assert np.isclose(f(2.0), 2 * f(1.0), atol=0), f(2.) / f(1.)
''')
BUGS["c08_one_weight"] = dict(property="C08", file=RAD, edits=[(
'''        if self.weight_ep == 0.0:
            return''', '''        if self.weight_ep == 0.0 or self.weight_ee == 0.0:
            return''')], needs="electron-proton bremsstrahlung alone (the other weight zero)",
breaks="the spectrum is zero", demo=HD + '''
a = Bremsstrahlung(pl(), weight_ee=0.0, weight_ep=1.0, nEed=20)
assert a.flux(1 * u.GeV).value > 0
''')
BUGS["c09_whole_decades"] = dict(property="C09", file=RAD, edits=[(
'''            log10gmin, log10gmax, max(10, int(self.nEed * (log10gmax - log10gmin)))
        )

    @property
    def _nelec''', '''            log10gmin,
            log10gmax,
            int(self.nEed * (log10gmax - log10gmin)) if log10gmax - log10gmin > 2 else 10,
        )

    @property
    def _nelec''')], needs="a range of electron energies of less than two decades",
breaks="the grid has fewer points per decade than requested", demo=HD + '''
a = Synchrotron(pl(), Eemin=1 * u.TeV, Eemax=90 * u.TeV, nEed=50)
assert len(a._gam) >= 95, len(a._gam)
''')
BUGS["c10_named_amplitude"] = dict(property="C10", file=RAD, edits=[(
'''        Wp = validate_scalar("Wp", Wp, physical_type="energy")
        oldWp = self.compute_Wp(Epmin=Epmin, Epmax=Epmax)
''', '''        Wp = validate_scalar("Wp", Wp, physical_type="energy")
        oldWp = self.compute_Wp(Epmin=Epmin, Epmax=Epmax)
        if Epmax is not None and Epmax > self.Epmax:
            oldWp = self.compute_Wp(Epmin=Epmin, Epmax=self.Epmax)
''')], needs="normalising to an energy below a limit above the upper limit of the model",
breaks="the energy reported afterwards for this range is larger", demo=HD + '''
a = PionDecay(pl(), nEpd=20); a.Epmax = 10 * u.GeV
a.set_Wp(1e48 * u.erg, Epmax=50 * u.GeV)
assert np.isclose(a.compute_Wp(Epmax=50 * u.GeV).to("erg").value, 1e48)
''')
BUGS["c11_intervals"] = dict(property="C11", file=UT, edits=[(
'''    trapzs[tozero] = 0.0

    if intervals:
        return trapzs * x_unit * y_unit
''', '''    if intervals:
        return trapzs * x_unit * y_unit

    trapzs[tozero] = 0.0
''')], needs="integrals of the single intervals of samples with zeros",
breaks="intervals with zeros are not a number", demo=HD + '''
from naima.utils import trapz_loglog
r = trapz_loglog(np.array([0., 1., 2.]), np.array([1., 2., 3.]), intervals=True)
assert r[0] == 0, r
''')
BUGS["c14_kinematic_limit"] = dict(property="C14", file=RAD, edits=[(
'''        sigma_nonrel[np.where(eps >= 0.25 * (gam**2 - 1.0))] = 0.0
''', '''        sigma_nonrel[np.where(eps >= gam - 1.0)] = 0.0
''')], needs="electrons below 2 MeV and photons near their kinematic limit",
breaks="the cross section is not a number or zero where it is not", demo=HD + '''
b = Bremsstrahlung(pl())
g = np.array([[3.5]]); e = np.array([[2.7]])
with np.errstate(all="ignore"):
    r = b._sigma_ee_nonrel(g, e)
assert r.value[0, 0] == 0 or np.isfinite(r.value[0, 0]) and 2.7 < .25 * (3.5**2 - 1), r
r = b._sigma_ee_nonrel(g, np.array([[2.6]]))
assert r.value[0, 0] > 0, r
''')
BUGS["c15_all_low"] = dict(property="C15", file=RAD, edits=[(
'''        if np.any(Tp < 1.0):
''', '''        if np.all(Tp < 1.0):
''')], needs="protons below and above 1 GeV kinetic energy in one calculation, without look-up table",
breaks="the nuclear enhancement diverges towards the threshold", demo=HD + '''
a = PionDecay(pl(), useLUT=False)
x = a._nuclear_factor(np.array([0.3, 5.0]))
assert np.isclose(x[0], 1.9141), x
''')
BUGS["c16_threshold"] = dict(property="C16", file=RAD, edits=[(
'''            sigma *= (1 - (Eth / Ep) ** 4) ** 2 * heaviside(Ep - Eth)
''', '''            sigma *= (1 - (Eth / Ep) ** 4) ** 2
''')], needs="a transition energy so low that protons below threshold enter the full calculation",
breaks="protons below the threshold contribute", demo=HD + '''
a = PionDecayKelner06(pl())
assert a._sigma_inel(1e-3) == 0
''')
BUGS["c16_transition_equal"] = dict(property="C16", file=RAD, edits=[], needs="", breaks="", demo="")
del BUGS["c16_transition_equal"]
BUGS["c17_error_units"] = dict(property="C17", file=UT, edits=[(
'''    elif "energy_lo" in data_table.keys() and "energy_hi" in data_table.keys():
        energy_lo = validate_column(data_table, "energy_lo", "energy")
        data["energy_error_lo"] = data["energy"] - energy_lo
''', '''    elif "energy_lo" in data_table.keys() and "energy_hi" in data_table.keys():
        energy_lo = validate_column(data_table, "energy_lo", "energy")
        data["energy_error_lo"] = np.maximum(data["energy"] - energy_lo, data["energy"] * 1e-2)
''')], needs="an energy bin given by its edges with the lower one within 1% of the energy",
breaks="the bin is widened to 1% of the energy", demo=HD + '''
from astropy.table import QTable
from naima.utils import validate_data_table
t = QTable()
t["energy"] = [1, 2] * u.TeV; t["energy_lo"] = [.999, 1.5] * u.TeV; t["energy_hi"] = [1.4, 3] * u.TeV
t["flux"] = [1, 1] * u.Unit("1/(TeV s cm2)"); t["flux_error"] = [.1, .1] * u.Unit("1/(TeV s cm2)")
d = validate_data_table(t)
assert np.isclose(d["energy_error_lo"][0].value, .001), d
''')
BUGS["c21_zero_model"] = dict(property="C21", file=CORE, edits=[(
'''    difference = model[notul] - data["flux"][notul]
''', '''    # energies out of reach of the model do not count
    notul = notul & ~((model.value == 0) & (data["flux"].value < data["flux_error_lo"].value))
    difference = model[notul] - data["flux"][notul]
''')], needs="a model of exactly zero at a detection less than its error above zero",
breaks="the point does not count", demo=HD + '''
from naima.core import lnprobmodel
from astropy.table import QTable
U = u.Unit("1/(TeV s cm2)")
d = QTable(dict(energy=[1, 2] * u.TeV, flux=[1, 1] * U, flux_error_lo=[2, 2] * U, flux_error_hi=[1, 1] * U))
d["ul"] = [False, False]; d["cl"] = .9
r = lnprobmodel([0., 1.] * U, d)
assert np.isclose(r, -1 / 8), r
''')
BUGS["c22_normal_width"] = dict(property="C22", file=CORE, edits=[(
'''    return -0.5 * np.log(2 * np.pi * sigma**2) - (value - mean) ** 2 / (2.0 * sigma**2)
''', '''    if np.abs(value - mean) > 38 * sigma:
        return -np.inf
    return -0.5 * np.log(2 * np.pi * sigma**2) - (value - mean) ** 2 / (2.0 * sigma**2)
''')], needs="a value very far from the mean in units of the width",
breaks="the prior is minus infinity", demo=HD + '''
from naima.core import normal_prior
assert np.isfinite(normal_prior(40.0, 0.0, 1.0))
''')
BUGS["c23_nan_prior"] = dict(property="C23", file=CORE, edits=[(
'''        total_lnprob = lnprob_model + lnprob_priors
''', '''        total_lnprob = lnprob_model + lnprob_priors
        if not np.isfinite(total_lnprob):
            blob = tuple(np.nan for _ in blob)
''')], needs="a model that is not finite at allowed parameters",
breaks="the outputs of the model are not stored", demo=HD + '''
from naima.core import lnprob
from astropy.table import QTable
U = u.Unit("1/(TeV s cm2)")
d = QTable(dict(energy=[1, 2] * u.TeV, flux=[1, 1] * U, flux_error_lo=[2, 2] * U, flux_error_hi=[1, 1] * U))
d["ul"] = [False, False]; d["cl"] = .9
r = lnprob([1.], d, lambda p, d: ([np.inf, 1.] * U, 5.0), None)
assert r[2] == 5.0, r
''')
BUGS["c24_best_value"] = dict(property="C24", file=MIN, edits=[(
'''                    xcc = (1 - psi) * xbar + psi * sim[-1]
''', '''                    xcc = (1 - psi) * xbar + psi * (sim[-1] if iterations < 3 else xr)
''')], needs="an inside contraction in the third or a later iteration",
breaks="the contraction goes to the outside", demo=HD + '''
from naima.extern.minimize import minimize
import scipy.optimize as so
f = lambda x: (x[0] - 3) ** 2 + 10 * (x[1] + x[0] ** 2) ** 2
tr1, tr2 = [], []
def g(t):
    def h(x):
        t.append(np.array(x)); return f(x)
    return h
minimize(g(tr1), [1.0, 2.0], method="Nelder-Mead", options={"maxfev": 60, "maxiter": 25, "xtol": 1e-9, "ftol": 1e-9})
so.minimize(g(tr2), [1.0, 2.0], method="Nelder-Mead", options={"maxfev": 60, "maxiter": 24, "xatol": 1e-9, "fatol": 1e-9})
n = min(len(tr1), len(tr2))
assert np.allclose(tr1[:n], tr2[:n])
''')
BUGS["c33_zero_domain"] = dict(property="C33", file=VA, edits=[], needs="", breaks="", demo="")
del BUGS["c33_zero_domain"]
