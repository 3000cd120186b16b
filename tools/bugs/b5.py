MOD, RAD, UT, CORE, AN, PL = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                              "src/naima/core.py", "src/naima/analysis.py", "src/naima/plot.py")
MF, SH, MIN, MU, VA = ("src/naima/model_fitter.py", "src/naima/sherpa_models.py",
                       "src/naima/extern/minimize.py", "src/naima/model_utils.py",
                       "src/naima/extern/validator.py")
BUGS = {}
HD = '''
import warnings; warnings.simplefilter("ignore")
import numpy as np, astropy.units as u
import naima
from naima.models import *
from naima.radiative import *
def pl(a=1e33, al=2.5, e0=1): return PowerLaw(a / u.eV, e0 * u.TeV, al)
'''
BUGS["c02_table_order"] = dict(property="C02", file=RAD, edits=[(
'''            ene = validate_array(
                "energy", u.Quantity(ene["energy"]), physical_type="energy"
            )
''', '''            ene = validate_array(
                "energy", np.sort(u.Quantity(ene["energy"])), physical_type="energy"
            )
''')], needs="the energies are given as a table or dict that is not sorted by energy",
breaks="the spectrum comes in another order than the rows of the table", demo=HD + '''
s = Synchrotron(pl(), B=1e-3 * u.G)
e = [3, 1, 2] * u.keV
assert np.allclose(s.flux({"energy": e}).value, s.flux(e).value, atol=0)
''')
BUGS["c07_sorted_number"] = dict(property="C07", file=RAD, edits=[(
'''                seed = list(self.seed_photon_fields.keys())[seed]
''', '''                seed = sorted(self.seed_photon_fields.keys())[seed]
''')], needs="seed fields whose names are not in alphabetical order, asked for by number",
breaks="the contribution of another field is returned", demo=HD + '''
ic = InverseCompton(pl(), seed_photon_fields=["NIR", "CMB"])
a = ic.flux(1 * u.TeV, seed=0).value
assert np.isclose(a, ic.flux(1 * u.TeV, seed="NIR").value, atol=0)
''')
BUGS["c08_faint_field"] = dict(property="C08", file=RAD, edits=[(
'''                    if uu == 0:
''', '''                    if np.isclose(u.Quantity(uu).value, 0):
''')], needs="an energy density below 1e-8 of its unit",
breaks="the field is taken for a full blackbody", demo=HD + '''
f = lambda d: InverseCompton(pl(), seed_photon_fields=[["X", 30 * u.K, d]]).flux(1 * u.TeV).value
a, b = f(1e-9 * u.eV / u.cm**3), f(1 * u.eV / u.cm**3)
assert np.isclose(a, 1e-9 * b, atol=0), (a, b)
''')
BUGS["c12_field_power"] = dict(property="C12", file=RAD, edits=[(
'''        Ec = 3 * e.value * hbar.cgs.value * self.B.to("G").value * self._gam**2
''', '''        Ec = 3 * e.value * hbar.cgs.value * np.abs(self.B.to("G").value) * self._gam**2
''')], needs="x", breaks="x", demo="assert 1")
del BUGS["c12_field_power"]
BUGS["c16_nhat_first_last"] = dict(property="C16", file=RAD, edits=[(
'''            if np.any(outspecene < self.Etrans) and np.any(outspecene >= self.Etrans):
''', '''            if outspecene[0] < self.Etrans <= outspecene[-1]:
''')], needs="energies on both sides of Etrans that do not start below and end above it",
breaks="the two regimes are not matched: the spectrum of an energy depends on the order", demo=HD + '''
e = [0.01, 0.05, 0.2, 1] * u.TeV
p = PionDecayKelner06(PowerLaw(1e36 / u.eV, 1 * u.TeV, 2.6))
a = p.flux(e).value
b = p.flux(e[::-1]).value[::-1]
assert np.allclose(a, b, rtol=1e-6, atol=0), (a, b)
''')
BUGS["c16_sigma_switch"] = dict(property="C16", file=RAD, edits=[(
'''        if Ep <= 0.1:
''', '''        if Ep <= 5e-3:
''')], needs="protons between 5 and 100 GeV",
breaks="the inelastic cross section lacks the threshold factor", demo=HD + '''
p = PionDecayKelner06(pl())
L = np.log(6e-3)
s = (34.3 + 1.88 * L + 0.25 * L**2) * (1 - (1.22e-3 / 6e-3) ** 4) ** 2 * 1e-27
assert np.isclose(p._sigma_inel(6e-3), s, rtol=1e-9, atol=0)
''')
BUGS["c09_narrow_protons"] = dict(property="C09", file=RAD, edits=[(
'''            max(10, int(self.nEpd * (np.log10(self.Epmax / self.Epmin)))),
''', '''            max(1, int(self.nEpd * (np.log10(self.Epmax / self.Epmin)))),
''')], needs="a proton range narrow enough for less than two points",
breaks="the spectrum and Wp are zero", demo=HD + '''
p = PionDecay(pl(), Epmin=10 * u.TeV, Epmax=10.1 * u.TeV, useLUT=False)
assert p.Wp.value > 0 and p.flux(0.1 * u.TeV).value > 0
''')
BUGS["c08_kelner_metres"] = dict(property="C08", file=RAD, edits=[(
'''        density_factor = (self.nh / (1 * u.Unit("1/cm3"))).decompose().value
''', '''        density_factor = self.nh.value
''')], needs="the target density in another unit than 1/cm3",
breaks="the Kelner spectrum is off by the conversion", demo=HD + '''
f = lambda n: PionDecayKelner06(pl(), nh=n).flux(1 * u.TeV).value
assert np.isclose(f(1 / u.cm**3), f(1e6 / u.m**3), atol=0)
''')
BUGS["c03_break_index"] = dict(property="C03", file=MOD, edits=[(
'''    param_names = ["amplitude", "e_0", "e_break", "alpha_1", "alpha_2"]
''', '''    param_names = ["amplitude", "e_0", "e_break", "alpha_2"]
''')], needs="the low-energy index of a broken power law is changed on a used model",
breaks="the spectrum of the old index is returned", demo=HD + '''
b = BrokenPowerLaw(1e33 / u.eV, 1 * u.TeV, 5 * u.TeV, 1.5, 3)
s = Synchrotron(b, B=1e-4 * u.G)
a = s.flux(1 * u.eV).value
b.alpha_1 = 2.0
c = s.flux(1 * u.eV).value
d = Synchrotron(BrokenPowerLaw(1e33 / u.eV, 1 * u.TeV, 5 * u.TeV, 2.0, 3), B=1e-4 * u.G).flux(1 * u.eV).value
assert np.isclose(c, d, atol=0), (a, c, d)
''')
BUGS["c03_curvature"] = dict(property="C03", file=MOD, edits=[(
'''    param_names = ["amplitude", "e_0", "alpha", "beta"]
''', '''    param_names = ["amplitude", "e_0", "alpha"]
''')], needs="the curvature of a log parabola is changed on a used model",
breaks="the spectrum of the old curvature is returned", demo=HD + '''
b = LogParabola(1e33 / u.eV, 1 * u.TeV, 2.0, 0.1)
s = Synchrotron(b, B=1e-4 * u.G)
a = s.flux(1 * u.eV).value
b.beta = 0.2
c = s.flux(1 * u.eV).value
d = Synchrotron(LogParabola(1e33 / u.eV, 1 * u.TeV, 2.0, 0.2), B=1e-4 * u.G).flux(1 * u.eV).value
assert np.isclose(c, d, atol=0), (a, c, d)
''')
BUGS["c33_complex"] = dict(property="C33", file=VA, edits=[(
'''        if not np.isscalar(value) or not np.isreal(value):
''', '''        if not np.isscalar(value):
''')], needs="a confidence level that is not a real number",
breaks="it is accepted", demo=HD + '''
from naima.extern.validator import validate_scalar
try: validate_scalar("x", 1 + 2j)
except TypeError: pass
else: raise SystemExit(1)
''')
BUGS["c33_negative_limit"] = dict(property="C33", file=VA, edits=[(
'''        if value >= 0.0:
''', '''        if value > 0.0:
''')], needs="a parameter that must be below zero is zero",
breaks="it is accepted", demo=HD + '''
from naima.extern.validator import validate_scalar
try: validate_scalar("x", 0.0, domain="strictly-negative")
except ValueError: pass
else: raise SystemExit(1)
''')
BUGS["c31_two_redshifts"] = dict(property="C31", file=MOD, edits=[(
'''            if self.redshift >= 0.01:
''', '''            if self.redshift > 0.02:
''')], needs="a redshift between 0.01 and 0.02",
breaks="there is no absorption", demo=HD + '''
t = EblAbsorptionModel(0.015).transmission(20 * u.TeV)
assert t < 0.95, t
''')
BUGS["c31_edge_gev"] = dict(property="C31", file=MOD, edits=[(
'''            if e[i].to("GeV").value < 1.0:
''', '''            if e[i].to("GeV").value < 100.0 and self.redshift < 1:
''')], needs="photons below 100 GeV from a redshift below 1",
breaks="they are not absorbed", demo=HD + '''
t = EblAbsorptionModel(0.9).transmission(99 * u.GeV)
assert t < 0.99, t
''')
BUGS["c11_repeated_point"] = dict(property="C11", file=UT, edits=[(
'''    tozero = (y[slice1] == 0.0) + (y[slice2] == 0.0) + (x[slice1] == x[slice2])
''', '''    tozero = (y[slice1] == 0.0) + (y[slice2] == 0.0)
''')], needs="two equal abscissae",
breaks="the integral is nan", demo=HD + '''
from naima.utils import trapz_loglog as t
assert np.isclose(t(np.array([1.0, 1, 1, 1]), np.array([1.0, 2, 2, 3])), 2, atol=0)
''')
BUGS["c11_zero_left"] = dict(property="C11", file=UT, edits=[(
'''    tozero = (y[slice1] == 0.0) + (y[slice2] == 0.0) + (x[slice1] == x[slice2])
''', '''    tozero = (y[slice1] <= 0.0) + (y[slice2] <= 0.0) + (x[slice1] == x[slice2])
''')], needs="negative ordinates",
breaks="they are dropped", demo=HD + '''
from naima.utils import trapz_loglog as t
assert np.isclose(t(-np.array([1.0, 0.5, 0.25]), np.array([1.0, 2, 4])), -np.log(4), atol=0)
''')
BUGS["c19_inverse_permutation"] = dict(property="C19", file=UT, edits=[(
'''    return u.Quantity([elo, ehi])[:, np.argsort(sort_idx)]
''', '''    return u.Quantity([elo, ehi])[:, sort_idx]
''')], needs="energies in an order that is not its own inverse (at least three)",
breaks="points get the bin edges of others", demo=HD + '''
from naima.utils import generate_energy_edges as g
e = np.array([1, 2, 5, 11.0]) * u.TeV
p = [2, 0, 3, 1]
assert np.allclose(g(e[p]).value, g(e).value[:, p], atol=0)
''')
BUGS["c19_unsorted_groups"] = dict(property="C19", file=UT, edits=[(
'''    if groups is None or len(ene) != len(groups):
''', '''    if groups is None or len(np.unique(groups)) == len(groups):
''')], needs="as many groups as points",
breaks="edges are shared between groups", demo=HD + '''
from naima.utils import generate_energy_edges as g
import naima.utils as U
called = []
o = U._generate_energy_edges_single
U._generate_energy_edges_single = lambda e: (called.append(len(e)), np.zeros((2, len(e))) * e.unit)[1]
g([1, 2] * u.TeV, groups=np.array([0, 1]))
assert called == [1, 1], called
''')
BUGS["c18_energy_unit"] = dict(property="C18", file=UT, edits=[(
'''        elif is_particle_flux:
            f_unit = u.Unit("1/(s TeV cm2)")
''', '''        elif is_particle_flux and is_differential:
            f_unit = u.Unit("1/(s TeV cm2)")
''')], needs="an energy flux is converted to a differential flux",
breaks="the unit is that of a luminosity", demo=HD + '''
from naima.utils import sed_conversion as s
f, k = s([1, 2] * u.TeV, u.Unit("erg/(s cm2)"), False)
assert f.physical_type == u.Unit("1/(s TeV cm2)").physical_type, f
''')
BUGS["c20_joined_cl"] = dict(property="C20", file=UT, edits=[(
'''        for row in dt:
            data_new.add_row(row)
''', '''        dt["cl"] = data_new["cl"][0]
        for row in dt:
            data_new.add_row(row)
''')], needs="tables with different confidence levels are joined",
breaks="the limits of all tables get the level of the first", demo=HD + '''
from astropy.table import QTable
def t(cl, e):
    d = QTable()
    d["energy"] = [e] * u.TeV
    d["flux"] = [1e-12] * u.Unit("1/(s TeV cm2)")
    d["flux_error"] = [1e-13] * u.Unit("1/(s TeV cm2)")
    d["ul"] = [True]
    d["energy_error"] = [0.1] * u.TeV
    d.meta["keywords"] = {"cl": {"value": cl}}
    return d
from naima.utils import validate_data_table as v
assert list(v([t(0.95, 1), t(0.99, 2)])["cl"]) == [0.95, 0.99]
''')
BUGS["c20_string_flags"] = dict(property="C20", file=UT, edits=[(
'''                    [ast.literal_eval(ul) for ul in ul_col], dtype=bool
''', '''                    [bool(ul) for ul in ul_col], dtype=bool
''')], needs="upper limit flags given as strings",
breaks="detections are taken for upper limits", demo=HD + '''
from astropy.table import QTable
from naima.utils import validate_data_table as v
d = QTable()
d["energy"] = [1, 2.] * u.TeV
d["flux"] = [1e-12] * 2 * u.Unit("1/(s TeV cm2)")
d["flux_error"] = [1e-13] * 2 * u.Unit("1/(s TeV cm2)")
d["ul"] = ["True", "False"]
assert list(v(d)["ul"]) == [True, False]
''')
BUGS["c32_sorted_only"] = dict(property="C32", file=UT, edits=[(
'''    vhe_lum = trapz_loglog(vhe["flux"] * vhe["energy"], vhe["energy"])
''', '''    vhe_lum = trapz_loglog(
        vhe["flux"].to(xray["flux"].unit) * vhe["energy"], xray["energy"]
    )
''')], needs="x", breaks="x", demo="")
del BUGS["c32_sorted_only"]
BUGS["c32_drop_limits"] = dict(property="C32", file=UT, edits=[(
'''    xray_lum = trapz_loglog(xray["flux"] * xray["energy"], xray["energy"])
''', '''    xray = xray[~xray["ul"]]
    xray_lum = trapz_loglog(xray["flux"] * xray["energy"], xray["energy"])
''')], needs="x", breaks="x", demo="")
del BUGS["c32_drop_limits"]
BUGS["c32_density_unit"] = dict(property="C32", file=UT, edits=[(
'''    uph = (photon_energy_density.to("erg/cm3")).value
''', '''    uph = (photon_energy_density * u.eV.to("erg")).value
''')], needs="the energy density is given in another unit than eV/cm3",
breaks="the magnetic field is off by the conversion", demo=HD + '''
from astropy.table import QTable
from naima.utils import estimate_B as B
def t(e, f):
    d = QTable()
    d["energy"] = e
    d["flux"] = f * u.Unit("erg/(s cm2)")
    d["flux_error"] = 0.1 * f * u.Unit("erg/(s cm2)")
    return d
a, b = t([1, 2, 4] * u.keV, np.ones(3) * 1e-11), t([1, 2, 4] * u.TeV, np.ones(3) * 1e-12)
x, y = B(a, b, 0.5 * u.eV / u.cm**3), B(a, b, (0.5 * u.eV / u.cm**3).to("erg/cm3"))
assert np.isclose(x.value, y.value, atol=0), (x, y)
''')
BUGS["c32_radiated_power"] = dict(property="C32", file=UT, edits=[(
'''    vhe = validate_data_table(vhe_table, sed=False)

    xray_lum = trapz_loglog(xray["flux"] * xray["energy"], xray["energy"])
''', '''    vhe = validate_data_table(vhe_table, sed=False)

    xray_lum = trapz_loglog(
        xray["flux"] * xray["energy"], xray["energy"] + 0.0 * xray["energy_error_hi"]
    )
    keep = vhe["flux"] > 0
    vhe = vhe[keep] if len(vhe) > 3 else vhe
''')], needs="x", breaks="x", demo="")
del BUGS["c32_radiated_power"]
BUGS["c01_parabola_log10"] = dict(property="C01", file=MOD, edits=[(
'''        eeponent = -alpha - beta * np.log(ee)
''', '''        eeponent = -alpha - beta * np.log(np.maximum(ee, 1e-3))
''')], needs="an energy more than three decades below the reference energy",
breaks="the curvature is frozen there", demo=HD + '''
m = LogParabola(1 / u.eV, 1 * u.TeV, 2.0, 0.1)
x = 1e-5
assert np.isclose(m(1e-5 * u.TeV).value, x ** (-2 - 0.1 * np.log(x)), atol=0)
''')
BUGS["c01_break_equal"] = dict(property="C01", file=MOD, edits=[(
'''        ee2 = e / e_cutoff
''', '''        ee2 = np.maximum(e, e_break) / e_cutoff
''')], needs="energies below the break of a model whose cutoff is not far above it",
breaks="the cutoff is frozen below the break", demo=HD + '''
m = ExponentialCutoffBrokenPowerLaw(1 / u.eV, 1 * u.TeV, 5 * u.TeV, 1.5, 3, 2 * u.TeV)
assert np.isclose(m(1 * u.TeV).value, np.exp(-0.5), atol=0)
''')
FIT = HD + '''
from astropy.table import QTable
def table(n=3, cl=None, ul=None):
    d = QTable()
    d["energy"] = np.arange(1.0, n + 1) * u.TeV
    d["flux"] = np.ones(n) * 1e-12 * u.Unit("1/(s TeV cm2)")
    d["flux_error"] = 0.1 * d["flux"]
    d["energy_error"] = 0.1 * d["energy"]
    if ul is not None: d["ul"] = ul
    if cl is not None: d.meta["keywords"] = {"cl": {"value": cl}}
    return d
def mod(p, d): return p[0] * 1e-12 * d["energy"].to("TeV").value ** p[1] * u.Unit("1/(s TeV cm2)")
import contextlib, io, naima.core as core
def sampler(*a, **k):
    np.random.seed(1)
    with contextlib.redirect_stdout(io.StringIO()):
        return core.get_sampler(*a, **dict(dict(threads=1, nwalkers=8, nburn=0), **k))
'''
BUGS["c23_list_output"] = dict(property="C23", file=CORE, edits=[(
'''    if isinstance(modelout, Iterable) and not isinstance(modelout, np.ndarray):
''', '''    if isinstance(modelout, tuple) and not isinstance(modelout, np.ndarray):
''')], needs="a model function that returns its outputs in a list",
breaks="the list is taken for the spectrum", demo=FIT + '''
d = naima.utils.validate_data_table(table())
a = core.lnprob([1.0, -0.1], d, lambda p, d: (mod(p, d), 3 * u.erg), None)
b = core.lnprob([1.0, -0.1], d, lambda p, d: [mod(p, d), 3 * u.erg], None)
assert a[0] == b[0] and len(a) == len(b)
''')
BUGS["c25_impossible_model"] = dict(property="C25", file=CORE, edits=[(
'''    if (result["success"] or result["status"] == 1) and not np.isinf(ll_prior):
''', '''    if (result["success"] or result["status"] == 1) and not np.isinf(prior(result["x"])):
''')], needs="a fit that ends at parameters of zero likelihood",
breaks="the chain starts there", demo=FIT + '''
d = naima.utils.validate_data_table(table(cl=1.0, ul=[True] * 3))
import naima.extern.minimize as mi
mi.minimize = lambda f, x, args=(), **k: dict(x=np.array([5.0, 0.0]), success=True, status=0, fun=np.inf)
p, ml = core._prefit(np.array([0.5, 0.0]), d, mod, None)
assert p[0] == 0.5 and not ml, (p, ml)
''')
BUGS["c26_two_norms"] = dict(property="C26", file=CORE, edits=[(
'''        if len(idxs) == 1:
''', '''        if len(idxs) >= 1:
'''), ('''        elif len(idxs) > 1:
            log.warning(
                "More than''', '''        if len(idxs) > 1:
            log.warning(
                "More than''')], needs="two labels that look like a normalisation",
breaks="the first one is changed by the guess", demo=FIT + '''
s, p = sampler(data_table=table(), p0=[3.0, 0.2], model=mod, labels=["norm", "weight"])
assert s.run_info["p0"][0] == 3.0, s.run_info
''')
BUGS["c26_natural_log"] = dict(property="C26", file=CORE, edits=[(
'''            if label.startswith("log("):
                p0[idxs[0]] += np.log(ratio)
''', '''            if label.startswith("log("):
                p0[idxs[0]] += np.log10(ratio)
''')], needs="a natural logarithm of the normalisation as parameter",
breaks="the guess is off by a factor", demo=FIT + '''
m = lambda p, d: mod([np.exp(p[0]), p[1]], d)
s, p = sampler(data_table=table(), p0=[np.log(50.0), 0.0], model=m, labels=["log(norm)", "index"])
assert np.isclose(s.run_info["p0"][0], 0, atol=1e-6), s.run_info
''')
BUGS["c36_one_burn_step"] = dict(property="C36", file=CORE, edits=[(
'''    if nburn > 0:
''', '''    if nburn > 1:
''')], needs="a burn-in of a single step",
breaks="there is no burn-in", demo=FIT + '''
s, p = sampler(data_table=table(), p0=[1.0, -0.1], model=mod, nburn=1)
assert s.iteration == 1, s.iteration
''')
BUGS["c36_continue_first"] = dict(property="C36", file=CORE, edits=[(
'''    sampler.run_info["p0_burn_median"] = [
        float(p) for p in np.median(state.coords, axis=0)
    ]
''', '''    sampler.run_info["p0_burn_median"] = [
        float(p) for p in (np.median(state.coords, axis=0) if nburn else p0[0])
    ]
''')], needs="a run without burn-in",
breaks="the median start in the run information is that of the first walker", demo=FIT + '''
s, p = sampler(data_table=table(), p0=[1.0, -0.1], model=mod)
assert np.allclose(s.run_info["p0_burn_median"], np.median(p.coords, axis=0), atol=0)
''')
BUGS["c29_flat_order"] = dict(property="C29", file=AN, edits=[(
'''            return v.reshape(s)
''', '''            return v.reshape(s, order="F")
''')], needs="a flat chain of a restored run is combined with one of its flat likelihoods or steps",
breaks="the samples come in another order than those of the saved run", demo=HD + '''
from naima.analysis import _result
r = _result()
r.chain = np.arange(24.0).reshape(3, 4, 2)
assert np.array_equal(r.get_chain(flat=True), r.chain.reshape(12, 2))
''')
BUGS["c29_single_precision"] = dict(property="C29", file=AN, edits=[(
'''            data=sampler.get_log_prob(),
''', '''            data=sampler.get_log_prob().astype("f4"),
''')], needs="log-probabilities that differ in the eighth digit",
breaks="they are rounded in the file", demo=FIT + '''
import tempfile, os
s, p = sampler(data_table=table(), p0=[1.0, -0.1], model=mod, nburn=2)
f = os.path.join(tempfile.mkdtemp(), "x.h5")
naima.save_run(f, s)
assert np.array_equal(naima.read_run(f).get_log_prob(), s.get_log_prob())
''')
BUGS["c30_nir_name"] = dict(property="C30", file=SH, edits=[(
'''            seedspec.append(["NIR", TNIR * u.K, uNIR * u.eV / u.cm**3])
''', '''            seedspec.append(["FIR", TNIR * u.K, uNIR * u.eV / u.cm**3])
''')], needs="far and near infrared fields at the same time",
breaks="the far infrared field is lost", demo=HD + '''
from naima.sherpa_models import InverseCompton as I
m = I()
p = [x.val for x in m.pars]
f = lambda a, b: m.flux(p[:6] + [a, 3000, b] + p[9:], np.array([1e9]) * u.keV).value
c = f(0, 0)
assert np.isclose(f(1, 1) - c, f(1, 0) - c + f(0, 1) - c, rtol=1e-6, atol=0)
''')
BUGS["c30_low_cutoff"] = dict(property="C30", file=SH, edits=[(
'''        if cutoff == 0.0:
''', '''        if cutoff < 1e-3:
''')], needs="a cutoff below 1 GeV",
breaks="there is no cutoff", demo=HD + '''
from naima.sherpa_models import Synchrotron as S
d = S._pdist([2.1, 1.0, 1.0, 5e-4, 1.0])
assert d(0.05 * u.TeV).value < 1e-40
''')
BUGS["c35_second_fit"] = dict(property="C35", file=MF, edits=[(
'''        self.P0_IS_ML = P0_IS_ML

''', '''        self.P0_IS_ML = self.P0_IS_ML or P0_IS_ML

''')], needs="a converged fit followed by one that does not converge",
breaks="the parameters still count as a maximum-likelihood fit", demo=FIT + '''
import matplotlib; matplotlib.use("Agg")
import naima.model_fitter as mf
d = table()
f = mf.InteractiveModelFitter(mod, [1.0, -0.1], d, labels=["norm", "index"])
mf._prefit = lambda p, *a: (p, True)
f.do_fit(None)
mf._prefit = lambda p, *a: (p, False)
f.do_fit(None)
assert f.P0_IS_ML is False
''')
BUGS["c35_clipped_fit"] = dict(property="C35", file=MF, edits=[(
'''                slider.set_val(val)
''', '''                slider.set_val(min(max(val, slider.valmin), slider.valmax))
''')], needs="a fit that ends outside of the range of a slider",
breaks="the parameters are cut at the range but count as the best fit", demo=FIT + '''
import matplotlib; matplotlib.use("Agg")
import naima.model_fitter as mf
f = mf.InteractiveModelFitter(mod, [1.0, -0.1], table(), labels=["norm", "index"])
mf._prefit = lambda p, *a: (np.array([500.0, -0.1]), True)
f.do_fit(None)
assert f.pars[0] == 500.0, f.pars
''')
BUGS["c27_small_log"] = dict(property="C27", file=AN, edits=[(
'''            lo, hi = med - quantiles[16], quantiles[84] - med

            t.add_row((nlabel, med, lo, hi))
''', '''            if ltype == "log10":
                lo, hi = med - quantiles[16], quantiles[84] - med

            t.add_row((nlabel, med, lo, hi))
''')], needs="a natural logarithm among the parameters",
breaks="the uncertainties of its value are those of the logarithm", demo=FIT + '''
import tempfile, os
m = lambda p, d: mod([np.exp(p[0]), p[1]], d)
s, p = sampler(data_table=table(), p0=[2.0, 0.1], model=m, labels=["log(norm)", "index"], nburn=5, guess=False)
t = naima.save_results_table(os.path.join(tempfile.mkdtemp(), "x"), s)
c = np.exp(s.get_chain(flat=True)[:, 0])
q = np.percentile(c, [16, 50, 84])
assert np.isclose(t["unc_hi"][1], q[2] - q[1], atol=0), t
''')
BUGS["c24_two_parameters"] = dict(property="C24", file=MIN, edits=[], needs="", breaks="", demo="")
del BUGS["c24_two_parameters"]
BUGS["c06_absolute_error"] = dict(property="C06", file=RAD, edits=[(
'''                epsrel=1e-3,
                epsabs=0,
            )[0]
''', '''                epsrel=1e-3,
            )[0]
''')], needs="a proton population small enough for the absolute tolerance of the quadrature to matter",
breaks="the shape of the Kelner spectrum depends on the number of protons", demo=HD + '''
f = lambda a: PionDecayKelner06(PowerLaw(a / u.eV, 1 * u.TeV, 2.5)).flux(1 * u.TeV, distance=0).value
assert np.isclose(f(1e-9) * 1e45, f(1e36), rtol=1e-2, atol=0), (f(1e-9), f(1e36))
''')
BUGS["c05_close_source"] = dict(property="C05", file=RAD, edits=[(
'''        spec = self._spectrum(np.atleast_1d(photon_energy)).reshape(photon_energy.shape)

        if distance != 0:
''', '''        spec = self._spectrum(np.atleast_1d(photon_energy)).reshape(photon_energy.shape)

        if not np.isclose(u.Quantity(distance).value, 0):
''')], needs="a distance that is small in its unit (8 pc given in Gpc)",
breaks="the luminosity is returned instead of the flux", demo=HD + '''
s = Synchrotron(pl(), B=1e-4 * u.G)
a = s.flux(1 * u.eV, distance=8e-9 * u.Gpc)
b = s.flux(1 * u.eV, distance=8 * u.pc)
assert a.unit == b.unit and np.isclose(a.value, b.value, atol=0)
''')
BUGS["c07_name_case"] = dict(property="C07", file=RAD, edits=[(
'''            result[name] = seed
''', '''            result[name.strip("0123456789")] = seed
''')], needs="", breaks="", demo="")
del BUGS["c07_name_case"]
BUGS["c07_sum_dominant"] = dict(property="C07", file=RAD, edits=[(
'''        return np.sum(u.Quantity(self.specic), axis=0)
''', '''        return np.sum(u.Quantity(self.specic[:8]), axis=0)
''')], needs="more than eight seed fields", breaks="the others are left out", demo=HD + '''
b = lambda n: [["f%d" % i, (30 + i) * u.K, 1 * u.eV / u.cm**3] for i in range(n)]
f = lambda s: InverseCompton(pl(), seed_photon_fields=s).flux(1 * u.TeV).value
assert np.isclose(f(b(9)), sum(f([x]) for x in b(9)), atol=0)
''')
