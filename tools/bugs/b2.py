MOD, RAD, UT, CORE, AN, PL = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                              "src/naima/core.py", "src/naima/analysis.py", "src/naima/plot.py")
MF, SH, MIN = ("src/naima/model_fitter.py", "src/naima/sherpa_models.py", "src/naima/extern/minimize.py")
BUGS = {}
TAB = '''
import numpy as np, astropy.units as u
from astropy.table import QTable
def table(e, f, lo=None, hi=None, ul=None, cl=None, fu="1/(TeV s cm2)", eu="TeV", **kw):
    t = QTable()
    t["energy"] = np.array(e, float) * u.Unit(eu)
    t["flux"] = np.array(f, float) * u.Unit(fu)
    t["flux_error_lo"] = np.array(lo if lo is not None else np.array(f) / 10) * u.Unit(fu)
    t["flux_error_hi"] = np.array(hi if hi is not None else np.array(f) / 5) * u.Unit(fu)
    if ul is not None: t["ul"] = ul
    for k, v in kw.items(): t[k] = v
    if cl is not None: t.meta["keywords"] = {"cl": {"value": cl}}
    return t
class S:
    "a stored run"
    def __init__(self, chain, lnp, blobs=None, labels=None, data=None, **kw):
        self.chain, self.lnp, self.blobs = np.array(chain, float), np.array(lnp, float), blobs
        self.labels = labels or ["p%d" % i for i in range(self.chain.shape[2])]
        self.data = data; self.acceptance_fraction = np.ones(self.chain.shape[1]) * .5
        self.run_info = {"n_walkers": self.chain.shape[1], "n_burn": 0, "n_run": self.chain.shape[0]}
        self.__dict__.update(kw)
    def get_chain(self, flat=False):
        return self.chain.reshape(-1, self.chain.shape[2]) if flat else self.chain
    def get_log_prob(self): return self.lnp
    def get_blobs(self): return self.blobs
def objs(n, m, f):
    b = np.empty((n, m, len(f(0, 0))), dtype=object)
    for i in range(n):
        for j in range(m):
            for k, x in enumerate(f(i, j)): b[i, j, k] = x
    return b
'''
BUGS["c17_group_column"] = dict(property="C17", file=UT, edits=[(
'''    # Sort by energy so model curves and interpolation work correctly
    sort_idx = np.argsort(data_new["energy"])
    data_new = data_new[sort_idx]
''', '''    # Sort by energy so model curves and interpolation work correctly
    if len(data_list) > 1:
        sort_idx = np.argsort(data_new["energy"])
        data_new = data_new[sort_idx]
''')], needs="a single table whose rows are not in order of energy",
breaks="the validated table is not in order of energy", demo=TAB + '''
from naima.utils import validate_data_table
d = validate_data_table(table([3, 1, 2], [1., 2., 3.]))
assert np.all(np.diff(d["energy"].value) > 0), d["energy"]
''')
BUGS["c17_luminosity_first"] = dict(property="C17", file=UT, edits=[(
'''        sed = f_pt in ["flux", "power"]
''', '''        sed = f_pt == "flux" or len(data_list) == 1 and f_pt == "power"
''')], needs="several tables, the first one a luminosity SED",
breaks="the tables are converted to differential luminosities", demo=TAB + '''
from naima.utils import validate_data_table
a = table([1, 2], [1., 2.], fu="erg/s"); b = table([3, 4], [1., 2.], fu="1/(TeV s)")
d = validate_data_table([a, b])
assert d["flux"].unit.is_equivalent("erg/s"), d["flux"].unit
''')
BUGS["c18_energy_sed"] = dict(property="C18", file=UT, edits=[(
'''    is_energy_flux = model_pt in {
        u.get_physical_type("energy"),
''', '''    is_energy_flux = model_pt in {
''')], needs="a spectrum of energies given as E^2 dN/dE (erg)",
breaks="the unit returned is that of a power", demo='''
import astropy.units as u
from naima.utils import sed_conversion
e = [1, 2] * u.TeV
un, f = sed_conversion(e, u.Unit("erg"), False)
assert un.is_equivalent("1/TeV"), un
''')
BUGS["c19_group_edges"] = dict(property="C19", file=UT, edits=[(
'''    if groups is None or len(ene) != len(groups):
        return _generate''', '''    if groups is None or len(ene) != len(groups) or groups[0] == groups[-1]:
        return _generate''')], needs="groups whose first and last energies are of the same group with others between",
breaks="the groups influence each other's bins", demo='''
import numpy as np, astropy.units as u
from naima.utils import generate_energy_edges
e = np.array([1., 2., 3., 4., 5.]) * u.TeV
g = np.array([0, 1, 0, 1, 0])
lo, hi = generate_energy_edges(e, groups=g)
l0, h0 = generate_energy_edges(e[g == 1])
assert np.allclose(lo[g == 1], l0) and np.allclose(hi[g == 1], h0)
''')
BUGS["c20_only_limits"] = dict(property="C20", file=CORE, edits=[(
'''    if np.sum(ul) > 0:
''', '''    if np.sum(ul) > 0 and len(logprob) > 0:
''')], needs="data that consist of upper limits only",
breaks="violated upper limits are not penalised", demo=TAB + '''
from naima.utils import validate_data_table
from naima.core import lnprobmodel
d = validate_data_table(table([1, 2], [1., 1.], ul=np.array([True, True]), cl=.9))
m = np.array([5., .5]) * u.Unit("1/(TeV s cm2)")
l = float(lnprobmodel(m, d))
assert abs(l - np.log(.1)) < 1e-9, l
''')
BUGS["c20_int_flag_rows"] = dict(property="C20", file=UT, edits=[(
'''    if "flux_ul" in data_table.keys():
        data["flux"][data["ul"]]''', '''    if "flux_ul" in data_table.keys() and np.any(~data["ul"]):
        data["flux"][data["ul"]]''')], needs="a flux_ul column in a table of upper limits only",
breaks="the flux is used as the limit", demo=TAB + '''
from naima.utils import validate_data_table
fu = u.Unit("1/(TeV s cm2)")
a = table([1, 2], [1., 2.], ul=np.array([True, True]), flux_ul=np.array([7., 8.]) * fu, cl=.9)
d = validate_data_table(a)
assert list(d["flux"].value) == [7., 8.], d["flux"]
''')
BUGS["c21_power_data"] = dict(property="C21", file=CORE, edits=[(
'''    data_is_sed = data["flux"].unit.physical_type in ["power", "flux"]
''', '''    data_is_sed = data["flux"].unit.physical_type == "flux"
''')], needs="a differential model compared with a luminosity SED",
breaks="model and data are compared in different forms", demo=TAB + '''
from naima.utils import validate_data_table
from naima.core import lnprobmodel
d = validate_data_table(table([1, 2], [1., 2.], fu="erg/s"))
e = d["energy"]
m = (d["flux"] / e**2).to("1/(TeV s)")
try:
    l = float(lnprobmodel(m, d))
except Exception as x:
    l = repr(x)
assert l == 0 or abs(l) < 1e-12, l
''')
BUGS["c21_sign_at_errors"] = dict(property="C21", file=CORE, edits=[(
'''    sign = difference > 0
''', '''    sign = difference.value > 1e-15
''')], needs="fluxes that are small numbers in their unit and asymmetric errors",
breaks="the lower error is used where the model is above the data", demo=TAB + '''
from naima.utils import validate_data_table
from naima.core import lnprobmodel
d = validate_data_table(table([1], [1e-15], lo=[1e-16], hi=[2e-16]))
m = np.array([1.2e-15]) * u.Unit("1/(TeV s cm2)")
l = float(lnprobmodel(m, d))
assert abs(l + .5) < 1e-9, l
''')
BUGS["c22_boundary"] = dict(property="C22", file=CORE, edits=[(
'''    if umin <= value <= umax:
''', '''    if umin <= value < umax or umin < value <= umax:
''')], needs="a parameter fixed by a uniform prior of zero width",
breaks="the only allowed value is forbidden", demo='''
from naima import uniform_prior
assert uniform_prior(2.0, 2.0, 2.0) == 0
''')
BUGS["c22_log_uniform_zero"] = dict(property="C22", file=CORE, edits=[(
'''        if umax is not None:
''', '''        if umax:
''')], needs="log_uniform_prior with an upper limit of zero",
breaks="an upper limit of zero is ignored", demo='''
import numpy as np
from naima.core import log_uniform_prior
assert log_uniform_prior(1.0, umin=-1, umax=0) == -np.inf
''')
BUGS["c23_prior_times"] = dict(property="C23", file=CORE, edits=[(
'''    if not np.isinf(lnprob_priors):
        lnprob_model''', '''    if not np.isinf(lnprob_priors) and np.all(np.isfinite(model)):
        lnprob_model''')], needs="a model output that is not finite at a point which the prior allows",
breaks="the posterior is the prior there, so that the walker is accepted", demo=TAB + '''
from naima.utils import validate_data_table
from naima.core import lnprob
d = validate_data_table(table([1, 2], [1., 2.]))
m = lambda p, d: np.array([np.inf, 1.]) * u.Unit("1/(TeV s cm2)")
l = lnprob([1.], d, m, lambda p: 0.0)[0]
assert not l > -1e300, l
''')
BUGS["c24_negative_start"] = dict(property="C24", file=MIN, edits=[(
'''        if y[k] != 0:
            y[k] = (1''', '''        if y[k] > 0:
            y[k] = (1''')], needs="a negative starting value",
breaks="the starting simplex is much too small in the directions of negative parameters", demo='''
import numpy as np
from naima.extern.minimize import minimize
pts = []
def f(x):
    pts.append(np.array(x)); return float(((x - 1)**2).sum())
minimize(f, np.array([-2., 3.]), method="Nelder-Mead")
assert abs(pts[1][0] + 2.1) < 1e-9, pts[1]
''')
BUGS["c24_contract_tie"] = dict(property="C24", file=MIN, edits=[(
'''                    if fxcc < fsim[-1]:
''', '''                    if fxcc < fsim[-2]:
''')], needs="an inside contraction that improves on the worst point but not on the second worst",
breaks="the simplex is shrunk instead of contracted", demo='''
import numpy as np
from naima.extern.minimize import minimize
# points x0, x0*(1.05, 1), x0*(1, 1.05), then reflection, then inside contraction
vals = [0., 1., 10., 20., 5.]
n = []
def f(x):
    n.append(np.array(x))
    return vals[len(n) - 1] if len(n) <= 5 else 100.
minimize(f, np.array([1., 1.]), method="Nelder-Mead", options={"maxfev": 6})
xr = n[5]          # the reflection of the next step: the worst point is now the contracted one
xbar = (n[0] + n[1]) / 2
assert np.allclose(xr, 2 * xbar - n[4]), n
''')
BUGS["c25_maxfev_forbidden"] = dict(property="C25", file=CORE, edits=[(
'''    if (result["success"] or result["status"] == 1) and not np.isinf(ll_prior):
''', '''    if result["status"] == 1 or result["success"] and not np.isinf(ll_prior):
''')], needs="a prefit that runs out of evaluations at a point which the prior forbids",
breaks="the chain starts from a forbidden point", demo=TAB + '''
from unittest import mock
from naima.utils import validate_data_table
from naima.core import _prefit
import naima.extern.minimize as mi
d = validate_data_table(table([1, 2], [1., 2.]))
m = lambda p, d: p[0] * np.array([1., 2.]) * u.Unit("1/(TeV s cm2)")
pr = lambda p: 0.0 if p[0] > 1.5 else -np.inf
r = dict(x=np.array([1.]), fun=0.0, success=False, status=1)
with mock.patch.object(mi, "minimize", lambda *a, **k: r):
    p, ml = _prefit(np.array([2.]), d, m, pr)
assert p[0] == 2., p
''')
BUGS["c26_label_case"] = dict(property="C26", file=CORE, edits=[(
'''                if l2.lower().startswith(normName):
''', '''                if l2.startswith(normName):
''')], needs="a label of the normalisation with upper case letters, We or Norm",
breaks="the normalisation is not guessed", demo=TAB + '''
from naima.core import get_sampler
t = table([1, 2, 3], [10., 20., 10.])
m = lambda p, d: p[0] * np.ones(3) * u.Unit("1/(TeV s cm2)")
s, pos = get_sampler(data_table=t, p0=[1.0, 2.0], labels=["We", "x"], model=m, nwalkers=6, nburn=0, threads=1)
assert s.run_info["p0"][0] > 5, s.run_info
''')
BUGS["c26_guess_sed_data"] = dict(property="C26", file=CORE, edits=[(
'''                data["energy"] * (spec * sedf).to(nunit), data["energy"]
            )
            nunit, sedf = sed_conversion(data["energy"], data["flux"].unit, False)
''', '''                data["energy"] * (spec * sedf).to(nunit), data["energy"]
            )
            if spec.unit.physical_type != data["flux"].unit.physical_type:
                nunit, sedf = sed_conversion(data["energy"], data["flux"].unit, False)
            else:
                sedf = sedf[::-1]
''')], needs="model and data both given as SED",
breaks="the data are weighted with the energies in reverse order", demo=TAB + '''
from naima.core import get_sampler
t = table([1, 2, 3], [10., 20., 10.], fu="erg/(s cm2)")
m = lambda p, d: p[0] * np.ones(3) * u.Unit("erg/(s cm2)")
s, pos = get_sampler(data_table=t, p0=[1.0, 2.0], labels=["norm", "x"], model=m, nwalkers=6, nburn=0, threads=1)
a = s.run_info["p0"][0]
e = np.array([1, 2, 3.]); want = np.trapezoid(np.array([10, 20, 10]) / e, e) / np.trapezoid(1 / e, e)
assert abs(a / want - 1) < 1e-9, (a, want)
''')
BUGS["c27_two_logs"] = dict(property="C27", file=AN, edits=[(
'''            elif ltype == "log":
                new_dist = np.exp(dist)

            quantiles = dict(zip(quant, np.percentile(new_dist, quant)))
            med = quantiles[50]
            lo, hi = med - quantiles[16], quantiles[84] - med

            t.add_row((nlabel, med, lo, hi))
''', '''            elif ltype == "log":
                new_dist = np.exp(dist)

            med = np.median(new_dist)
            if ltype == "log10":
                lo, hi = med - 10**quantiles[16], 10**quantiles[84] - med
            else:
                lo, hi = np.exp(med - lo), np.exp(med + hi)

            t.add_row((nlabel, med, lo, hi))
''')], needs="a parameter labelled log(...), natural logarithm",
breaks="the uncertainties of the converted parameter are wrong", demo=TAB + '''
import os, tempfile
from naima.analysis import save_results_table
r = np.random.RandomState(1).normal(size=(5, 4, 1))
d = table([1, 2], [1., 2.])
b = objs(5, 4, lambda i, j: (np.array([1., 2.]) * u.Unit("1/(TeV s cm2)"),))
s = S(r, r[:, :, 0], b, ["log(x)"], d)
with tempfile.TemporaryDirectory() as t:
    t = save_results_table(os.path.join(t, "x"), s)
q = np.percentile(np.exp(r), [16, 50, 84])
assert abs(t["unc_lo"][1] - (q[1] - q[0])) < 1e-9 and abs(t["unc_hi"][1] - (q[2] - q[1])) < 1e-9, t
''')
BUGS["c27_scalar_last"] = dict(property="C27", file=AN, edits=[(
'''                if last_step:
                    blobl = [m[idx] for m in blobs[-1]]
''', '''                if last_step or hasattr(blobs[-1][0][idx], "unit"):
                    blobl = [m[idx] for m in blobs[-1]]
''')], needs="a scalar output with a unit and a table of the whole chain",
breaks="only the last step is used for the scalar outputs with unit", demo=TAB + '''
import os, tempfile
from naima.analysis import save_results_table
r = np.random.RandomState(1).normal(size=(5, 4, 1))
d = table([1, 2], [1., 2.])
b = objs(5, 4, lambda i, j: (np.array([1., 2.]) * u.Unit("1/(TeV s cm2)"), r[i, j, 0] * u.erg))
s = S(r, r[:, :, 0], b, ["x"], d)
with tempfile.TemporaryDirectory() as t:
    t = save_results_table(os.path.join(t, "x"), s)
assert abs(t["median"][1] - np.median(r)) < 1e-9, t
''')
BUGS["c28_tuple_last_step"] = dict(property="C28", file=PL, edits=[(
'''                model = u.Quantity([m[modelidx][1] for m in blobs[-1]])
''', '''                model = u.Quantity([m[modelidx][1] for m in blobs[0]])
''')], needs="a model output with its own energies and last_step",
breaks="the samples of the first step are shown", demo=TAB + '''
from naima.plot import _process_blob
d = table([1, 2], [1., 2.])
b = objs(3, 4, lambda i, j: ((np.array([1., 2., 3.]) * u.TeV, np.array([i, i, i]) * u.Unit("1/(TeV s cm2)")),))
s = S(np.zeros((3, 4, 1)), np.zeros((3, 4)), b, ["x"], d)
x, m = _process_blob(s, 0, last_step=True)
assert m[0][0].value == 2, m
''')
BUGS["c28_ci_column"] = dict(property="C28", file=PL, edits=[(
'''            nf = int((fr * nwalkers))
''', '''            nf = int((fr * (len(modelx) - 1))) if len(modelx) > len(model) else int(fr * nwalkers)
            nf = min(nf, nwalkers)
''')], needs="more energies than samples",
breaks="the confidence bands are those of other order statistics", demo=TAB + '''
from naima.plot import _calc_CI
n = 40
e = np.logspace(0, 1, n)
d = table(e, e)
b = objs(2, 5, lambda i, j: (np.full(n, 5. * i + j) * u.Unit("1/(TeV s cm2)"),))
s = S(np.zeros((2, 5, 1)), np.zeros((2, 5)), b, ["x"], d)
x, ci = _calc_CI(s, confs=[1])
assert ci[0][1][0].value == 7, ci
''')
BUGS["c29_read_sorted"] = dict(property="C29", file=AN, edits=[(
'''        if hasattr(sampler, "run_info"):
            for key in sampler.run_info.keys():
                val = sampler.run_info[key]
''', '''        if hasattr(sampler, "run_info"):
            for key in sampler.run_info.keys():
                val = sampler.run_info[key] or 0
''')], needs="run information that is an empty list, empty text or None",
breaks="it is stored as 0", demo=TAB + '''
import os, tempfile
from naima.analysis import save_run, read_run
d = table([1, 2], [1., 2.])
b = objs(2, 4, lambda i, j: (np.array([1., 2.]) * u.Unit("1/(TeV s cm2)"),))
s = S(np.zeros((2, 4, 1)), np.zeros((2, 4)), b, ["x"], d)
s.run_info["comment"] = ""
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "x.h5"); save_run(f, s); r = read_run(f)
assert r.run_info["comment"] == "", r.run_info
''')
BUGS["c29_label_order"] = dict(property="C29", file=AN, edits=[(
'''            group.attrs["label{0}".format(i)] = label
''', '''            group.attrs.setdefault("label{0}".format(i), label) if hasattr(
                group.attrs, "setdefault"
            ) and "label{0}".format(i) in group.attrs else group.attrs.__setitem__(
                "label{0}".format(len(set(sampler.labels[: i + 1])) - 1), label
            )
''')], needs="two parameters with the same label",
breaks="the labels are stored under wrong numbers and the run cannot be read", demo=TAB + '''
import os, tempfile
from naima.analysis import save_run, read_run
d = table([1, 2], [1., 2.])
b = objs(2, 4, lambda i, j: (np.array([1., 2.]) * u.Unit("1/(TeV s cm2)"),))
s = S(np.zeros((2, 4, 3)), np.zeros((2, 4)), b, ["norm", "norm", "x"], d)
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "x.h5"); save_run(f, s); r = read_run(f)
assert r.labels == ["norm", "norm", "x"], r.labels
''')
BUGS["c30_beta"] = dict(property="C30", file=SH, edits=[(
'''        if cutoff == 0.0:
            pdist''', '''        if cutoff == 0.0 or beta == 0.0:
            pdist''')], needs="a cutoff exponent of zero",
breaks="the factor exp(-1) of the cutoff is dropped", demo='''
import sys
try:
    from naima.sherpa_models import Synchrotron
except ImportError:
    sys.exit(0)
from naima.sherpa_models import SherpaModelECPL
d = SherpaModelECPL._pdist([2., 1., 1., 10., 0.])
assert hasattr(d, "e_cutoff"), d
''')
BUGS["c31_above_table"] = dict(property="C31", file=MOD, edits=[(
'''            loge, logy, fill_value=-np.inf, bounds_error=False, kind="cubic"
''', '''            loge, logy, fill_value=(-np.inf, logy[-1]), bounds_error=False, kind="cubic"
''')], needs="energies above the table",
breaks="the last value is used instead of zero", demo='''
import numpy as np, astropy.units as u
from naima.models import TableModel
t = TableModel(np.array([1, 2, 3, 4, 5.]) * u.TeV, np.array([1, 2, 3, 4, 5.]) / u.eV)
assert t(6 * u.TeV).value == 0
''')
BUGS["c31_closest_redshift"] = dict(property="C31", file=MOD, edits=[(
'''                    2 + (np.abs(redshift_list - self.redshift)).argmin()
''', '''                    2 + min(int(self.redshift * 100 + 1e-9), len(redshift_list)) - 1
''')], needs="a redshift in the upper half between two tabulated ones",
breaks="the next lower redshift is used and not the closest", demo='''
import astropy.units as u
from naima.models import EblAbsorptionModel
f = lambda z: float(EblAbsorptionModel(z).transmission(1 * u.TeV))
assert f(0.138) == f(0.14)
''')
BUGS["c33_range_end"] = dict(property="C33", file="src/naima/extern/validator.py", edits=[(
'''        if value < domain[0] or value > domain[-1]:
''', '''        if not value >= domain[0] or not value < domain[-1]:
''')], needs="a value equal to the upper end of a range domain",
breaks="it is refused", demo='''
from naima.extern.validator import validate_scalar
assert validate_scalar("x", 2.0, domain=(1.0, 2.0)) == 2.0
''')
BUGS["c34_residual_groups"] = dict(property="C34", file=PL, edits=[(
'''            difference = flux[notul] - MLflux[groupidx][notul]
''', '''            difference = flux[notul] - MLflux[: len(data)][notul]
''')], needs="data of several groups",
breaks="the residuals of a later group are computed with the model at other energies", demo=TAB + '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from naima.plot import _plot_residuals_to_ax
from naima.utils import validate_data_table
d = validate_data_table([table([1, 2], [1., 2.]), table([3, 4], [3., 4.])])
f, ax = plt.subplots()
_plot_residuals_to_ax(d, (d["energy"], d["flux"]), ax, e_unit=u.TeV, sed=False)
for c in ax.containers:
    assert np.allclose(c[0].get_ydata(), 0), c[0].get_ydata()
''')
BUGS["c34_error_bar_zero"] = dict(property="C34", file=PL, edits=[(
'''        yerr_lo[bad_err] = y[bad_err] * (1.0 - 1e-7)
''', '''        yerr_lo[bad_err] = y[bad_err].max() * (1.0 - 1e-7) if len(y[bad_err]) else yerr_lo[bad_err]
''')], needs="two points of a group with errors larger than their fluxes",
breaks="the lower error bars of the smaller flux reach below zero", demo=TAB + '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from naima.plot import plot_data
t = table([1, 2, 3], [1., 2., 3.], lo=[2., 3., .1])
f = plot_data(t, sed=False)
c = f.axes[0].containers[0]
for seg in c[2][1].get_segments() + c[2][0].get_segments():
    assert np.min(seg) > 0, seg
''')
BUGS["c35_autoupdate_after_fit"] = dict(property="C35", file=MF, edits=[(
'''        self.autoupdate = autoupdate
        self.P0_IS_ML = P0_IS_ML
''', '''        self.autoupdate = autoupdate or P0_IS_ML
        self.P0_IS_ML = P0_IS_ML
''')], needs="a converged fit with the automatic update switched off",
breaks="the automatic update is switched on by the fit", demo=TAB + '''
import matplotlib; matplotlib.use("Agg")
from naima.model_fitter import InteractiveModelFitter
t = table([1, 2], [1., 2.])
m = lambda p, d: p[0] * d["energy"].to("TeV").value * u.Unit("1/(TeV s cm2)")
i = InteractiveModelFitter(m, [1.1], t, labels=["norm"], sed=False, auto_update=False)
i.do_fit(None)
assert i.P0_IS_ML and not i.autoupdate
''')
BUGS["c36_no_reset"] = dict(property="C36", file=CORE, edits=[(
'''    sampler.reset()
    sampler, pos = _run_mcmc(sampler, pos, nrun)
''', '''    if sampler.run_info["n_burn"]:
        sampler.reset()
    sampler, pos = _run_mcmc(sampler, pos, nrun)
''')], needs="a sampler without burn-in that is run a second time",
breaks="the samples of the first run are kept", demo=TAB + '''
from naima.core import run_sampler
t = table([1, 2, 3], [10., 20., 10.])
m = lambda p, d: p[0] * np.ones(3) * u.Unit("1/(TeV s cm2)")
s, pos = run_sampler(nrun=3, data_table=t, p0=[10.0], labels=["norm"], model=m, nwalkers=6, nburn=0, threads=1)
s, pos = run_sampler(nrun=2, sampler=s, pos=pos)
assert s.get_chain().shape[0] == 2, s.get_chain().shape
''')
BUGS["c32_sed_vhe"] = dict(property="C32", file=UT, edits=[(
'''    vhe = validate_data_table(vhe_table, sed=False)
''', '''    vhe = validate_data_table(vhe_table)
''')], needs="a gamma-ray table given as SED",
breaks="the gamma-ray SED is multiplied by the energy once more", demo=TAB + '''
from naima.utils import estimate_B
x = table([1, 2, 3], [3., 2., 1.], eu="keV", fu="1/(keV s cm2)")
v = table([1, 2, 3], [3., 2., 1.])
w = table([1, 2, 3], [3., 8., 9.], fu="TeV/(s cm2)")
a, b = estimate_B(x, v), estimate_B(x, w)
assert abs(a / b - 1) < 1e-6, (a, b)
''')
