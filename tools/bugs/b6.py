MOD, RAD, UT, CORE, AN, PL = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                              "src/naima/core.py", "src/naima/analysis.py", "src/naima/plot.py")
MF, SH, MIN, MU, VA = ("src/naima/model_fitter.py", "src/naima/sherpa_models.py",
                       "src/naima/extern/minimize.py", "src/naima/model_utils.py",
                       "src/naima/extern/validator.py")
BUGS = {}
HD = '''
import warnings; warnings.simplefilter("ignore")
import numpy as np, astropy.units as u
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import naima, naima.plot as P
from astropy.table import QTable
from naima.models import *
from naima.radiative import *
def pl(a=1e33, al=2.5, e0=1): return PowerLaw(a / u.eV, e0 * u.TeV, al)
FU = u.Unit("1/(s TeV cm2)")
def table(n=3, ul=None, e=None, f=None, df=0.1):
    d = QTable()
    d["energy"] = (np.arange(1.0, n + 1) if e is None else np.array(e)) * u.TeV
    d["flux"] = (np.ones(n) if f is None else np.array(f)) * 1e-12 * FU
    d["flux_error"] = df * d["flux"]
    d["energy_error"] = 0.1 * d["energy"]
    if ul is not None: d["ul"] = ul
    return d
class S:
    """a stored run of one parameter; blob(p) is the list of model outputs"""
    def __init__(self, pars, blob, data, labels=("a",)):
        self.c = np.array(pars, dtype=float).reshape(len(pars), -1, 1)
        self.labels, self.data = list(labels), naima.utils.validate_data_table(data)
        n = self.c.shape
        self.b = np.empty(n[:2] + (len(blob(1.0)),), dtype=object)
        for i in range(n[0]):
            for j in range(n[1]):
                for k, v in enumerate(blob(self.c[i, j, 0])): self.b[i, j, k] = v
        self.lp = -(self.c[:, :, 0] - 2.0) ** 2
        self.run_info = dict(n_walkers=n[1], n_burn=0, n_run=n[0], p0=[1.0], guess=False)
        self.acceptance_fraction = np.ones(n[1]) * 0.5
        self.modelfn = lambda p, d: blob(p[0])
    def get_chain(self, flat=False): return self.c.reshape(-1, 1) if flat else self.c
    def get_log_prob(self, flat=False): return self.lp.ravel() if flat else self.lp
    def get_blobs(self, flat=False): return self.b
'''
BUGS["c28_sort_models"] = dict(property="C28", file=PL, edits=[(
'''                ysort = np.sort(model[:, i])
                y.append(ysort[nf])
''', '''                ysort = model[np.argsort(model[:, 0].value), i]
                y.append(ysort[nf])
''')], needs="samples whose order differs between energies (a varying slope)",
breaks="the bands at the other energies are those of the order at the first", demo=HD + '''
sl = np.linspace(-1, 1, 101)
blob = lambda p: [np.array([1 + 0.1 * p, 1.0, 1 - 0.1 * p]) * 1e-12 * FU]
s = S(sl[:100].reshape(10, 10), blob, table())
x, ci = P._calc_CI(s, confs=[1])
m = np.array([blob(p)[0].value for p in s.c.ravel()])
from scipy.stats import norm
lo = np.sort(m, axis=0)[int(norm.cdf(-1) * 99)]
assert np.allclose(ci[0][0].value, lo, atol=0), (ci[0][0].value, lo)
''')
BUGS["c28_band_rank"] = dict(property="C28", file=PL, edits=[(
'''    nwalkers = len(model) - 1
''', '''    nwalkers = len(model)
''')], needs="a confidence level so high that the upper quantile is the last sample",
breaks="the band is not drawn, or is that of the neighbouring rank", demo=HD + '''
blob = lambda p: [np.array([1 + 0.1 * p, 1.0 + p, 2 + p]) * 1e-12 * FU]
s = S(np.linspace(0, 1, 100).reshape(10, 10), blob, table())
x, ci = P._calc_CI(s, confs=[9])
assert np.allclose(ci[0][1][1].value, 2e-12, atol=0)
''')
BUGS["c28_own_energies"] = dict(property="C28", file=PL, edits=[(
'''        blob = blobs[index][modelidx]
        if isinstance(blob, u.Quantity):
            modelx = sampler.data["energy"].copy()
            model_ML = blob.copy()
        elif len(blob) == 2:
            modelx = blob[0].copy()
''', '''        blob = blobs[index][modelidx]
        if isinstance(blob, u.Quantity):
            modelx = sampler.data["energy"].copy()
            model_ML = blob.copy()
        elif len(blob) == 2 and len(blob[0]) == len(sampler.data["energy"]):
            modelx = sampler.data["energy"].copy()
            model_ML = blob[1].copy()
        elif len(blob) == 2:
            modelx = blob[0].copy()
''')], needs="a model output with its own energies, as many as the data",
breaks="the best fit is drawn at the energies of the data", demo=HD + '''
e = np.array([1.0, 10, 100]) * u.GeV
blob = lambda p: [(e, p * np.ones(3) * FU)]
s = S([[1, 2, 3]], blob, table())
assert np.allclose(P.find_ML(s, 0)[3][0].to("GeV").value, e.value)
''')
BUGS["c28_ml_chain"] = dict(property="C28", file=PL, edits=[(
'''    MLp = sampler.get_chain()[index]
''', '''    MLp = sampler.get_chain(flat=True)[np.argmax(lnprobability.T)]
''')], needs="more than one step and walker",
breaks="the best-fit parameters are those of another sample", demo=HD + '''
blob = lambda p: [p * np.ones(3) * FU]
s = S([[0, 1], [2, 3], [4, 5]], blob, table())
assert P.find_ML(s, 0)[1][0] == 2.0
''')
BUGS["c34_seventh_group"] = dict(property="C34", file=PL, edits=[(
'''        # wrap around color and marker cycles
        color = color_cycle[int(g) % len(color_cycle)]
        marker = marker_cycle[int(g) % len(marker_cycle)]

        ul = data["ul"]
''', '''        # wrap around color and marker cycles
        color = color_cycle[int(g) % len(marker_cycle)]
        marker = marker_cycle[int(g) % len(marker_cycle)]

        ul = data["ul"]
''')], needs="more than five groups of data", breaks="two groups are drawn in the same style", demo=HD + '''
f = P.plot_data([table(2) for i in range(6)])
st = [(c[0].get_color(), c[0].get_marker()) for c in f.axes[0].containers]
assert len(set(st)) == 6, st
''')
BUGS["c34_geometric_error"] = dict(property="C34", file=PL, edits=[(
'''        dflux = (data["flux_error_lo"] + data["flux_error_hi"]) / 2.0
''', '''        dflux = np.sqrt((data["flux_error_lo"] ** 2 + data["flux_error_hi"] ** 2) / 2.0)
''')], needs="asymmetric errors", breaks="the residuals are not in units of the mean error", demo=HD + '''
d = table(3)
d["flux_error_lo"] = np.array([0.1, 0.1, 0.1]) * 1e-12 * FU
d["flux_error_hi"] = np.array([0.3, 0.5, 0.1]) * 1e-12 * FU
del d["flux_error"]
t = naima.utils.validate_data_table(d)
ax = plt.figure().add_subplot(111)
P._plot_residuals_to_ax(t, (t["energy"], 0.5e-12 * np.ones(3) * FU), ax, e_unit=u.TeV, sed=False)
y = ax.containers[0][0].get_ydata()
assert np.allclose(y, 0.5 / np.array([0.2, 0.3, 0.1])), y
''')
BUGS["c34_error_unit"] = dict(property="C34", file=PL, edits=[(
'''            yerr=(yerr * sedfg[notul]).to(f_unit).value,
''', '''            yerr=np.abs(yerr * sedfg[notul]).to(f_unit).value[:, np.argsort(data["energy"][notul])],
''')], needs="x", breaks="x", demo="assert 1")
del BUGS["c34_error_unit"]
BUGS["c34_ul_bins"] = dict(property="C34", file=PL, edits=[(
'''                (xerr[:, ul]).to(e_unit).value,
                color,
''', '''                (xerr[::-1, ul]).to(e_unit).value,
                color,
''')], needs="an upper limit with an asymmetric energy bin", breaks="the bin of the limit is mirrored", demo=HD + '''
d = table(2, ul=[True, False])
d["energy_error_lo"] = [0.1, 0.2] * u.TeV
d["energy_error_hi"] = [0.4, 0.6] * u.TeV
del d["energy_error"]
f = P.plot_data(d)
seg = [s for c in f.axes[0].containers for s in c[2][0].get_segments() if abs(s[0][1] - s[1][1]) < 1e-30 and s[0][0] < 1]
assert any(np.allclose(s[:, 0], [0.9, 1.4]) for s in seg), seg
''')
BUGS["c38_digits"] = dict(property="C38", file=PL, edits=[(
'''            n = max(nlo, nhi)
''', '''            n = nlo
''')], needs="an upper uncertainty much smaller than the lower one",
breaks="the median is printed with fewer digits than its upper uncertainty", demo=HD + '''
s = P._latex_value_error(1.4567, 0.41, 0.006)
assert abs(float(s.strip("$").split("^")[0]) - 1.4567) < 0.006, s
''')
BUGS["c38_small_scale"] = dict(property="C38", file=PL, edits=[(
'''    if order > 2 or order < -2:
        val /= 10**order
        elo /= 10**order
        ehi /= 10**order
''', '''    if order > 2 or order < -2:
        val /= 10**order
        elo /= 10**order
        ehi = ehi / 10**order if order > 0 else ehi
''')], needs="a value below 1e-3", breaks="the upper uncertainty is printed without its power of ten", demo=HD + '''
s = P._latex_value_error(4.2e-5, 0.4e-5, 0.9e-5)
assert "+0.09" in s or "+0.9" in s or "+9" in s, s
''')
BUGS["c38_natural_log"] = dict(property="C38", file=PL, edits=[(
'''        ltype = label.split("(")[0]
        if ltype == "log10":
            new_dist = 10**dist
        elif ltype == "log":
            new_dist = np.exp(dist)

        quant = [16, 50, 84]
        quantiles = dict(zip(quant, np.percentile(new_dist, quant)))
''', '''        ltype = label.split("(")[0]
        if ltype == "log10":
            new_quant = 10**xquant
        elif ltype == "log":
            new_quant = 2.718**xquant

        quant = [16, 50, 84]
        quantiles = dict(zip(quant, new_quant))
''')], needs="a parameter that is the natural logarithm of a large or small number",
breaks="the converted value is off", demo=HD + '''
import logging
class H(logging.Handler):
    def emit(self, r): global OUT; OUT = r.getMessage()
P.log.addHandler(H())
r = np.random.default_rng(1)
s = S(100 + r.normal(size=(20, 10)) * 0.01, lambda p: [p * FU], table(), ["log(norm)"])
P.plot_chain(s, 0)
line = OUT.split("norm =")[-1]
import re
v = float(re.search(r"\\(?([0-9.]+)", line).group(1)) * 10 ** float(re.search(r"10\\^{([0-9]+)}", line).group(1))
w = np.exp(np.median(s.c))
assert abs(v / w - 1) < 0.01, (line, w)
''')
BUGS["c24_tiny_start"] = dict(property="C24", file=MIN, edits=[(
'''        if y[k] != 0:
''', '''        if abs(y[k]) > 1e-8:
''')], needs="a starting value that is tiny but not zero", breaks="the simplex is not the documented one", demo=HD + '''
from naima.extern.minimize import minimize
seen = []
minimize(lambda x: seen.append(x.copy()) or float(np.sum(x ** 2)), [1e-12, 1.0], options=dict(maxfev=3))
assert np.isclose(seen[1][0], 1.05e-12, atol=0), seen[:3]
''')
BUGS["c24_tolerance_worst"] = dict(property="C24", file=MIN, edits=[(
'''            and numpy.max(numpy.abs((fsim[0] - fsim[1:]) / fsim[0])) <= ftol
''', '''            and numpy.max(numpy.abs((fsim[0] - fsim[1:]) / fsim[1:])) <= ftol
''')], needs="function values spread over a wide range of relative tolerance",
breaks="success is reported although the tolerance on the function does not hold", demo=HD + '''
from naima.extern.minimize import minimize
n = []
r = minimize(lambda x: n.append(1) or float(x[0]), [1.0], options=dict(xtol=1.0, ftol=0.049, maxiter=2))
assert len(n) > 2, n
''')
BUGS["c24_best_last"] = dict(property="C24", file=MIN, edits=[(
'''    x = sim[0]
    fval = numpy.min(fsim)
''', '''    x = sim[0]
    fval = func(x)
''')], needs="a count of the evaluations", breaks="one evaluation more than counted or allowed is made", demo=HD + '''
from naima.extern.minimize import minimize
n = [0]
def f(x): n[0] += 1; return float(np.sum((x - 1) ** 2))
r = minimize(f, [3.0, 2.0], options=dict(maxfev=20))
m = n[0]
n[0] = 0
g = []
r2 = minimize(lambda x: g.append(1) or f(x), [3.0, 2.0], options=dict(maxfev=3))
assert len(g) == 3, len(g)
''')
BUGS["c37_missing_once"] = dict(property="C37", file=RAD, edits=[(
'''            self.diffsigma = self._diffsigma
            self.useLUT = False
''', '''            if not hasattr(self, "diffsigma"):
                self.diffsigma = self._diffsigma
            self.useLUT = False
''')], needs="a model whose selection is changed from one with a table to one without",
breaks="the table of the earlier selection is used", demo=HD + '''
p = PionDecay(pl(1e36), useLUT=True)
p.flux(1 * u.TeV)
p.hiEmodel = "SIBYLL"
a = p.flux([1, 10] * u.TeV).value
b = PionDecay(pl(1e36), useLUT=False, hiEmodel="SIBYLL").flux([1, 10] * u.TeV).value
assert np.allclose(a, b, atol=0), (a, b)
''')
BUGS["c37_lut_units"] = dict(property="C37", file=RAD, edits=[(
'''            Y=np.log10(Eg.to("GeV").value),
''', '''            Y=np.log10(Eg.value) + 3,
''')], needs="a table generated for photon energies not in TeV", breaks="the table is shifted", demo=HD + '''
import tempfile, os, contextlib, io
d = tempfile.mkdtemp()
import naima.radiative as R
try:
    with contextlib.redirect_stdout(io.StringIO()):
        R.generate_lut_pp(np.logspace(1, 3, 5) * u.GeV, np.logspace(-1, 1, 5) * u.GeV, d + "/x_", "Geant4")
    f = np.load(d + "/x_NucEnh_Geant4.npz")
    assert np.allclose(f["Y"], np.linspace(-1, 1, 5)), f["Y"]
finally:
    import shutil; shutil.rmtree(d)
''')
BUGS["c22_normal_variance"] = dict(property="C22", file=CORE, edits=[], needs="", breaks="", demo="")
del BUGS["c22_normal_variance"]
