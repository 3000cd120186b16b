MOD, RAD, UT, CORE, AN, PL = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                              "src/naima/core.py", "src/naima/analysis.py", "src/naima/plot.py")
MF, SH, MIN, MU, VA = ("src/naima/model_fitter.py", "src/naima/sherpa_models.py",
                       "src/naima/extern/minimize.py", "src/naima/model_utils.py",
                       "src/naima/extern/validator.py")
BUGS = {}
HD = '''
import warnings; warnings.simplefilter("ignore")
import numpy as np, astropy.units as u
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import naima, naima.plot as P
from astropy.table import QTable
from naima.models import *
from naima.radiative import *
def pl(a=1e33, al=2.5, e0=1): return PowerLaw(a / u.eV, e0 * u.TeV, al)
FU = u.Unit("1/(s TeV cm2)")
def table(n=3, ul=None, e=None, f=None, df=0.1):
    d = QTable()
    d["energy"] = (np.arange(1.0, n + 1) if e is None else np.array(e)) * u.TeV
    d["flux"] = (np.ones(n) if f is None else np.array(f)) * 1e-12 * FU
    d["flux_error"] = df * d["flux"]
    d["energy_error"] = 0.1 * d["energy"]
    if ul is not None: d["ul"] = ul
    return d
class S:
    """a stored run of one parameter; blob(p) is the list of model outputs"""
    def __init__(self, pars, blob, data, labels=("a",)):
        self.c = np.array(pars, dtype=float).reshape(len(pars), -1, 1)
        self.labels, self.data = list(labels), naima.utils.validate_data_table(data)
        n = self.c.shape
        self.b = np.empty(n[:2] + (len(blob(1.0)),), dtype=object)
        for i in range(n[0]):
            for j in range(n[1]):
                for k, v in enumerate(blob(self.c[i, j, 0])): self.b[i, j, k] = v
        self.lp = -(self.c[:, :, 0] - 2.0) ** 2
        self.run_info = dict(n_walkers=n[1], n_burn=0, n_run=n[0], p0=[1.0], guess=False)
        self.acceptance_fraction = np.ones(n[1]) * 0.5
        self.modelfn = lambda p, d: blob(p[0])
    def get_chain(self, flat=False): return self.c.reshape(-1, 1) if flat else self.c
    def get_log_prob(self, flat=False): return self.lp.ravel() if flat else self.lp
    def get_blobs(self, flat=False): return self.b
'''

BUGS["c29_many_labels"] = dict(property="C29", file=AN, edits=[(
'''    for i in range(nblobs):
        result.labels.append(f["mcmc"].attrs["label{0}".format(i)])
''', '''    for key in sorted(k for k in f["mcmc"].attrs if k.startswith("label")):
        result.labels.append(f["mcmc"].attrs[key])
''')], needs="more than ten parameters", breaks="restored labels belong to other parameters", demo=HD + '''
import tempfile, os
n = 12
s = S([[1, 2, 3]], lambda p: [p * np.ones(3) * FU], table(), labels=["p%d" % i for i in range(n)])
s.c = np.ones((1, 3, n))
with tempfile.TemporaryDirectory() as d:
    naima.save_run(os.path.join(d, "a.h5"), s)
    r = naima.read_run(os.path.join(d, "a.h5"))
assert list(r.labels) == s.labels, r.labels
''')
BUGS["c17_duplicate_energy"] = dict(property="C17", file=UT, edits=[(
'''    sort_idx = np.argsort(data_new["energy"])
''', '''    _, sort_idx = np.unique(data_new["energy"], return_index=True)
''')], needs="two measurements at the same energy", breaks="one of them is dropped", demo=HD + '''
t = naima.utils.validate_data_table([table(3), table(3)])
assert len(t) == 6, len(t)
''')
BUGS["c36_burn_median_walker"] = dict(property="C36", file=CORE, edits=[(
'''        float(p) for p in np.median(state.coords, axis=0)
''', '''        float(p) for p in np.median(sampler.get_chain(flat=True) if nburn > 0 else state.coords, axis=0)
''')], needs="more than one burn-in step", breaks="the recorded median is that of all the burn-in", demo=HD + '''
d = table(3)
s, pos = naima.get_sampler(data_table=d, p0=[1.0, 2.0], model=lambda p, d: p[0] * (d["energy"] / u.TeV) ** -p[1] * 1e-12 * FU,
                           labels=["norm", "index"], nwalkers=8, nburn=6, threads=1, guess=False)
x = pos.coords if hasattr(pos, "coords") else pos
assert np.allclose(s.run_info["p0_burn_median"], np.median(x, axis=0)), s.run_info
''')
BUGS["c26_guess_bins"] = dict(property="C26", file=CORE, edits=[(
'''            dataFlux = np.trapezoid(
                data["energy"] * (data["flux"] * sedf).to(nunit),
                data["energy"],
            )
''', '''            dataFlux = np.trapezoid(
                (data["energy"] * (data["flux"] * sedf).to(nunit))[~data["ul"]],
                data["energy"][~data["ul"]],
            )
''')], needs="upper limits in the data", breaks="the data's flux misses the limits while the model's does not", demo=HD + '''
d = table(4, ul=np.array([False, False, False, True]))
s, pos = naima.get_sampler(data_table=d, p0=[2.0], model=lambda p, d: p[0] * np.ones(len(d["energy"])) * 1e-12 * FU,
                           labels=["norm"], nwalkers=4, nburn=0, threads=1, guess=True)
assert np.isclose(s.run_info["p0"][0], 1.0), s.run_info
''')
BUGS["c32_skip_faint"] = dict(property="C32", file=UT, edits=[(
'''    vhe_lum = trapz_loglog(vhe["flux"] * vhe["energy"], vhe["energy"])

    uph''', '''    vhe = vhe[vhe["flux"] > vhe["flux_error_lo"]]
    vhe_lum = trapz_loglog(vhe["flux"] * vhe["energy"], vhe["energy"])

    uph''')], needs="a gamma-ray point of less than one sigma", breaks="the point is left out", demo=HD + '''
x, v = table(4), table(4)
w = v.copy()
w["flux_error"][3] = 3 * w["flux"][3]
assert np.isclose(naima.estimate_B(x, v).value, naima.estimate_B(x, w).value)
''')
