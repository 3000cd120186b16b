MOD, RAD, UT, CORE, AN, PL = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                              "src/naima/core.py", "src/naima/analysis.py", "src/naima/plot.py")
MF, SH, MIN, MU, VA = ("src/naima/model_fitter.py", "src/naima/sherpa_models.py",
                       "src/naima/extern/minimize.py", "src/naima/model_utils.py",
                       "src/naima/extern/validator.py")
BUGS = {}
HD = '''
import warnings; warnings.simplefilter("ignore")
import numpy as np, astropy.units as u
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import naima, naima.plot as P
from astropy.table import QTable
from naima.models import *
from naima.radiative import *
def pl(a=1e33, al=2.5, e0=1): return PowerLaw(a / u.eV, e0 * u.TeV, al)
FU = u.Unit("1/(s TeV cm2)")
def table(n=3, ul=None, e=None, f=None, df=0.1):
    d = QTable()
    d["energy"] = (np.arange(1.0, n + 1) if e is None else np.array(e)) * u.TeV
    d["flux"] = (np.ones(n) if f is None else np.array(f)) * 1e-12 * FU
    d["flux_error"] = df * d["flux"]
    d["energy_error"] = 0.1 * d["energy"]
    if ul is not None: d["ul"] = ul
    return d
class S:
    """a stored run of one parameter; blob(p) is the list of model outputs"""
    def __init__(self, pars, blob, data, labels=("a",)):
        self.c = np.array(pars, dtype=float).reshape(len(pars), -1, 1)
        self.labels, self.data = list(labels), naima.utils.validate_data_table(data)
        n = self.c.shape
        self.b = np.empty(n[:2] + (len(blob(1.0)),), dtype=object)
        for i in range(n[0]):
            for j in range(n[1]):
                for k, v in enumerate(blob(self.c[i, j, 0])): self.b[i, j, k] = v
        self.lp = -(self.c[:, :, 0] - 2.0) ** 2
        self.run_info = dict(n_walkers=n[1], n_burn=0, n_run=n[0], p0=[1.0], guess=False)
        self.acceptance_fraction = np.ones(n[1]) * 0.5
        self.modelfn = lambda p, d: blob(p[0])
    def get_chain(self, flat=False): return self.c.reshape(-1, 1) if flat else self.c
    def get_log_prob(self, flat=False): return self.lp.ravel() if flat else self.lp
    def get_blobs(self, flat=False): return self.b
'''



BUGS["c38_skipped_models"] = dict(property="C38", file=AN, edits=[(
'''    for modelidx, plot_sed, label in zip(modelidxs, sed, blob_labels):
''', '''    for modelidx, plot_sed, label in zip(sorted(modelidxs), sed, blob_labels):
''')], needs="outputs asked for in another order than stored", breaks="plots carry the label and format of another output", demo=HD + '''
import naima.analysis as A, tempfile, os
blob = lambda p: [p * np.ones(3) * FU, p * u.erg]
s = S(np.arange(1.0, 21).reshape(4, 5), blob, table())
seen = []
P.plot_blob = lambda s, blobidx=0, label=None, **k: (seen.append((blobidx, label)), plt.figure())[1]
P.plot_corner = lambda s, *a, **k: None
with tempfile.TemporaryDirectory() as d:
    naima.save_diagnostic_plots(os.path.join(d, "x"), s, modelidxs=[1, 0], sed=False, blob_labels=["energy", "flux"])
assert sorted(seen) == [(0, "flux"), (1, "energy")], seen
''')
BUGS["c35_text_energies"] = dict(property="C35", file=MF, edits=[(
'''            if e_range is None:
                # use data for model
''', '''            if e_range is None or len(self.data) == e_npoints:
                # use data for model
''')], needs="an energy range with as many points as the data", breaks="the curve ignores the energy range", demo=HD + '''
import naima.model_fitter as M
w = M.InteractiveModelFitter(lambda p, d: p[0] * (d["energy"] / u.TeV) ** -p[1] * 1e-12 * FU, [1.0, 2.0],
                             data=table(3), labels=["norm", "index"], e_range=[0.1, 100] * u.TeV, e_npoints=3)
x = np.asarray(w.line.get_xdata(), dtype=float)
assert np.allclose(x, np.logspace(-1, 2, 3)), x
''')
