MOD, RAD, UT, CORE, AN, PL = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                              "src/naima/core.py", "src/naima/analysis.py", "src/naima/plot.py")
MF, SH, MIN, MU, VA = ("src/naima/model_fitter.py", "src/naima/sherpa_models.py",
                       "src/naima/extern/minimize.py", "src/naima/model_utils.py",
                       "src/naima/extern/validator.py")
BUGS = {}
HD = '''
import warnings; warnings.simplefilter("ignore")
import numpy as np, astropy.units as u
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import naima, naima.plot as P
from astropy.table import QTable
from naima.models import *
from naima.radiative import *
def pl(a=1e33, al=2.5, e0=1): return PowerLaw(a / u.eV, e0 * u.TeV, al)
FU = u.Unit("1/(s TeV cm2)")
def table(n=3, ul=None, e=None, f=None, df=0.1):
    d = QTable()
    d["energy"] = (np.arange(1.0, n + 1) if e is None else np.array(e)) * u.TeV
    d["flux"] = (np.ones(n) if f is None else np.array(f)) * 1e-12 * FU
    d["flux_error"] = df * d["flux"]
    d["energy_error"] = 0.1 * d["energy"]
    if ul is not None: d["ul"] = ul
    return d
class S:
    """a stored run of one parameter; blob(p) is the list of model outputs"""
    def __init__(self, pars, blob, data, labels=("a",)):
        self.c = np.array(pars, dtype=float).reshape(len(pars), -1, 1)
        self.labels, self.data = list(labels), naima.utils.validate_data_table(data)
        n = self.c.shape
        self.b = np.empty(n[:2] + (len(blob(1.0)),), dtype=object)
        for i in range(n[0]):
            for j in range(n[1]):
                for k, v in enumerate(blob(self.c[i, j, 0])): self.b[i, j, k] = v
        self.lp = -(self.c[:, :, 0] - 2.0) ** 2
        self.run_info = dict(n_walkers=n[1], n_burn=0, n_run=n[0], p0=[1.0], guess=False)
        self.acceptance_fraction = np.ones(n[1]) * 0.5
        self.modelfn = lambda p, d: blob(p[0])
    def get_chain(self, flat=False): return self.c.reshape(-1, 1) if flat else self.c
    def get_log_prob(self, flat=False): return self.lp.ravel() if flat else self.lp
    def get_blobs(self, flat=False): return self.b
'''


BUGS["c30_two_fields"] = dict(property="C30", file=SH, edits=[(
'''        if uNIR > 0.0:
''', '''        elif uNIR > 0.0:
''')], needs="both infrared fields switched on", breaks="the near infrared field is missing", demo=HD + '''
from naima.sherpa_models import InverseCompton as S
m = S()
m.ampl = 1e3; m.index = 2.5
x = np.logspace(8, 9, 4)
def f(a, b):
    m.uFIR = a; m.uNIR = b
    return np.array(m(x))
t = f(1, 1) + f(0, 0)
assert np.allclose(t, f(1, 0) + f(0, 1), rtol=1e-6), (t, f(1, 0) + f(0, 1))
''')
BUGS["c30_guess_points"] = dict(property="C30", file=SH, edits=[(
'''        model = self.calc([p.val for p in self.pars], xlo, xhi)
        obsflux''', '''        model = self.calc([p.val for p in self.pars], xlo)
        obsflux''')], needs="binned data", breaks="the guessed amplitude compares counts per bin with fluxes at points", demo=HD + '''
from naima.sherpa_models import Synchrotron as S
m = S()
m.B = 1e-5; m.index = 2.5; m.ampl = 100
x = np.logspace(0, 1, 6)
d = np.array(m(x[:-1], x[1:]))
m.guess(3 * d, x[:-1], x[1:])
assert np.isclose(m.ampl.val, 300, rtol=1e-6), m.ampl.val
''')
