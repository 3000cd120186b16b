MOD, RAD, UT, CORE = ("src/naima/models.py", "src/naima/radiative.py", "src/naima/utils.py",
                      "src/naima/core.py")
BUGS = {}
BUGS["c02_field_unit"] = dict(property="C02", file=RAD, edits=[(
'''        Ec = 3 * e.value * hbar.cgs.value * self.B.to("G").value * self._gam**2''',
'''        Ec = 3 * e.value * hbar.cgs.value * self.B.value * self._gam**2''')],
needs="a magnetic field given in another unit than gauss",
breaks="the critical energy is computed with the number of the field in its own unit", demo='''
import astropy.units as u
from naima.models import PowerLaw, Synchrotron
f = lambda B: Synchrotron(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2), B=B).flux(1 * u.keV, 0).value
a, b = f(1e-4 * u.G), f(100 * u.uG)
assert abs(a / b - 1) < 1e-9, (a, b)
''')
BUGS["c03_brems_weight_key"] = dict(property="C03", file=RAD, edits=[(
'''self.param_names += ["n0", "weight_ee", "weight_ep"]''',
'''self.param_names += ["n0", "weight_ee"]''')],
needs="the electron-proton weight changed between two evaluations at the same energies",
breaks="the cached spectrum of the previous weight is returned", demo='''
import astropy.units as u
from naima.models import PowerLaw, Bremsstrahlung
m = Bremsstrahlung(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2), nEed=10)
a = m.flux(1 * u.GeV, 0).value
m.weight_ep = 0.5
b = m.flux(1 * u.GeV, 0).value
n = Bremsstrahlung(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2), nEed=10, weight_ep=0.5)
assert abs(b / n.flux(1 * u.GeV, 0).value - 1) < 1e-9
''')
BUGS["c07_greybody_zero_density"] = dict(property="C13", file=RAD, edits=[(
'''                        seed["u"] = ar * T**4
                    else:''',
'''                        seed["u"] = ar * Tcmb**4
                    else:''')],
needs="a black body seed given with zero energy density at another temperature than the CMB",
breaks="the field gets the energy density of the CMB instead of that of a black body", demo='''
import astropy.units as u
from naima.models import PowerLaw, InverseCompton
ar = 7.565733e-15 * u.erg / u.cm**3 / u.K**4
T = 10 * u.K
f = lambda d: InverseCompton(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2), nEed=10,
                             seed_photon_fields=[["x", T, d]]).flux(1 * u.TeV, 0).value
a, b = f(0), f(ar * T**4)
assert abs(a / b - 1) < 1e-4, (a, b)
''')
BUGS["c12_deep_cutoff"] = dict(property="C12", file=RAD, edits=[(
'''            return gt1 * (gt2 / gt3) * np.exp(-x)
''', '''            return gt1 * (gt2 / gt3) * np.exp(-np.minimum(x, 60.0))
''')],
needs="photon energies far above the critical energy of all electrons",
breaks="the exponential cutoff saturates", demo='''
import astropy.units as u, numpy as np
from naima.models import PowerLaw, Synchrotron
s = Synchrotron(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2), B=1e-4 * u.G, Eemax=1 * u.TeV)
ec = 3 * 4.80320e-10 * 1.0545718e-27 * 1e-4 * (1e6 / 0.51099895)**2 / (2 * 9.10938e-28 * 2.99792458e10)
f = s.flux(np.array([100, 101]) * ec * u.erg, 0).value
assert f[1] / f[0] < 0.5, f
''')
BUGS["c13_mono_lower_limit"] = dict(property="C13", file=RAD, edits=[(
'''        gamint = fic * heaviside(1 - q) * heaviside(q - 1.0 / (4 * electron_energy**2))
''', '''        gamint = fic * heaviside(1 - q)
''')],
needs="photon energies close to or below the seed energy",
breaks="electrons scatter photons to energies below the kinematic limit", demo='''
import astropy.units as u
from naima.models import PowerLaw, InverseCompton
ic = InverseCompton(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2), nEed=10, Eemin=10 * u.GeV, Eemax=1 * u.TeV,
                    seed_photon_fields=[["x", 1 * u.eV, 1 * u.eV / u.cm**3]])
assert ic.flux(0.5 * u.eV, 0).value == 0.0, ic.flux(0.5 * u.eV, 0)
''')
BUGS["c14_half_mec2"] = dict(property="C14", file=RAD, edits=[(
'''np.where(eps <= 0.5, s1, s2)''', '''np.where(eps <= 0.25, s1, s2)''')],
needs="photon energies between 128 and 255 keV",
breaks="the high-energy cross section is used below its range", demo='''
import astropy.units as u, numpy as np
from naima.models import PowerLaw, Bremsstrahlung
b = Bremsstrahlung(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2), weight_ep=0.0, weight_ee=1.0, nEed=20)
e = np.array([0.2499, 0.2501]) * 510.99895 * u.keV
f = b.flux(e, 0).value
assert abs(f[0] / f[1] - 1) < 0.01, f
''')
BUGS["c16_nhat_leak"] = dict(property="C16", file=RAD, edits=[(
'''            self.nhat = 1.0  # initial value, works for index~2.1
''', '''            self.nhat = getattr(self, "nhat", 1.0)  # works for index~2.1
''')],
needs="a call with energies on both sides of the transition, then one below it only",
breaks="the normalisation of the first call is applied in the second", demo='''
import astropy.units as u
from naima.models import PowerLaw
from naima.radiative import PionDecayKelner06
pd = PowerLaw(1e30 / u.eV, 1 * u.TeV, 2.6)
a, b = PionDecayKelner06(pd), PionDecayKelner06(pd)
a._memoize = b._memoize = False
a.flux([0.01, 1] * u.TeV, 0)
x, y = a.flux([0.01] * u.TeV, 0).value, b.flux([0.01] * u.TeV, 0).value
assert abs(x / y - 1) < 1e-6, (x, y)
''')

BUGS["c01_ecbpl_break_below_reference"] = dict(property="C01", file=MOD, edits=[(
"""        K = np.where(e < e_break, 1, (e_break / e_0) ** (alpha_2 - alpha_1))
        alpha = np.where(e < e_break, alpha_1, alpha_2)
        ee2 = e / e_cutoff""",
"""        K = np.where(e < max(e_break, e_0), 1, (e_break / e_0) ** (alpha_2 - alpha_1))
        alpha = np.where(e < e_break, alpha_1, alpha_2)
        ee2 = e / e_cutoff""")],
needs="a break energy below the reference energy and an energy between them",
breaks="the broken power law is discontinuous between break and reference energy", demo="""
import astropy.units as u, numpy as np
from naima.models import ExponentialCutoffBrokenPowerLaw
f = ExponentialCutoffBrokenPowerLaw(1 / u.eV, 10 * u.TeV, 1 * u.TeV, 1.5, 3.0, 100 * u.TeV)
v = f(5 * u.TeV).value
want = (1 / 10.0) ** 1.5 * (5 / 10.0) ** -3.0 * np.exp(-0.05)
assert abs(v / want - 1) < 1e-9, (v, want)
""")
BUGS["c09_narrow_range_points"] = dict(property="C09", file=RAD, edits=[(
"""            gam = np.logspace(
                log10gmin, log10gmax, max(10, int(self.nEed * (log10gmax - log10gmin)))
            )""",
"""            gam = np.logspace(
                log10gmin, log10gmax, max(10, self.nEed * int(log10gmax - log10gmin))
            )""")],
needs="energy content over a range of less than a decade",
breaks="10 points are used instead of the requested number per decade", demo="""
import astropy.units as u
from naima.models import Synchrotron
n = []
def dist(E):
    n.append(E.size)
    return E.value**-2 / u.eV
s = Synchrotron(dist, nEed=100)
s.compute_We(Eemin=1 * u.TeV, Eemax=90 * u.TeV)
assert n[-1] >= 100 * 1.95 - 1, n
""")
BUGS["c10_default_lower_limit"] = dict(property="C10", file=RAD, edits=[(
"""            if Eemin is None:
                Eemin = self.Eemin
""", """            if Eemin is None:
                Eemin = 1 * u.GeV
""")],
needs="energy content with only an upper limit given, on a model with its own lower limit",
breaks="the default minimum energy is used instead of the model's", demo="""
import astropy.units as u
from naima.models import PowerLaw, Synchrotron
s = Synchrotron(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2), Eemin=10 * u.GeV)
a = s.compute_We(Eemax=1 * u.TeV).to("erg").value
b = s.compute_We(Eemin=10 * u.GeV, Eemax=1 * u.TeV).to("erg").value
assert abs(a / b - 1) < 1e-9, (a, b)
""")
BUGS["c11_wide_log_branch"] = dict(property="C11", file=UT, edits=[(
"""            np.abs(b + 1.0) > 1e-10,""", """            np.abs(b + 1.0) > 1e-5,""")],
needs="a local power-law index within 1e-5 of -1 but not equal to it",
breaks="nearly-1/x power laws are integrated as 1/x", demo="""
import numpy as np
from naima.utils import trapz_loglog
x = np.array([1.0, 1e4])
v = trapz_loglog(x**-1.000009, x)
w = -np.expm1(-9e-6 * np.log(1e4)) / 9e-6
assert abs(v / w - 1) < 1e-6, (v, w)
""")
BUGS["c15_two_pion_threshold"] = dict(property="C15", file=RAD, edits=[(
"""        sigma2pi[np.where(Tp < E2pith)] = 0.0
""", """        sigma2pi[np.where(Tp < self._Tth)] = 0.0
""")],
needs="protons between the one- and two-pion thresholds (0.28-0.56 GeV kinetic energy)",
breaks="two-pion production below its threshold", demo="""
import astropy.units as u, numpy as np
from naima.models import PowerLaw, PionDecay
p = PionDecay(PowerLaw(1e30 / u.eV, 1 * u.TeV, 2))
a = p._sigma_pi_loE(np.array([0.5599999, 0.5600001]))
assert a[1] - a[0] > 1e-30, a
""")
