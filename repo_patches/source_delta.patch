From 4fee065994b0c5e95f531390cfea10427cea3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 01/31] fix: unambiguous cache keys in memoize, and no aliasing
 of cached results

The default distance shared its key with distance=0, array parameters were
identified by their abridged string representation, values were joined
without separators, the type of the particle distribution was not part of the
key, models without param_names were cached regardless of their state, and
cached arrays were returned by reference.
---
 src/naima/model_utils.py | 79 +++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 634b875..6ae9f66 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
+import copy
 import hashlib
 import warnings
 
@@ -7,8 +8,35 @@ import numpy as np
 from astropy import units as u
 
 
+def _token(value):
+    """Unambiguous string representation of a value used in a cache key
+
+    Arrays are represented by their full contents, given that their string
+    representation is rounded and can be abridged.
+    """
+    if isinstance(value, u.Quantity):
+        return "Quantity({0},{1!r})".format(_token(value.value), str(value.unit))
+    elif isinstance(value, np.ndarray):
+        return "array({0},{1},{2})".format(
+            value.dtype.str, value.shape, hashlib.sha256(value.tobytes()).hexdigest()
+        )
+    elif isinstance(value, dict):
+        return "{{{0}}}".format(
+            ",".join(_token(k) + ":" + _token(v) for k, v in value.items())
+        )
+    elif isinstance(value, (list, tuple)):
+        return "({0})".format(",".join(_token(item) for item in value))
+    else:
+        return "{0}:{1!r}".format(type(value).__name__, value)
+
+
 def memoize(func):
-    """Cache decorator for functions inside model classes"""
+    """Cache decorator for functions inside model classes
+
+    Results are cached only if the state of the model is described by the
+    attributes listed in ``param_names``, and likewise for its particle
+    distribution.
+    """
 
     def model(cls, energy, *args, **kwargs):
         try:
@@ -18,6 +46,14 @@ def memoize(func):
         except AttributeError:
             memoize = False
 
+        models = [cls]
+        if hasattr(cls, "particle_distribution"):
+            models.append(cls.particle_distribution)
+
+        # the result of a function or class without param_names might change
+        # without notice
+        memoize = memoize and all(hasattr(m, "param_names") for m in models)
+
         if memoize:
             # Allow for dicts or tables with energy column, Quantity array or
             # Quantity scalar
@@ -28,37 +64,21 @@ def memoize(func):
                         getattr(np, "VisibleDeprecationWarning", None),
                     )
                     energy = u.Quantity(energy["energy"])
-            except (TypeError, ValueError, IndexError):
+            except (TypeError, ValueError, IndexError, KeyError):
                 pass
 
-            try:
-                # tostring is 10 times faster than str(array).encode()
-                bstr = energy.value.tobytes()
-            except AttributeError:
-                # scalar Quantity
-                bstr = str(energy.value).encode()
-
-            data = [hashlib.sha256(bstr).hexdigest()]
-
-            data.append(energy.unit.to_string())
-            data.append(str(kwargs.get("distance", 0)))
-
-            if args:
-                data.append(str(args))
-            if hasattr(cls, "particle_distribution"):
-                models = [cls, cls.particle_distribution]
-            else:
-                models = [cls]
-            for model in models:
-                if hasattr(model, "param_names"):
-                    for par in model.param_names:
-                        data.append(str(getattr(model, par)))
-
-            token = "".join(data)
+            data = [_token(energy), _token(args), _token(sorted(kwargs.items()))]
+
+            for m in models:
+                data.append(type(m).__module__ + "." + type(m).__qualname__)
+                for par in m.param_names:
+                    data.append(par + "=" + _token(getattr(m, par)))
+
+            token = ";".join(data)
             digest = hashlib.sha256(token.encode()).hexdigest()
 
             if digest in cache:
-                return cache[digest]
+                return copy.copy(cache[digest])
 
         result = func(cls, energy, *args, **kwargs)
 
@@ -67,9 +87,10 @@ def memoize(func):
             if len(queue) > 16:
                 key = queue.pop(0)
                 cache.pop(key, None)
-            # save last result to cache
+            # save last result to cache, and make sure it is not modified
+            # through the returned array
             queue.append(digest)
-            cache[digest] = result
+            cache[digest] = copy.copy(result)
 
         return result
 
-- 
2.43.0


From b271b3d8d0dedd1934ef4bfb9433350bd8fa692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 02/31] fix: InverseCompton.flux(seed) used the contributions
 of a previous call

When the total was found in the cache, the contribution of a single seed
photon field was taken from the last uncached call, which might have other
energies or parameters. Also, seed=len(seed_photon_fields) was not rejected,
and sed(seed=...) failed for a dict or table of energies.
---
 src/naima/radiative.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3db562e..a62cd07 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -737,14 +737,14 @@ class InverseCompton(BaseElectron):
                         "Provided seed photon field name is not in"
                         " the definition of the InverseCompton instance"
                     )
-                else:
-                    seed = list(self.seed_photon_fields.keys()).index(seed)
-            elif seed > len(self.seed_photon_fields):
+            elif seed >= len(self.seed_photon_fields):
                 raise ValueError(
                     "Provided seed photon field number is larger"
                     " than the number of seed photon fields defined in the"
                     " InverseCompton instance"
                 )
+            else:
+                seed = list(self.seed_photon_fields.keys())[seed]
 
             if distance != 0:
                 distance = validate_scalar("distance", distance, physical_type="length")
@@ -754,7 +754,9 @@ class InverseCompton(BaseElectron):
                 dfac = 1
                 out_unit = "1/(s eV)"
 
-            model = (self.specic[seed] / dfac).to(out_unit)
+            # self.specic might belong to a previous call if model was cached
+            spec = self._calc_specic(seed, _validate_ene(photon_energy))
+            model = (spec / dfac).to(out_unit)
 
         return model
 
@@ -783,6 +785,7 @@ class InverseCompton(BaseElectron):
             else:
                 out_unit = "erg/s"
 
+            photon_energy = _validate_ene(photon_energy)
             sed = (
                 self.flux(photon_energy, distance=distance, seed=seed)
                 * photon_energy**2.0
-- 
2.43.0


From 8fceba43000497db78545de3f90139c86d89da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 03/31] fix: Bremsstrahlung with one of the weights set to zero

The null emissivity had units of energy, which cannot be added to the other
contribution.
---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index a62cd07..c16f4b9 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -945,7 +945,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-electron bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ee == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros_like(Eph.value) * u.cm**3 / u.s / Eph.unit
 
         gam = np.vstack(self._gam)
         # compute integral with electron distribution
@@ -961,7 +961,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-proton bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ep == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros_like(Eph.value) * u.cm**3 / u.s / Eph.unit
 
         gam = np.vstack(self._gam)
         eps = (Eph / mec2).decompose().value
-- 
2.43.0


From 2c4e463c3edc460e24db591ac5fdc252bc218dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 04/31] fix: set_We and set_Wp modified the amplitude in place

The amplitude Quantity is the one given by the user, so any other particle
distribution created with the same object was renormalized as well.
---
 src/naima/radiative.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index c16f4b9..0c352c4 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -220,7 +220,11 @@ class BaseElectron(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (We / oldWe).decompose()
+                # not in place, the amplitude might be shared with other models
+                oldampl = self.particle_distribution.amplitude
+                self.particle_distribution.amplitude = (
+                    oldampl * (We / oldWe).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
@@ -1083,7 +1087,11 @@ class BaseProton(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (Wp / oldWp).decompose()
+                # not in place, the amplitude might be shared with other models
+                oldampl = self.particle_distribution.amplitude
+                self.particle_distribution.amplitude = (
+                    oldampl * (Wp / oldWp).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
-- 
2.43.0


From 13c4d2bfa9b843b3c1983e640ee30d943c9f8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 05/31] fix: radiative models for scalar photon energies

flux and sed are documented to take a float or array Quantity, but for a
scalar energy InverseCompton and the pion decay models failed, and Synchrotron
and Bremsstrahlung returned an array.
---
 src/naima/radiative.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 0c352c4..7028ded 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -99,7 +99,8 @@ class BaseRadiative:
             luminosity will be returned. Default is 1 kpc.
         """
 
-        spec = self._spectrum(photon_energy)
+        photon_energy = _validate_ene(photon_energy)
+        spec = self._spectrum(np.atleast_1d(photon_energy)).reshape(photon_energy.shape)
 
         if distance != 0:
             distance = validate_scalar("distance", distance, physical_type="length")
@@ -759,8 +760,9 @@ class InverseCompton(BaseElectron):
                 out_unit = "1/(s eV)"
 
             # self.specic might belong to a previous call if model was cached
-            spec = self._calc_specic(seed, _validate_ene(photon_energy))
-            model = (spec / dfac).to(out_unit)
+            photon_energy = _validate_ene(photon_energy)
+            spec = self._calc_specic(seed, np.atleast_1d(photon_energy))
+            model = (spec.reshape(photon_energy.shape) / dfac).to(out_unit)
 
         return model
 
-- 
2.43.0


From a5fe64ac2aeac168a80f6aa7cc8d033efb6bbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 06/31] fix: confidence level of violated upper limits

The number of violated upper limits was used as the row from which to read
their confidence level: it failed when all rows are violated upper limits, and
used the level of other rows for concatenated tables.
---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index c397c6a..ff75678 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -88,8 +88,8 @@ def lnprobmodel(model, data):
 
     if np.sum(ul) > 0:
         # deal with upper limits at CL set by data['cl']
-        violated_uls = np.sum(model[ul] > data["flux"][ul])
-        totallogprob += violated_uls * np.log(1.0 - data["cl"][violated_uls])
+        violated_uls = model[ul] > data["flux"][ul]
+        totallogprob += np.sum(np.log(1.0 - data["cl"][ul][violated_uls]))
 
     return totallogprob
 
-- 
2.43.0


From e22cb722d07d91302000c8c9a625cbf0913e9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 07/31] fix: normal_prior and log_uniform_prior return log
 probabilities

normal_prior used sigma instead of its square and lacked the logarithm in the
normalization, and log_uniform_prior returned the density 1/value instead of
its logarithm.
---
 src/naima/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index ff75678..4449bf3 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -41,7 +41,7 @@ def uniform_prior(value, umin, umax):
 
 def normal_prior(value, mean, sigma):
     """Normal prior distribution."""
-    return -0.5 * (2 * np.pi * sigma) - (value - mean) ** 2 / (2.0 * sigma)
+    return -0.5 * np.log(2 * np.pi * sigma**2) - (value - mean) ** 2 / (2.0 * sigma**2)
 
 
 def log_uniform_prior(value, umin=0, umax=None):
@@ -49,11 +49,11 @@ def log_uniform_prior(value, umin=0, umax=None):
     if value > 0 and value >= umin:
         if umax is not None:
             if value <= umax:
-                return 1 / value
+                return -np.log(value)
             else:
                 return -np.inf
         else:
-            return 1 / value
+            return -np.log(value)
     else:
         return -np.inf
 
-- 
2.43.0


From b9722fd32bd7a60465490368cb040c9e42dc7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 08/31] fix: get_sampler modified p0 and labels given by the
 user

Also, integer p0 arrays truncated the normalization guess, and labels such as
Log10(norm) were recognized but scaled as a linear normalization.
---
 src/naima/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 4449bf3..3717bc2 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -341,6 +341,11 @@ def get_sampler(
     if model is None:
         raise TypeError("Model function is missing!")
 
+    # p0 and labels are modified below
+    p0 = np.array(p0, dtype=float)
+    if labels is not None:
+        labels = list(labels)
+
     # Add parameter labels if not provided or too short
     if labels is None:
         # First is normalization
@@ -400,9 +405,10 @@ def get_sampler(
                 data["energy"],
             )
             ratio = dataFlux / currFlux
-            if labels[idxs[0]].startswith("log("):
+            label = labels[idxs[0]].lower()
+            if label.startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
-            elif labels[idxs[0]].startswith("log10("):
+            elif label.startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
             else:
                 p0[idxs[0]] *= ratio
-- 
2.43.0


From 46b4adbadd3b32991cb9b646404e99a9156d20fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 09/31] fix: prefit with an integer initial parameter vector

The simplex took the type of the initial vector, so its vertices were
truncated to integers and the minimization stopped at the initial vector.
---
 src/naima/extern/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/extern/minimize.py b/src/naima/extern/minimize.py
index a4ebaeb..3cdbec1 100644
--- a/src/naima/extern/minimize.py
+++ b/src/naima/extern/minimize.py
@@ -77,7 +77,7 @@ def _minimize_neldermead(
     retall = return_all
 
     fcalls, func = wrap_function(func, args)
-    x0 = asarray(x0).flatten()
+    x0 = asarray(x0, dtype=float).flatten()
     N = len(x0)
     rank = len(x0.shape)
     if not -1 < rank < 2:
-- 
2.43.0


From 821482499f7f22097fe7aa1754ab7ea7de692930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 10/31] fix: energy edges of unsorted energies

Data tables do not need to be sorted in energy, but the bin edges were
computed from the neighbouring rows and could be negative.
---
 src/naima/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index e12bbf1..0680fbb 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -357,13 +357,16 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
 
 def _generate_energy_edges_single(ene):
     """Generate energy edges for single group"""
+    # bin edges are defined by the neighbours in energy
+    sort_idx = np.argsort(ene)
+    ene = ene[sort_idx]
     midene = np.sqrt((ene[1:] * ene[:-1]))
     elo, ehi = np.zeros(len(ene)) * ene.unit, np.zeros(len(ene)) * ene.unit
     elo[1:] = ene[1:] - midene
     ehi[:-1] = midene - ene[:-1]
     elo[0] = ene[0] * (1 - ene[0] / (ene[0] + ehi[0]))
     ehi[-1] = elo[-1]
-    return u.Quantity([elo, ehi])
+    return u.Quantity([elo, ehi])[:, np.argsort(sort_idx)]
 
 
 def generate_energy_edges(ene, groups=None):
-- 
2.43.0


From cca8e41e5efedd95f071dde321237d92cc161295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 11/31] fix: plot_CI sorted the confs list of the caller in
 place

---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 72c610d..e0cc8f5 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -559,7 +559,8 @@ def plot_CI(
         Whether to only use the positions in the final step of the run (True,
         default) or the whole chain (False).
     """
-    confs.sort(reverse=True)
+    # the list given by the user (or the default) must not be modified
+    confs = sorted(confs, reverse=True)
 
     modelx, CI = _calc_CI(
         sampler,
-- 
2.43.0


From 2a1c01e77c2a4f470cca81185fe9b9146865299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 12/31] fix: save_results_table(last_step=True) used the last
 walker

The first axis of the chain is the step since emcee 3.
---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 70d500b..b1a4b00 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -239,7 +239,7 @@ def save_results_table(
     labels = sampler.labels
 
     if last_step:
-        dists = sampler.get_chain()[:, -1, :]
+        dists = sampler.get_chain()[-1]
     else:
         dists = sampler.get_chain(flat=True)
 
-- 
2.43.0


From 03d6b3c3c8b13f30e714f49f55d2a32953911907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 13/31] fix: metadata blobs lost in save_run and read_run

Blobs following one with an unsupported format were not read, arrays of the
same length were merged and lost their units, of tuples of arrays only the
first two were restored, and tuples of scalars could not be saved.
---
 src/naima/analysis.py | 70 ++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index b1a4b00..e3cc2f8 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -425,7 +425,7 @@ def save_run(filename, sampler, compression=True, clobber=False):
             else:
                 log.warning(
                     "blob number {0} has unknown format and cannot be saved "
-                    "in HDF5 file"
+                    "in HDF5 file".format(idx)
                 )
                 continue
 
@@ -434,13 +434,20 @@ def save_run(filename, sampler, compression=True, clobber=False):
             blob = []
             for step in sampler.get_blobs():
                 for walkerblob in step:
-                    blob.append(walkerblob[idx])
-            blob = u.Quantity(blob).value
+                    if isinstance(item, u.Quantity) or isinstance(item, float):
+                        blob.append(u.Quantity(walkerblob[idx]).to_value(units[0]))
+                    else:
+                        blob.append(
+                            [
+                                u.Quantity(x).to_value(unit)
+                                for x, unit in zip(walkerblob[idx], units)
+                            ]
+                        )
 
             blobdataset = group.create_dataset(
                 "blob{0}".format(idx), data=blob, compression=compression
             )
-            if len(units) > 1:
+            if isinstance(item, tuple) or isinstance(item, list):
                 for j, unit in enumerate(units):
                     blobdataset.attrs["unit{0}".format(j)] = unit
             else:
@@ -533,46 +540,33 @@ def read_run(filename, modelfn=None):
     result.log_prob = np.array(f["mcmc/log_prob"])
 
     # blobs
-    result_blobs = []
     nsteps, nwalkers, nblobs = result.chain.shape
-    blobs = []
-    blobrank = []
+    blobs = {}
     for i in range(100):
         # first read each of the blobs and convert to Quantities
         try:
             ds = f["mcmc/blob{0}".format(i)]
-            rank = np.ndim(ds[0])
-            blobrank.append(rank)
-            if rank <= 1:
-                blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
-            else:
-                blob = []
-                for j in range(np.ndim(ds[0])):
-                    blob.append(
-                        u.Quantity(ds[:, j, :], unit=ds.attrs["unit{0}".format(j)])
-                    )
-                blobs.append(blob)
         except KeyError:
-            break
-
-    # Now organize in an awful list of lists of arrays
-    for step in range(nsteps):
-        steplist = []
-        for walker in range(nwalkers):
-            n = step * nwalkers + walker
-            walkerblob = []
-            for j in range(len(blobs)):
-                if blobrank[j] <= 1:
-                    walkerblob.append(blobs[j][n])
-                else:
-                    blob = []
-                    for k in range(blobrank[j]):
-                        blob.append(blobs[j][k][n])
-                    walkerblob.append(blob)
-            steplist.append(walkerblob)
-        result_blobs.append(steplist)
-
-    result._blobs = np.array(result_blobs, dtype=np.dtype("object"))
+            # there might be gaps because blobs of unknown format are not saved
+            continue
+        if "unit" in ds.attrs:
+            blobs[i] = u.Quantity(ds[()], unit=ds.attrs["unit"])
+        else:
+            blobs[i] = [
+                u.Quantity(ds[:, j], unit=ds.attrs["unit{0}".format(j)])
+                for j in range(ds.shape[1])
+            ]
+
+    # Now organize in an array of objects, item by item so that numpy does not
+    # merge arrays of the same length and drop their units
+    result._blobs = np.empty((nsteps, nwalkers, max(blobs, default=-1) + 1), dtype=object)
+    for i, blob in blobs.items():
+        for n in range(nsteps * nwalkers):
+            if isinstance(blob, list):
+                item = [x[n] for x in blob]
+            else:
+                item = blob[n]
+            result._blobs[n // nwalkers, n % nwalkers, i] = item
 
     # run info
     result.run_info = dict(f["mcmc"].attrs)
-- 
2.43.0


From d79160df0d0cbe26614643fbd8fa825418ef7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 14/31] fix: EblAbsorptionModel.transmission above 100 TeV and
 for scalar energies

Above the last energy of the table the opacity was log10(6000)=3.8, so the
transmission increased from zero to 0.02, and it was 0.02 instead of one for
null redshift.
---
 src/naima/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index aed3e17..e6e0cb6 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -541,12 +541,15 @@ class EblAbsorptionModel(TableModel):
 
     def transmission(self, e):
         e = _validate_ene(e)
+        shape = e.shape
+        e = np.atleast_1d(e)
         taus = np.zeros(len(e))
         for i in range(0, len(e)):
             if e[i].to("GeV").value < 1.0:
                 taus[i] = 0.0
             elif e[i].to("TeV").value > 100.0:
-                taus[i] = np.log10(6000.0)
+                # end of the table: use the last value
+                taus[i] = np.log10(self(100 * u.TeV))
             else:
                 taus[i] = np.log10(self(e[i]))
-        return np.exp(-taus)
+        return np.exp(-taus).reshape(shape)
-- 
2.43.0


From 3d455eff95982db12a9a0f148b96f958a171ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 15/31] fix: keep the units of model outputs when all of them
 have the same shape

For a model function returning a single flux in a tuple, or several arrays of
the same length, emcee merged them into a single array of floats as metadata
blobs, so they could not be plotted or saved.
---
 src/naima/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 3717bc2..4b5ae1f 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -105,7 +105,11 @@ def lnprob(pars, data, modelfunc, priorfunc):
     # Save blobs or save model if no blobs given
     if isinstance(modelout, Iterable) and not isinstance(modelout, np.ndarray):
         model = modelout[0]
-        blob = modelout
+        blob = tuple(modelout)
+        # emcee would merge arrays of the same shape into a single array
+        # without units: avoid it as below
+        if np.array(blob, dtype=object).ndim > 1:
+            blob = (*blob, np.nan)
     else:
         model = modelout
         # Avoid squeezing of the model output in order to retain units by
-- 
2.43.0


From 3761372e9e24245553c309ccbfa22b25cb413c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 16/31] fix: Bremsstrahlung at a photon energy equal to a grid
 electron energy

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 7028ded..1019055 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -854,7 +854,7 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        s3[np.where(gam < eps)] = 0.0
+        s3[np.where(gam <= eps)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
-- 
2.43.0


From 60d76facd1bcff31e4d5d0bdd82c2ef1a8549400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 17/31] fix: PionDecay for proton energies below the pion
 production threshold

---
 src/naima/radiative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 1019055..95f288e 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1463,6 +1463,9 @@ class PionDecay(BaseProton):
         if self.nuclear_enhancement:
             diffsigma *= self._nuclear_factor(Tp)
 
+        # the parametrization is not defined below the production threshold
+        diffsigma[Tp < self._Tth] = 0.0
+
         return diffsigma
 
     def _nuclear_factor(self, Tp):
-- 
2.43.0


From d896e6c80424fbd68cffd47e0b2afaaef1db3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 18/31] fix: plot_fit of a run restored with read_run needed
 the model function

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index e0cc8f5..a32416e 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -841,7 +841,7 @@ def plot_fit(
 
     data = sampler.data
 
-    if e_range is None and not hasattr(sampler, "blobs"):
+    if e_range is None and sampler.get_blobs() is None:
         e_range = data["energy"][[0, -1]] * np.array((1.0 / 3.0, 3.0))
 
     if plotdata is None and len(model_ML[0]) == len(data["energy"]):
-- 
2.43.0


From 0c785b5be481ffa62b2d8a305095700b8c568b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 19/31] fix: the upper-limit options of one plot leaked into
 later plots

---
 src/naima/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index a32416e..6d00fa3 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1039,6 +1039,9 @@ def _plot_data_to_ax(
 
     groups = np.unique(data_all["group"])
 
+    # the options given by the user (or the default) must not be modified
+    ulim_opts = dict(ulim_opts)
+
     for g in groups:
         data = data_all[np.where(data_all["group"] == g)]
         _, sedfg = sed_conversion(data["energy"], data["flux"].unit, sed)
-- 
2.43.0


From 1ac345e14b6ae1ba8bbb38bd4cc632b4df0b5882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 20/31] fix: run_sampler could not continue a run after closing
 its pool

---
 src/naima/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/core.py b/src/naima/core.py
index 4b5ae1f..b726bcc 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -543,6 +543,8 @@ def run_sampler(nrun=100, sampler=None, pos=None, **kwargs):
     if hasattr(sampler, "_naima_pool") and sampler._naima_pool is not None:
         sampler._naima_pool.close()
         sampler._naima_pool.join()
+        # a later run of this sampler must not use the closed pool
+        sampler.pool = None
         sampler._naima_pool = None
 
     return sampler, pos
-- 
2.43.0


From 7827eca4ba729374f688e1c775d735175dab6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 21/31] fix: interactive fitter changed initial values outside
 of its slider ranges

---
 src/naima/model_fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 6f96389..c5a96e0 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -201,6 +201,9 @@ class InteractiveModelFitter:
                 # only linear
                 pmin, pmax = valinit / 100, valinit * 100
 
+            # the slider would otherwise start away from the initial value
+            pmin, pmax = min(pmin, pmax, valinit), max(pmin, pmax, valinit)
+
             slider = Slider(
                 parax, label, pmin, pmax, valinit=valinit, valfmt="%.4g", **slider_props
             )
-- 
2.43.0


From 7121c6d9379210682f2fb2a360315d5dc07fabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 22/31] fix: plot_data with negative fluxes

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 6d00fa3..6db344b 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1056,7 +1056,7 @@ def _plot_data_to_ax(
         # Hack to show y errors compatible with 0 in loglog plot
         yerr_lo = data["flux_error_lo"][notul]
         y = data["flux"][notul].to(yerr_lo.unit)
-        bad_err = np.where((y - yerr_lo) <= 0.0)
+        bad_err = np.where((y > 0.0) & ((y - yerr_lo) <= 0.0))
         yerr_lo[bad_err] = y[bad_err] * (1.0 - 1e-7)
         yerr = u.Quantity((yerr_lo, data["flux_error_hi"][notul]))
         xerr = u.Quantity((data["energy_error_lo"], data["energy_error_hi"]))
-- 
2.43.0


From f7bb76945a08c1fbe9bbfdd85c0749dd0dbf9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 23/31] fix: plot_data when no detection is larger than its
 lower error

---
 src/naima/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 6db344b..c991894 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1111,8 +1111,9 @@ def _plot_data_to_ax(
             data_all["flux_error_lo"][notul] * sedf[notul]
         ).to(f_unit).value
         gooderr = np.where(data_all["flux_error_lo"][notul] < data_all["flux"][notul])
-        ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
-        ax1.set_ylim(bottom=ymin)
+        if np.size(gooderr) > 0:
+            ymin = 10 ** np.floor(np.log10(np.min(elo[gooderr])))
+            ax1.set_ylim(bottom=ymin)
 
     if ylabel is None:
         if sed:
-- 
2.43.0


From 0b4aff2b8f1076dfce8cc8de5b5a97f801fdaa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 24/31] fix: residuals of models with their own energies at
 energies small in their unit

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index c991894..2e2b75b 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1149,7 +1149,7 @@ def _plot_residuals_to_ax(
 
     interp = False
     if data_all["energy"].size != MLene.size or not np.allclose(
-        data_all["energy"].value, MLene.value
+        data_all["energy"].to(e_unit).value, MLene.value, atol=0
     ):
         interp = True
         from scipy.interpolate import interp1d
-- 
2.43.0


From ef38d5db241f1692253f9e8a2bfa48c5d6f43041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:57 +0000
Subject: [PATCH 25/31] fix: plot_data ignored the energy unit of a previous
 plot in the figure

---
 src/naima/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 2e2b75b..6be1907 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1274,7 +1274,10 @@ def plot_data(
 
     # try to get units from previous plot in figure
     try:
-        old_e_unit = u.Unit(ax1.get_xlabel().split("[")[-1].split("]")[0])
+        old_unit_label = ax1.get_xlabel().split("[")[-1].split("]")[0]
+        # the unit is written by plot_data in the latex_inline format
+        old_unit_label = old_unit_label.replace(r"$\mathrm{", "").replace("}$", "")
+        old_e_unit = u.Unit(old_unit_label)
     except ValueError:
         old_e_unit = u.Unit("")
 
-- 
2.43.0


From ee36f02af2b1500589e212156bb3d6906647696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:55 +0000
Subject: [PATCH 26/31] fix: read_run dropped blobs beyond the first 100

---
 src/naima/analysis.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index e3cc2f8..2cfa455 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -542,13 +542,10 @@ def read_run(filename, modelfn=None):
     # blobs
     nsteps, nwalkers, nblobs = result.chain.shape
     blobs = {}
-    for i in range(100):
+    # there might be gaps because blobs of unknown format are not saved
+    for i in sorted(int(k[4:]) for k in f["mcmc"] if k.startswith("blob")):
         # first read each of the blobs and convert to Quantities
-        try:
-            ds = f["mcmc/blob{0}".format(i)]
-        except KeyError:
-            # there might be gaps because blobs of unknown format are not saved
-            continue
+        ds = f["mcmc/blob{0}".format(i)]
         if "unit" in ds.attrs:
             blobs[i] = u.Quantity(ds[()], unit=ds.attrs["unit"])
         else:
-- 
2.43.0


From 6660f8494c0bf5db2b44b93e9f7ac2a059ee8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:01 +0000
Subject: [PATCH 27/31] fix: save_diagnostic_plots modified the caller's list
 of blob labels

---
 src/naima/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 2cfa455..fdcb95b 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -133,7 +133,9 @@ def save_diagnostic_plots(
     elif len(blob_labels) < len(modelidxs):
         # Add labels
         n = len(blob_labels)
-        blob_labels += ["Model output {0}".format(idx) for idx in modelidxs[n:]]
+        blob_labels = list(blob_labels) + [
+            "Model output {0}".format(idx) for idx in modelidxs[n:]
+        ]
 
     for modelidx, plot_sed, label in zip(modelidxs, sed, blob_labels):
         try:
-- 
2.43.0


From 2825c3ddcc6b734af6dde57a9c3ac51b484b4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 28/31] fix: find_ML with a model returning only a spectrum and
 no stored outputs

---
 src/naima/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 6be1907..8d5c5f8 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -685,8 +685,11 @@ def find_ML(sampler, modelidx):
         else:
             raise TypeError("Model {0} has wrong blob format".format(modelidx))
     elif modelidx is not None and hasattr(sampler, "modelfn"):
+        modelout = sampler.modelfn(MLp, sampler.data)
+        if isinstance(modelout, np.ndarray):
+            modelout = [modelout]
         blob = _process_blob(
-            [sampler.modelfn(MLp, sampler.data)],
+            [modelout],
             modelidx,
             energy=sampler.data["energy"],
         )
-- 
2.43.0


From 537ddb7008c50e9b1828746e26b67d83418f4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:58 +0000
Subject: [PATCH 29/31] fix: scalar outputs of fits to a single data point were
 taken for spectra

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 8d5c5f8..3cb63bc 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -292,7 +292,7 @@ def _process_blob(sampler, modelidx, last_step=False, energy=None):
         last_step = True
 
     if isinstance(blob0, u.Quantity):
-        if blob0.size == energy.size:
+        if blob0.ndim > 0 and blob0.size == energy.size:
             # Energy array for blob is not provided, use data['energy']
             modelx = energy
         elif blob0.size == 1:
-- 
2.43.0


From d285cffaa073af11495f7fa41b94c7b31356681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 30/31] fix: do not extend the caller's list of labels in the
 interactive fitter

---
 src/naima/model_fitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index c5a96e0..5189a16 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -74,7 +74,10 @@ class InteractiveModelFitter:
         if labels is None:
             labels = ["par{0}".format(i) for i in range(npars)]
         elif len(labels) < npars:
-            labels += ["par{0}".format(i) for i in range(len(labels), npars)]
+            # do not extend the list of the caller
+            labels = list(labels) + [
+                "par{0}".format(i) for i in range(len(labels), npars)
+            ]
 
         self.hasdata = data is not None
         self.data = None
-- 
2.43.0


From 2bb3dea8ebef5707fe435b548b0c25d9e459614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 31/31] fix: convert scalar outputs to a common unit in the
 results table

---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index fdcb95b..507b02a 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -325,7 +325,7 @@ def save_results_table(
                         for walkerblob in step:
                             blobl.append(walkerblob[idx])
                 if unit:
-                    dist = np.array([b.value for b in blobl])
+                    dist = np.array([b.to_value(unit) for b in blobl])
                     metadata["blob{0}_unit".format(idx)] = unit.to_string()
                 else:
                     dist = np.array(blobl)
-- 
2.43.0

