From 83622ca2a12b690395983af8cdbe115efbfea054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 01/44] fix: publish the cosmology table atomically

Cosmology.extend assigned self.z before self.Dc/self.Vc were recomputed, so an interrupted
call, or a call running in another thread, left or saw a redshift grid that did not match
the distances (wrong answers or shape errors for every later caller).
---
 gwinferno/cosmology.py | 56 +++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index b6c9eba..aef3c4e 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -41,9 +41,22 @@ class Cosmology(object):
 
         self.extend(max_z, dz=dz)
 
+    @property
+    def z(self):
+        return self._table[0]
+
+    @property
+    def Dc(self):
+        return self._table[1]
+
+    @property
+    def Vc(self):
+        return self._table[2]
+
     @property
     def DL(self):
-        return self.Dc * (1 + self.z)
+        z, Dc, _ = self._table
+        return Dc * (1 + z)
 
     def update(self, i, x):
 
@@ -64,17 +77,19 @@ class Cosmology(object):
 
     def extend(self, max_z, dz=DEFAULT_DZ):
         """
-        integrate to solve for distance measures.
+        integrate to solve for distance measures. Returns the new table of (z, Dc, Vc).
         """
 
-        self.z = jnp.arange(0, max_z, dz)
-        Dc = jnp.zeros_like(self.z)
-        Vc = jnp.zeros_like(self.z)
+        z = jnp.arange(0, max_z, dz)
+        Dc = jnp.zeros_like(z)
+        Vc = jnp.zeros_like(z)
 
-        X = jnp.array([self.z, Dc, Vc])
-        extended_X = fori_loop(0, self.z.shape[0] - 1, self.update, X)
-        self.Dc = extended_X[1]
-        self.Vc = extended_X[2]
+        X = jnp.array([z, Dc, Vc])
+        extended_X = fori_loop(0, z.shape[0] - 1, self.update, X)
+        # publish all columns in a single assignment so that an interrupted or concurrent call never sees a mismatched table
+        table = (z, extended_X[1], extended_X[2])
+        self._table = table
+        return table
 
     def z2E(self, z):
         """
@@ -113,29 +128,30 @@ class Cosmology(object):
         return Dc for each z specified
         """
         max_z = jnp.max(z)
-        if jnp.greater(max_z, jnp.max(self.z)):
-            self.extend(max_z=max_z, dz=dz)
-            return jnp.interp(z, self.z, self.Dc)
-        else:
-            return jnp.interp(z, self.z, self.Dc)
+        table = self._table
+        if jnp.greater(max_z, jnp.max(table[0])):
+            table = self.extend(max_z=max_z, dz=dz)
+        return jnp.interp(z, table[0], table[1])
 
     def DL2z(self, DL, dz=DEFAULT_DZ):
         """
         returns redshifts for each DL specified.
         """
         max_DL = jnp.max(DL)
-        if max_DL > jnp.max(self.DL):  # need to extend the integration
-            self.extend(max_DL=max_DL, dz=dz)
-        return jnp.interp(DL, self.DL, self.z)
+        table = self._table
+        if max_DL > jnp.max(table[1] * (1 + table[0])):  # need to extend the integration
+            table = self.extend(max_DL=max_DL, dz=dz)
+        return jnp.interp(DL, table[1] * (1 + table[0]), table[0])
 
     def z2DL(self, z, dz=DEFAULT_DZ):
         """
         returns luminosity distance at the specified redshifts
         """
         max_z = jnp.max(z)
-        if max_z > jnp.max(self.z):
-            self.extend(max_z=max_z, dz=dz)
-        return jnp.interp(z, self.z, self.DL)
+        table = self._table
+        if max_z > jnp.max(table[0]):
+            table = self.extend(max_z=max_z, dz=dz)
+        return jnp.interp(z, table[0], table[1] * (1 + table[0]))
 
 
 # define default cosmology
-- 
2.43.0


From a968af284f237e94423494bf6365403fc8e26445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 02/44] fix: DL2z beyond the tabulated distance

extend() has no max_DL argument, so converting a luminosity distance beyond the table
raised TypeError. Extend in redshift until the table covers the requested distance.
---
 gwinferno/cosmology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index aef3c4e..14caa04 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -139,8 +139,8 @@ class Cosmology(object):
         """
         max_DL = jnp.max(DL)
         table = self._table
-        if max_DL > jnp.max(table[1] * (1 + table[0])):  # need to extend the integration
-            table = self.extend(max_DL=max_DL, dz=dz)
+        while max_DL > jnp.max(table[1] * (1 + table[0])):  # need to extend the integration
+            table = self.extend(max_z=2 * jnp.max(table[0]), dz=dz)
         return jnp.interp(DL, table[1] * (1 + table[0]), table[0])
 
     def z2DL(self, z, dz=DEFAULT_DZ):
-- 
2.43.0


From bb3607688060a24fbe74c1636b2d9bbb4712edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:11 +0000
Subject: [PATCH 03/44] fix: extended cosmology table must reach the requested
 redshift

arange(0, max_z, dz) stops short of max_z, so after an extension the largest requested
redshift was clamped to the previous grid point (2% error at z=0.02 with a small table).
---
 gwinferno/cosmology.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index 14caa04..118bc97 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -80,7 +80,7 @@ class Cosmology(object):
         integrate to solve for distance measures. Returns the new table of (z, Dc, Vc).
         """
 
-        z = jnp.arange(0, max_z, dz)
+        z = jnp.arange(0, max_z + dz, dz)  # the last grid point must not fall short of max_z
         Dc = jnp.zeros_like(z)
         Vc = jnp.zeros_like(z)
 
@@ -138,6 +138,8 @@ class Cosmology(object):
         returns redshifts for each DL specified.
         """
         max_DL = jnp.max(DL)
+        if jnp.isposinf(max_DL):
+            raise ValueError("luminosity distance must be finite")
         table = self._table
         while max_DL > jnp.max(table[1] * (1 + table[0])):  # need to extend the integration
             table = self.extend(max_z=2 * jnp.max(table[0]), dz=dz)
-- 
2.43.0


From 562fec1576a74b53049f22f7b7fd786cbda59f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:47 +0000
Subject: [PATCH 04/44] fix: save the PE/injection file atomically

Writing in place truncated the previously saved file first, so a crash, an
interrupt or a write error during a save destroyed it.
---
 gwinferno/preprocess/data_collection.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 588d3b2..3a03e68 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -3,6 +3,8 @@ a module that stores functions for collecting input data (GW Posteriors and Inje
 """
 
 import json
+import os
+import threading
 
 import arviz as az
 import h5py
@@ -204,7 +206,20 @@ def save_posterior_samples_and_injection_datasets_as_idata(filename, posterior_d
     idata = az.InferenceData(pe_data=posterior_dataset, inj_data=injection_dataset)
     if ".h5" not in filename:
         raise AssertionError("filename must use .h5 extension")
-    idata.to_netcdf(filename)
+
+    # write a temporary file next to the target and move it into place only when it is complete and on disk, so that a crash or
+    # a failed write never destroys previously saved data and readers never see a partial file
+    target = os.path.realpath(filename)
+    tmp = f"{target}.{os.getpid()}-{threading.get_ident()}.tmp"
+    try:
+        idata.to_netcdf(tmp)
+        with open(tmp, "rb+") as f:
+            os.fsync(f.fileno())
+        os.replace(tmp, target)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
 
 
 def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
-- 
2.43.0


From 3bd031c4bcde290567de788a2be2c3b7a32a12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:47 +0000
Subject: [PATCH 05/44] fix: load the PE/injection file from one snapshot

The file was opened several times and read lazily, so a load overlapping a
save could pair PE samples of one version with injections of another.
---
 gwinferno/pipeline/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index d0bc56f..ad15576 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -1,3 +1,4 @@
+import io
 from argparse import ArgumentParser
 
 import arviz as az
@@ -71,7 +72,10 @@ def load_pe_and_injections_as_dict(file, ignore=None):
     --------
     gwinferno.preprocess.data_collection.save_posterior_samples_and_injection_datasets_as_idata
     """
-    data = az.from_netcdf(file)
+    # az.from_netcdf opens the file several times and reads lazily, so take a snapshot first: a file that is replaced
+    # during the load must not contribute PE samples of one version and injections of another
+    with open(file, "rb") as f:
+        data = az.from_netcdf(io.BytesIO(f.read()))
     print(f"data file {file} loaded")
 
     if ignore is not None:
-- 
2.43.0


From 3413b9449dfcaa3b5bf368dc6ccacc7c25a0f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:36 +0000
Subject: [PATCH 06/44] fix: check the PE/injection file before it replaces the
 old one

A write error during HDF5's final flush is not reported, so the save returned
normally and left a corrupt file in place of the good one.
---
 gwinferno/preprocess/data_collection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 3a03e68..6b69aa0 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -2,6 +2,7 @@
 a module that stores functions for collecting input data (GW Posteriors and Injections)
 """
 
+import io
 import json
 import os
 import threading
@@ -215,6 +216,15 @@ def save_posterior_samples_and_injection_datasets_as_idata(filename, posterior_d
         idata.to_netcdf(tmp)
         with open(tmp, "rb+") as f:
             os.fsync(f.fileno())
+            # HDF5 can lose a failed write without reporting it, so check what has been written before replacing the target
+            written = az.from_netcdf(io.BytesIO(f.read()))
+            for group, dataset in ("pe_data", posterior_dataset), ("inj_data", injection_dataset):
+                same = written[group].equals(dataset)
+                for name, value in dataset.attrs.items():
+                    a, b = np.ravel(written[group].attrs.get(name)), np.ravel(value)
+                    same &= a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
+                if not same:
+                    raise OSError(f"{group} could not be written to {filename}")
         os.replace(tmp, target)
     except BaseException:
         if os.path.exists(tmp):
-- 
2.43.0


From abbd3ec14250b31b4cb19f39a3b058b23bf0e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:29 +0000
Subject: [PATCH 07/44] fix: nObs must count the events that were loaded

Events excluded with ignore were still counted as observed.
---
 gwinferno/pipeline/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index ad15576..00de8ab 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -93,7 +93,7 @@ def load_pe_and_injections_as_dict(file, ignore=None):
 
     total_inj = data.inj_data.attrs["total_generated"]
     obs_time = data.inj_data.attrs["analysis_time"]
-    nObs = data.pe_data.posteriors.shape[0]
+    nObs = pedict[param_names[0]].shape[0]
 
     constants = {"total_inj": total_inj, "obs_time": obs_time, "nObs": nObs}
 
-- 
2.43.0


From f5ab552db996056299e58711c20e3e007da0df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:29 +0000
Subject: [PATCH 08/44] fix: pass the redshift model the grid and volume
 element it takes

The redshift distribution has no grid argument, so every model built from a
config file raised a TypeError.
---
 gwinferno/pipeline/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 54f1a11..80b9402 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -15,6 +15,7 @@ from numpyro.infer import Trace_ELBO
 from numpyro.infer import autoguide
 from numpyro.optim import Adam
 
+from ..cosmology import PLANCK_2015_LVK_Cosmology as cosmo
 from .parser import PopMixtureModel
 from .parser import PopModel
 
@@ -370,6 +371,7 @@ def construct_hierarchical_model(
 
     if "redshift" in pop_models.keys():
         z_grid = jnp.linspace(1e-9, prior_dict["redshift_maximum"], 1000)
+        dVcdz_grid = cosmo.dVcdz(z_grid)
 
     def model(samps, injs, Ninj, Nobs, Tobs):
         for k, v in prior_dict.items():
@@ -389,7 +391,8 @@ def construct_hierarchical_model(
             elif isinstance(v, PopModel):
                 hps = {p: hyper_params[f"{k}_{p}"] for p in v.params}
                 if k == "redshift":
-                    hps["grid"] = z_grid
+                    hps["zgrid"] = z_grid
+                    hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
                 iid_mapping[v] = k
-- 
2.43.0


From 5c63a4afba7ed88d95007da70510162c4931b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:29 +0000
Subject: [PATCH 09/44] fix: a parameter that shares a model must use the model
 of the parameter it names

The mapping was inverted, so the shared model was overwritten with None.
---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 80b9402..54fbd32 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -395,7 +395,7 @@ def construct_hierarchical_model(
                     hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
-                iid_mapping[v] = k
+                iid_mapping[k] = v
             else:
                 raise ValueError(f"Unknown model type: {type(v)}:{v}")
         for shared_param, param in iid_mapping.items():
-- 
2.43.0


From 931feae85858369680e34075e09b28fb457f5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 10/44] fix: read iid of a mixture model where it is read for
 other models

An iid entry of a mixture model was ignored, silently dropping the parameter.
---
 gwinferno/pipeline/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 62520af..d543a6f 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -114,8 +114,8 @@ class ConfigReader(object):
             for hp in subd[name]["hyper_params"]:
                 self.add_prior(f"{param}_component_{i + 1}_{hp}", subd[name]["hyper_params"][hp])
         self.models[param] = PopMixtureModel(model, mix_dist, mix_params, components, component_params)
-        if "iid" in subd[name]:
-            self.add_iid_model(param, subd[name]["iid"]["shared_parameter"])
+        if "iid" in subd:
+            self.add_iid_model(param, subd["iid"]["shared_parameter"])
 
 
 def load_base_parser():
-- 
2.43.0


From 6c08ae9de325901a31a7ff559dcbc480a931efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 11/44] fix: parsing a config must not keep models of a
 previously parsed one

---
 gwinferno/pipeline/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index d543a6f..9869541 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -58,6 +58,7 @@ class ConfigReader(object):
     def parse(self, yml_file):
         with open(yml_file, "r") as f:
             yml = yaml.safe_load(f)
+        self.models, self.priors, self.sampling_params = {}, {}, []
         self.label = yml.pop("label", "label")
         self.outdir = yml.pop("outdir", "./")
         self.data_conf = yml.pop("data", {})
-- 
2.43.0


From bae4c029d174108907852d01d04274b53f358a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 12/44] fix: alpha_beta_from_mu_var must not modify its
 arguments

---
 gwinferno/preprocess/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/conversions.py b/gwinferno/preprocess/conversions.py
index ca97a57..d86ecb5 100644
--- a/gwinferno/preprocess/conversions.py
+++ b/gwinferno/preprocess/conversions.py
@@ -103,8 +103,8 @@ def alpha_beta_from_mu_var(mu, var, xmax=1):
         Tuple of arrays with shape matching inputs that represent the
         α, β shape parameters corresponding to the desired means and variances.
     """
-    mu /= xmax
-    var /= xmax**2
+    mu = mu / xmax
+    var = var / xmax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta
-- 
2.43.0


From 76dab6f20efa1b284b739a6cf02a842c45a2ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 13/44] fix: projecting coefficients must not modify them

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index aab3c38..0f5317d 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -203,7 +203,7 @@ class BasisSpline(object):
         Returns:
             array_like: The linear combination of the basis components given the coefficients
         """
-        coefs /= jnp.sum(coefs)
+        coefs = coefs / jnp.sum(coefs)
         return jnp.einsum("i...,i->...", bases, coefs) * self.norm(coefs)
 
     def eval(self, xs, coefs):
-- 
2.43.0


From a5304bac3500f4b538548be508b5cced47abdf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 14/44] fix: bivariate spline design matrix

Evaluating it raised an AttributeError, and its x and y indices were swapped.
---
 gwinferno/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 0f5317d..583bd6f 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -519,10 +519,10 @@ class RectBivariateBasisSpline(object):
         """
         self.x_bases = self.x_interpolator.bases(xs)
         self.y_bases = self.y_interpolator.bases(ys)
-        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for i in range(self.xdf)] for j in range(self.ydf)]).reshape(
+        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for j in range(self.ydf)] for i in range(self.xdf)]).reshape(
             self.xdf, self.ydf, *xs.shape
         )
-        self.reset_bases()
+        self._reset_bases()
         return out
 
     def _project(self, bases, coefs):
-- 
2.43.0


From cc959ee014755f97b566eeaea49459d0739d79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 15/44] fix: let jax transformations take a cubic spline

tree_flatten has to return (children, aux_data).
---
 gwinferno/interpolation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 583bd6f..839293e 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -43,12 +43,14 @@ class NaturalCubicUnivariateSpline(object):
 
     def tree_flatten(self):
         children = (self._x, self._y, self._coefficients)
-        return children
+        return children, None
 
     @classmethod
-    def tree_unflatten(cls, children):
-        x, y, coefs = children
-        return cls(x, y, coefs)
+    def tree_unflatten(cls, aux_data, children):
+        spline = object.__new__(cls)  # children may be placeholders, so they cannot be validated here
+        spline.k = 3
+        spline._x, spline._y, spline._coefficients = children
+        return spline
 
     def __call__(self, x):
         t, a, b, c, d = self._compute_coeffs(x)
-- 
2.43.0


From 2bdd511408f44f52603dfe0d244cd67cc1b58a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 16/44] fix: exporting posteriors must not modify the posterior
 dict

---
 gwinferno/pipeline/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 00de8ab..075a64a 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -222,15 +222,16 @@ def bspline_redshift_prior(z_nsplines=None, z_tau=None, name=None, z_cs_sig=1, z
 
 def posterior_dict_to_xarray(posteriors):
 
+    xr_dict = {}
     for key in posteriors.keys():
         n_samples = posteriors[key].shape[0]
-        posteriors[key] = {"dims": "draw", "data": posteriors[key]}
+        xr_dict[key] = {"dims": "draw", "data": posteriors[key]}
 
-        if posteriors[key]["data"].shape != (n_samples,):
-            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key]["data"].shape) - 1)]
-            posteriors[key]["dims"] = new_dims
+        if posteriors[key].shape != (n_samples,):
+            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key].shape) - 1)]
+            xr_dict[key]["dims"] = new_dims
 
-    return xr.Dataset.from_dict(posteriors)
+    return xr.Dataset.from_dict(xr_dict)
 
 
 def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
-- 
2.43.0


From ea86dbf2d0061d9ee90f9086732284969d6eae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 17/44] fix: export the redshift pdfs of runs with
 subpopulations

They were dropped from the result and deleted from the caller's dict.
---
 gwinferno/pipeline/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 075a64a..38bc581 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -241,10 +241,9 @@ def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
         xr_dict = xr_dict | pdfs
     else:
         z = {"redshift_pdfs": (["draw", "redshift"], pdf_dict["redshift"])}
-        xr_dict | z
-        del pdf_dict["redshift"]
+        xr_dict = xr_dict | z
         for i, nm in enumerate(subpop_names):
-            single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items()}
+            single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items() if key != "redshift"}
             xr_dict = xr_dict | single
 
     coords = {key: ([key], item) for key, item in param_dict.items()}
-- 
2.43.0


From 69cfe5b9bc4d4b54db93e08c35473a43fefa8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 18/44] fix: default in-plane spins must match the number of
 injections

They were sized by the number of found injections and then indexed with the
mask over all injections, which fails for aligned-spin injection files.
---
 gwinferno/preprocess/selection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index d2f30ec..3952cc6 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -96,7 +96,7 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if additional_cuts is not None:
             for k in additional_cuts.keys():
                 found = found | (data[k][()] >= additional_cuts[k])
-        n_found = sum(found)
+        no_spin = np.zeros(found.shape)
         injs = dict(
             mass_1=data["mass1_source"][()][found],
             mass_2=data["mass2_source"][()][found],
@@ -118,8 +118,8 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if ("a_1" in param_names) | ("chi_eff" in param_names):
             for ii in [1, 2]:
                 injs[f"a_{ii}"] = (
-                    data.get(f"spin{ii}x", np.zeros(n_found))[()][found] ** 2
-                    + data.get(f"spin{ii}y", np.zeros(n_found))[()][found] ** 2
+                    data.get(f"spin{ii}x", no_spin)[()][found] ** 2
+                    + data.get(f"spin{ii}y", no_spin)[()][found] ** 2
                     + data[f"spin{ii}z"][()][found] ** 2
                 ) ** 0.5
                 injs[f"cos_tilt_{ii}"] = data[f"spin{ii}z"][()][found] / injs[f"a_{ii}"]
-- 
2.43.0


From 9a8adcdb2dcd57013234ddd79270ef4415be3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 19/44] fix: shape of chi_p of PE samples

Loading PE samples with chi_p raised.
---
 gwinferno/preprocess/data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 6b69aa0..dff3410 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -364,7 +364,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
         if chip:
             chip_array = xr.DataArray(
-                chi_p.reshape(1, chi_p.shape[0]),
+                chi_p.reshape(chi_p.shape[0], 1, chi_p.shape[1]),
                 dims=["event", "param", "samples"],
                 coords={"event": dat_array.event, "param": ["chi_p"], "samples": dat_array.samples},
             )
-- 
2.43.0


From 0b09fd74b1e89106ffe2cd5a86828807a35b194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:30 +0000
Subject: [PATCH 20/44] fix: PowerlawBasisSplinePrimaryRatio could not be
 constructed

---
 gwinferno/models/spline_perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 7c804e3..3decc76 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -217,7 +217,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
         self.qdmats = [self.qinj_design_matrix, self.qpe_design_matrix]
-        self.qshapes = [(self.qknots, 1), (self.qknots, 1, 1)]
+        self.qshapes = [(self.n_splines_q, 1), (self.n_splines_q, 1, 1)]
         self.norm_design_matrix = jnp.array(self.interpolator.bases(np.log(self.mm)))
         self.qnorm_design_matrix = jnp.array(self.qinterpolator.bases(self.qq))
 
-- 
2.43.0


From b81a2a336b2b7d27efd27c7a8f593a815ef423b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:57 +0000
Subject: [PATCH 21/44] fix: load the model from the file that was named

Importing it by module name returned the model of another file with the same
name, or of an older version of the same file.
---
 gwinferno/pipeline/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 9869541..71de798 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -2,9 +2,11 @@
 a module that stores tools for parsing CLI arguments and config files for analysis pipelines
 """
 
+import os
 import sys
 from argparse import ArgumentParser
 from importlib import import_module
+from types import ModuleType
 
 import jax.numpy as jnp
 import yaml
@@ -32,10 +34,13 @@ class PopMixtureModel(PopModel):
 
 
 def load_model_from_python_file(path):
-    fn = path.split("/")[-1]
-    direct = path.replace(f"/{fn}", "")
-    sys.path.append(direct)
-    return getattr(import_module(fn.replace(".py", "")), "model")
+    path = os.path.abspath(path)
+    sys.path.append(os.path.dirname(path))
+    module = ModuleType(os.path.basename(path).removesuffix(".py"))
+    module.__file__ = path
+    with open(path, "rb") as f:
+        exec(compile(f.read(), path, "exec"), module.__dict__)
+    return getattr(module, "model")
 
 
 def load_dist_from_string(dist):
-- 
2.43.0


From 33d76b5c156ff7c9181a4b73c5b3c740219ab247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:24 +0000
Subject: [PATCH 22/44] fix: maximum chi_p for spins limited to a_max

The largest aligned contribution of the secondary is q * a_max, so for a_max < 1 the prior had support at unphysical chi_p.
---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index b53d987..1872689 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -317,7 +317,7 @@ def chi_p_prior_given_chi_eff_q(chi_p, chi_eff, q, a_max=1.0, ndraws=10000, bw_m
     if (1.0 + q) * np.abs(chi_eff) / q < a_max:
         max_chi_p = a_max
     else:
-        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q) ** 2.0)
+        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q * a_max) ** 2.0)
 
     # Set up a grid slightly inside (0,max chi_p) and evaluate KDE
     reference_grid = np.linspace(0.05 * max_chi_p, 0.95 * max_chi_p, 50)
-- 
2.43.0


From 99a9d61cfce357ba3bfbd6d0b9b02763e717bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:24 +0000
Subject: [PATCH 23/44] fix: register the module of a model file while it
 executes

Model files that use dataclasses with postponed annotations, or whose model is pickled, need their module in sys.modules.
---
 gwinferno/pipeline/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 71de798..652cfbe 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -36,10 +36,16 @@ class PopMixtureModel(PopModel):
 def load_model_from_python_file(path):
     path = os.path.abspath(path)
     sys.path.append(os.path.dirname(path))
-    module = ModuleType(os.path.basename(path).removesuffix(".py"))
+    # registered under a name of its own: files with the same base name must neither share a module nor replace an imported one
+    module = ModuleType(path.replace(".", "_"))
     module.__file__ = path
-    with open(path, "rb") as f:
-        exec(compile(f.read(), path, "exec"), module.__dict__)
+    sys.modules[module.__name__] = module
+    try:
+        with open(path, "rb") as f:
+            exec(compile(f.read(), path, "exec"), module.__dict__)
+    except BaseException:
+        sys.modules.pop(module.__name__, None)
+        raise
     return getattr(module, "model")
 
 
-- 
2.43.0


From 05f6a51e0697462a1f96bd3c2385503e3aec6d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:45 +0000
Subject: [PATCH 24/44] fix: chi_p prior densities are arrays of length one

Loading PE samples or injections with chi_p raised.
---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index dff3410..b8371ba 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -274,7 +274,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                             np.array(q[ii]),
                             a_max=1.0,
                         )
-                    )
+                    )[0]
                 )
             else:
 
@@ -305,7 +305,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                                 np.array(q[ii][jj]),
                                 a_max=1.0,
                             )
-                        )
+                        )[0]
                     )
                 else:
                     new_prior[ii][jj] = (
-- 
2.43.0


From 952abf60a7eb952c1a1c0c28291a095baeb63275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:34 +0000
Subject: [PATCH 25/44] fix: chi_p of aligned spins

Rounding can make |cos tilt| of an aligned spin slightly larger than one, which turned chi_p and its prior into nan.
---
 gwinferno/preprocess/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/conversions.py b/gwinferno/preprocess/conversions.py
index d86ecb5..9b8503a 100644
--- a/gwinferno/preprocess/conversions.py
+++ b/gwinferno/preprocess/conversions.py
@@ -57,8 +57,8 @@ def chip_from_q_component_spins(q, a1, a2, ct1, ct2, math=np):
     array_like
         Effective precessing spin.
     """
-    sint1 = math.sqrt(1.0 - ct1**2)
-    sint2 = math.sqrt(1.0 - ct2**2)
+    sint1 = math.sqrt(math.maximum(1.0 - ct1**2, 0.0))  # |ct1| of an aligned spin can exceed 1 by rounding
+    sint2 = math.sqrt(math.maximum(1.0 - ct2**2, 0.0))  # |ct2| of an aligned spin can exceed 1 by rounding
     return math.maximum(a1 * sint1, ((3.0 + 4.0 * q) / (4.0 + 3.0 * q)) * q * a2 * sint2)
 
 
-- 
2.43.0


From e31e41086bde46c70e3366835d2455e9cbc3f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 26/44] fix: density of a power law of index -1

---
 gwinferno/numpyro_distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 7b8a99a..e240abd 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -127,8 +127,8 @@ class Powerlaw(Distribution):
     @validate_sample
     def log_prob(self, value):
         logp = self.alpha * jnp.log(value)
-        logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
-        logp_neg1 = -jnp.log(value) - jnp.log(self.maximum / self.minimum)
+        logp = logp + jnp.log(jnp.divide(1.0 + self.alpha, self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
+        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
             jnp.nan_to_num(-jnp.inf),
@@ -147,7 +147,7 @@ class Powerlaw(Distribution):
 
     def icdf(self, q):
         icdf = (self.minimum ** (1.0 + self.alpha) + q * (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha))) ** (
-            1.0 / (1.0 + self.alpha)
+            jnp.divide(1.0, 1.0 + self.alpha)
         )
         icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(self.maximum / self.minimum))
         return jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf)
-- 
2.43.0


From 7ce0fa6c3aff6c69d626c882e0b9d148c21c10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 27/44] fix: normalisation of PowerlawSmoothedPowerlaw

---
 gwinferno/numpyro_distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index e240abd..a498dd8 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -219,17 +219,17 @@ class PowerlawSmoothedPowerlaw(Distribution):
         batch_shape = broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(alpha), jnp.shape(alpha_max), jnp.shape(alpha_min))
         super(PowerlawSmoothedPowerlaw, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         gamma = (self.alpha_min + 1) / (self.minimum ** (self.alpha_min + 1) - self.low ** (self.alpha_min + 1))
-        self.k1 = -gamma / (
+        self.k1 = gamma / (
             1
             + gamma
             / (self.alpha + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
-            * (self.minimum ** (self.alpha + 1) - self.maximum ** (self.alpha + 1))
+            * (self.maximum ** (self.alpha + 1) - self.minimum ** (self.alpha + 1))
             + gamma
             / (self.alpha_max + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
             * self.maximum ** (self.alpha - self.alpha_max)
-            * (self.maximum ** (self.alpha_max + 1) - self.high ** (self.alpha_max + 1))
+            * (self.high ** (self.alpha_max + 1) - self.maximum ** (self.alpha_max + 1))
         )
         self.k2 = self.k1 * self.minimum ** (self.alpha_min - self.alpha)
         self.k3 = self.k2 * self.maximum ** (self.alpha - self.alpha_max)
-- 
2.43.0


From 56cd0cfce840b0f27999235fb0965dd4c50dbd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 28/44] fix: squaring the number of injections overflowed

An integer number of injections above 46340 (every real set) wrapped around in int32, which gave a wrong effective
sample size and so a wrong or rejected likelihood.
---
 gwinferno/pipeline/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 54fbd32..451906f 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -126,11 +126,11 @@ def detection_efficiency(weights, Ninj, log=False):
         logweights = weights
         logmu = logsumexp(logweights) - jnp.log(Ninj)
         mu = jnp.exp(logmu)
-        var = jnp.sum(jnp.exp(logweights) ** 2) / Ninj**2 - mu**2 / Ninj
+        var = jnp.sum(jnp.exp(logweights) ** 2) / Ninj / Ninj - mu**2 / Ninj
         logn_eff = 2 * logmu - jnp.log(var)
     else:
         mu = jnp.sum(weights) / Ninj
-        var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj
+        var = jnp.sum(weights**2) / Ninj / Ninj - mu**2 / Ninj
         logmu = jnp.log(mu)
         logn_eff = 2 * logmu - jnp.log(var)
     variance = 1 / jnp.exp(logn_eff) - 1 / Ninj
-- 
2.43.0


From 85a2b9ce7dd5ae47d953980eb5eb3ea438090071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 29/44] fix: squaring the number of draws overflowed in
 resample_injections

---
 gwinferno/preprocess/selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index 3952cc6..f132fd4 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -151,6 +151,6 @@ def resample_injections(rng_key, model_prob, injdata, Ndraw, param_map, **kwargs
     injdata_new = injdata.at[:, idxs].get()
     p_new = model_prob(injdata_new, **kwargs) / norm
     injdata_new = injdata_new.at[param_map["prior"], :].set(p_new)
-    s2_new = jnp.sum(wts * wts) / (Ndraw * Ndraw) - norm * norm / Ndraw
+    s2_new = jnp.sum(wts * wts) / Ndraw / Ndraw - norm * norm / Ndraw
     Neff_new = norm * norm / s2_new
     return (injdata_new, N, Neff_new)
-- 
2.43.0


From a6d98dfa1d417e6fbe3fe8d129b0566ea01af804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:01 +0000
Subject: [PATCH 30/44] fix: right boundary condition of the natural cubic
 spline

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 839293e..2ee0a23 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -28,7 +28,7 @@ class NaturalCubicUnivariateSpline(object):
             assert n_data > 3, "Not enough input points for cubic spline."
             zero = jnp.array([0.0])
             one = jnp.array([1.0])
-            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, (-one), zero
+            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, zero, zero
             A = jnp.diag(jnp.concatenate((A00, 2 * (h[:-1] + h[1:]), ANN)))
             upper_diag1 = jnp.diag(jnp.concatenate((A01, h[1:])), k=1)
             upper_diag2 = jnp.diag(jnp.concatenate((A02, jnp.zeros(n_data - 3))), k=2)
-- 
2.43.0


From d00b6dfdb52f7a6050728cef83cd7f7925e39969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:01 +0000
Subject: [PATCH 31/44] fix: smoothing window is one above its upper edge

---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 40db691..f89782b 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -17,7 +17,7 @@ def smooth(dx, x, xmin):
 
     func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
     s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) | jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
+    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
     return s2
 
 
-- 
2.43.0


From ba285e0883def4857820a4db0b038d285f8bf53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 32/44] fix: powerlaw_pdf of index -1 with plain numbers

---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index f89782b..2859894 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -112,7 +112,7 @@ def powerlaw_pdf(xx, alpha, low, high, floor=0.0):
     norm = jnp.where(
         alpha == -1,
         1 / jnp.log(high / low),
-        (1 + alpha) / (high ** (1 + alpha) - low ** (1 + alpha)),
+        jnp.divide(1 + alpha, high ** (1 + alpha) - low ** (1 + alpha)),
     )
     prob *= norm
 
-- 
2.43.0


From c68cdcc7e250a8bf05a1c3d6650601e576cd365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 33/44] fix: normalise the redshift spline that is evaluated

---
 gwinferno/models/bsplines/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/bsplines/single.py b/gwinferno/models/bsplines/single.py
index 0a58119..bea31c5 100644
--- a/gwinferno/models/bsplines/single.py
+++ b/gwinferno/models/bsplines/single.py
@@ -464,7 +464,7 @@ class BSplineRedshift(Base1DBSplineModel):
             The redshift normalization constant.
         """
         return trapezoid(
-            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(jnp.einsum("i...,i->...", self.grid_bases, cs)),
+            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(self.eval_spline(self.grid_bases, cs)),
             self.zgrid,
         )
 
-- 
2.43.0


From 4697c93bc815d78bc3db3a15dd25f4cb4512f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 34/44] fix: evaluating a bivariate design matrix must not use
 shared state

---
 gwinferno/interpolation.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 2ee0a23..6dabaeb 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -519,13 +519,9 @@ class RectBivariateBasisSpline(object):
         Returns:
             array_like: the design matrix evaluated at xs. shape (xdf, ydf, *xs.shape)
         """
-        self.x_bases = self.x_interpolator.bases(xs)
-        self.y_bases = self.y_interpolator.bases(ys)
-        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for j in range(self.ydf)] for i in range(self.xdf)]).reshape(
-            self.xdf, self.ydf, *xs.shape
-        )
-        self._reset_bases()
-        return out
+        x_bases = self.x_interpolator.bases(xs)
+        y_bases = self.y_interpolator.bases(ys)
+        return jnp.array([[x_bases[i] * y_bases[j] for j in range(self.ydf)] for i in range(self.xdf)]).reshape(self.xdf, self.ydf, *xs.shape)
 
     def _project(self, bases, coefs):
         """
-- 
2.43.0


From ae481218390daacef88a27f9dd06f3a19b315ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:30 +0000
Subject: [PATCH 35/44] fix: normalisation of PowerlawBasisSplinePrimaryRatio
 was infinite

---
 gwinferno/models/spline_perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 3decc76..a9fcb52 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -257,7 +257,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
         """
         p_m = powerlaw_pdf(self.mm, alpha=-alpha, low=mmin, high=mmax)
         perturbation = jnp.exp(self.interpolator.project(self.norm_design_matrix, cs))
-        p_q = powerlaw_pdf(self.qq, alpha=beta, low=mmin / self.mm, high=1)
+        p_q = jnp.where(jnp.greater(self.mm, mmin), powerlaw_pdf(self.qq, alpha=beta, low=mmin / self.mm, high=1), 0)
         qperturbation = jnp.exp(self.qinterpolator.project(self.qnorm_design_matrix, vs))
         p_mq = p_m * perturbation * p_q * qperturbation
         return trapezoid(trapezoid(p_mq, self.qs, axis=0), self.ms)
-- 
2.43.0


From b974583cad9d622f8240c3be03d4103b0d9e9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:37 +0000
Subject: [PATCH 36/44] fix: beta density at the edges of its range when
 uniform there

---
 gwinferno/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 2859894..dbb3e09 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -5,6 +5,7 @@ a module for basic distribution pdf calculations with jax
 import jax.numpy as jnp
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
+from jax.scipy.special import xlogy
 
 """
 =============================================
@@ -157,6 +158,6 @@ def betadist(xx, alpha, beta, scale=1.0, floor=0.0):
     Returns:
         array_like: pdf evaluated at xx
     """
-    ln_beta = (alpha - 1) * jnp.log(xx) + (beta - 1) * jnp.log(scale - xx) - (alpha + beta - 1) * jnp.log(scale)
+    ln_beta = xlogy(alpha - 1, xx) + xlogy(beta - 1, scale - xx) - (alpha + beta - 1) * jnp.log(scale)
     ln_beta = ln_beta - betaln(alpha, beta)
     return jnp.where(jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0), jnp.exp(ln_beta), floor)
-- 
2.43.0


From d20ce644f62a351cb7915e8005a00055c99dfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 37/44] fix: reading a configuration changed the caller's
 dictionaries

---
 gwinferno/pipeline/parser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 652cfbe..94040bc 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -89,10 +89,8 @@ class ConfigReader(object):
 
     def add_prior(self, key, subd):
         if "prior" in subd and "prior_params" in subd:
-            for k in subd["prior_params"]:
-                if type(subd["prior_params"][k]) is list:
-                    subd["prior_params"][k] = jnp.array(subd["prior_params"][k])
-            self.priors[key] = PopPrior(load_dist_from_string(subd["prior"]), subd["prior_params"])
+            params = {k: jnp.array(v) if type(v) is list else v for k, v in subd["prior_params"].items()}
+            self.priors[key] = PopPrior(load_dist_from_string(subd["prior"]), params)
             self.sampling_params.append(key)
         elif "value" in subd:
             if type(subd["value"]) is list:
-- 
2.43.0


From 7bcf8aa8ef1c883d81b23f52c674bb0a26ce23f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:50 +0000
Subject: [PATCH 38/44] fix: Sine and Cosine densities were normalised for
 their default range only

The draws, cdf and icdf honour minimum and maximum, but log_prob always divided
by 2, the integral over the default range, so that for any other range the
density did not integrate to one.
---
 gwinferno/numpyro_distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index a498dd8..502aed0 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -47,7 +47,7 @@ class Sine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.sin(value) / 2.0)
+        lp = jnp.log(jnp.sin(value) / (jnp.cos(self.minimum) - jnp.cos(self.maximum)))
         return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
 
     def cdf(self, value):
@@ -84,7 +84,7 @@ class Cosine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.cos(value) / 2.0)
+        lp = jnp.log(jnp.cos(value) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
         return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
 
     def cdf(self, value):
-- 
2.43.0


From 9cbadf78ad32b82ef24e5bf29c13ccf508a99c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:10 +0000
Subject: [PATCH 39/44] fix: Powerlaw could not be used with its default
 minimum

Dividing the (Python) maximum by a minimum of 0.0 for the alpha = -1 branch
raised ZeroDivisionError, so that log_prob and draws of Powerlaw(alpha) and of
every power law that starts at zero failed.
---
 gwinferno/numpyro_distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 502aed0..672a383 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -128,7 +128,7 @@ class Powerlaw(Distribution):
     def log_prob(self, value):
         logp = self.alpha * jnp.log(value)
         logp = logp + jnp.log(jnp.divide(1.0 + self.alpha, self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
-        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
+        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(jnp.divide(self.maximum, self.minimum)))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
             jnp.nan_to_num(-jnp.inf),
@@ -139,7 +139,7 @@ class Powerlaw(Distribution):
         cdf = jnp.atleast_1d(value ** (self.alpha + 1.0) - self.minimum ** (self.alpha + 1.0)) / (
             self.maximum ** (self.alpha + 1.0) - self.minimum ** (self.alpha + 1.0)
         )
-        cdf_neg1 = jnp.log(value / self.minimum) / jnp.log(self.maximum / self.minimum)
+        cdf_neg1 = jnp.log(jnp.divide(value, self.minimum)) / jnp.log(jnp.divide(self.maximum, self.minimum))
         cdf = jnp.where(jnp.equal(self.alpha, -1.0), cdf_neg1, cdf)
         cdf = jnp.minimum(cdf, 1.0)
         cdf = jnp.maximum(cdf, 0.0)
@@ -149,7 +149,7 @@ class Powerlaw(Distribution):
         icdf = (self.minimum ** (1.0 + self.alpha) + q * (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha))) ** (
             jnp.divide(1.0, 1.0 + self.alpha)
         )
-        icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(self.maximum / self.minimum))
+        icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(jnp.divide(self.maximum, self.minimum)))
         return jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf)
 
 
-- 
2.43.0


From 840bfd80b50c599321f3d757f6d6fd7866e4ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:10 +0000
Subject: [PATCH 40/44] fix: cdf and draws of the tabulated distributions were
 one grid cell off

cumtrapz(y, x)[i] is the integral between the second and the (i+1)-th grid point,
with each interval's width taken from the interval before it, so that the cdf, the
icdf and all draws of PowerlawRedshift and BSplineDistribution disagreed with
their density (strongly on coarse or non-uniform grids).
---
 gwinferno/numpyro_distributions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 672a383..fc045b7 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -24,6 +24,11 @@ def cumtrapz(y, x):
     return jnp.concatenate([jnp.array([0]), res])
 
 
+def cdf_on_grid(pdfs, grid):
+    cells = jnp.diff(grid) * (pdfs[1:] + pdfs[:-1]) / 2.0
+    return jnp.concatenate([jnp.zeros(1), jnp.cumsum(cells)])
+
+
 class Sine(Distribution):
     arg_constraints = {
         "minimum": constraints.real,
@@ -173,7 +178,7 @@ class PowerlawRedshift(Distribution):
         self.pdfs = self.dVdc_ * (1 + self.zs) ** (lamb - 1)
         self.norm = trapezoid(self.pdfs, self.zs)
         self.pdfs /= self.norm
-        self.cdfgrid = cumtrapz(self.pdfs, self.zs)
+        self.cdfgrid = cdf_on_grid(self.pdfs, self.zs)
         self.cdfgrid = self.cdfgrid.at[-1].set(1)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
@@ -274,7 +279,7 @@ class BSplineDistribution(Distribution):
         self.pdfs = jnp.exp(self.lpdfs)
         self.norm = trapezoid(self.pdfs, self.grid)
         self.pdfs /= self.norm
-        self.cdfgrid = cumtrapz(self.pdfs, self.grid)
+        self.cdfgrid = cdf_on_grid(self.pdfs, self.grid)
         self.cdfgrid = self.cdfgrid.at[-1].set(1)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
-- 
2.43.0


From f87de7e9a5238309bca460458b6d6bb7adb47c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:52 +0000
Subject: [PATCH 41/44] fix: resampling could draw an injection of zero weight

For draws at the very end of the unit interval (one key in about 10^5 for 60
injections), rounding in the cumulative weights made random.choice return an
injection to which the population assigns no probability.
---
 gwinferno/preprocess/selection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index f132fd4..312431d 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -143,11 +143,12 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
 def resample_injections(rng_key, model_prob, injdata, Ndraw, param_map, **kwargs):
     wts = model_prob(injdata, **kwargs) / injdata[param_map["prior"], :]
     p = wts / jnp.sum(wts)
-    Ndet = len(p)
     # draw the maximum number of samples
     N = int((jnp.sum(wts)) ** 2 // jnp.sum(wts * wts))
     norm = jnp.sum(wts) / Ndraw
-    idxs = random.choice(rng_key, Ndet, shape=[N], replace=True, p=p)
+    # only offer injections with non-zero weight: rounding in the cumulative weights can otherwise select one of the others
+    nonzero = jnp.flatnonzero(p)
+    idxs = nonzero[random.choice(rng_key, len(nonzero), shape=[N], replace=True, p=p[nonzero])]
     injdata_new = injdata.at[:, idxs].get()
     p_new = model_prob(injdata_new, **kwargs) / norm
     injdata_new = injdata_new.at[param_map["prior"], :].set(p_new)
-- 
2.43.0


From 4867805d708eb8a75b4d7465258283c11e5e8b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:21 +0000
Subject: [PATCH 42/44] fix: effective-spin prior of arrays with a point on a
 case boundary

---
 gwinferno/preprocess/priors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 1872689..a44be99 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -95,7 +95,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
         Prior density at given effective spin value(s).
     """
     # Ensure that `chi_eff` is an array and take absolute value
-    chi_eff = np.abs(np.atleast_1d(chi_eff))
+    chi_eff, q = np.broadcast_arrays(np.abs(np.atleast_1d(chi_eff)), q)
 
     # Set up various piecewise cases
     # pdfs = np.ones(chi_eff.size, dtype=complex) * (-1.0)
@@ -183,8 +183,8 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
     if np.any(boundaries):
         fallback[boundaries] = 0.5 * (
-            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q, a_max=a_max)
-            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q, a_max=a_max)
+            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q[boundaries], a_max=a_max)
+            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q[boundaries], a_max=a_max)
         )
 
     pdfs = np.select(
-- 
2.43.0


From a47f75e387114c0e14b58ad0feceba7978153ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:09 +0000
Subject: [PATCH 43/44] fix: effective-spin prior was NaN where two of its
 cases meet

---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index a44be99..25ab7b5 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -103,7 +103,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     caseA = (chi_eff > 0) * (chi_eff < a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < q * a_max / (1.0 + q))
     caseB = (chi_eff < a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > q * a_max / (1.0 + q))
     caseC = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < q * a_max / (1.0 + q))
-    caseD = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < a_max / (1.0 + q)) * (chi_eff >= q * a_max / (1.0 + q))
+    caseD = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff < a_max / (1.0 + q)) * (chi_eff > q * a_max / (1.0 + q))
     caseE = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > a_max / (1.0 + q)) * (chi_eff < a_max)
     caseF = chi_eff >= a_max
 
-- 
2.43.0


From fac2fdcd18a418da66d9cfe00b5a99ca2811e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 44/44] fix: effective-spin prior within rounding of a case
 boundary

---
 gwinferno/preprocess/priors.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 25ab7b5..5363060 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -178,9 +178,10 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
 
         caseF_pdfs = 0.0
 
-    # Deal with spins on the boundary between cases
+    # Deal with spins on the boundary between cases (to rounding), where the expressions above are singular
     fallback = np.zeros_like(chi_eff)
-    boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
+    edges = [0.0, a_max * (1.0 - q) / (1.0 + q), q * a_max / (1.0 + q), a_max / (1.0 + q)]
+    boundaries = ~caseZ & ~caseF & np.any([np.abs(chi_eff - edge) <= 1e-12 for edge in edges], axis=0)
     if np.any(boundaries):
         fallback[boundaries] = 0.5 * (
             chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q[boundaries], a_max=a_max)
@@ -188,9 +189,9 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
         )
 
     pdfs = np.select(
-        [caseZ, caseA, caseB, caseC, caseD, caseE, caseF],
-        [caseZ_pdfs, caseA_pdfs, caseB_pdfs, caseC_pdfs, caseD_pdfs, caseE_pdfs, caseF_pdfs],
-        default=fallback,
+        [boundaries, caseZ, caseA, caseB, caseC, caseD, caseE, caseF],
+        [fallback, caseZ_pdfs, caseA_pdfs, caseB_pdfs, caseC_pdfs, caseD_pdfs, caseE_pdfs, caseF_pdfs],
+        default=np.nan,
     )
 
     return np.real(pdfs)
-- 
2.43.0

