From 65c71439e7b4606e844cf9fa3df86a7fd5b8845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 01/54] fix: write the population probability under the name it
 is read from

---
 popsynth/population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2d3c03f..8aa4fc3 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -615,7 +615,7 @@ class Population(object):
 
         if self._probability is not None:
             f.create_dataset(
-                "probabilty", data=self._probability, compression="gzip"
+                "probability", data=self._probability, compression="gzip"
             )
 
         f.create_dataset(
@@ -762,7 +762,10 @@ class Population(object):
 
         try:
 
-            probability = f["probability"][()]
+            # files written by older versions have a misspelled name
+            key = "probability" if "probability" in f else "probabilty"
+
+            probability = f[key][()]
 
         except KeyError:
 
-- 
2.43.0


From cc0599978db204b6c1c67e4225457e6265a7cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 02/54] fix: reload the name and the forms of a population as
 they were saved

---
 popsynth/population.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 8aa4fc3..7bce56e 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -599,15 +599,23 @@ class Population(object):
                     k, data=np.array([v]), compression="gzip"
                 )
 
-            f.attrs["lf_form"] = np.string_(self._lf_form)
+            if self._lf_form is not None:
+
+                f.attrs["lf_form"] = str(self._lf_form)
 
             f.attrs["has_lf"] = True
 
         else:
             f.attrs["has_lf"] = False
 
-        f.attrs["name"] = np.string_(self._name)
-        f.attrs["spatial_form"] = np.string_(self._spatial_form)
+        if self._name is not None:
+
+            f.attrs["name"] = str(self._name)
+
+        if self._spatial_form is not None:
+
+            f.attrs["spatial_form"] = str(self._spatial_form)
+
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
         f.attrs["r_max"] = self._r_max
@@ -723,7 +731,7 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = str(f.attrs["lf_form"])
+                lf_form = _load_string_attribute(f, "lf_form")
 
             else:
 
@@ -739,9 +747,9 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"]
+        name = _load_string_attribute(f, "name")
 
-        spatial_form = str(f.attrs["spatial_form"])
+        spatial_form = _load_string_attribute(f, "spatial_form")
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
@@ -1342,6 +1350,24 @@ class Population(object):
         # sns.despine(offset=5, trim=True);
 
 
+def _load_string_attribute(f, key: str) -> Optional[str]:
+    """
+    Read a string attribute of an HDF5 file or group. Older versions
+    stored these as bytes.
+
+    :param f: h5py file or group handle
+    :param key: name of the attribute
+    """
+
+    value = f.attrs.get(key, None)
+
+    if isinstance(value, bytes):
+
+        value = value.decode()
+
+    return value
+
+
 def _create_sphere_variables(R, distance, theta, phi):
     x, y, z = xyz(distance, theta, phi)
 
-- 
2.43.0


From 899906f67a3c8891ff60ccdf36bc1f05119804b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 03/54] fix: reload the population graph as the directed graph
 that was saved

---
 popsynth/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 7bce56e..e67c704 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -803,7 +803,8 @@ class Population(object):
         graph = nx.from_dict_of_dicts(
             clean_graph_dict(
                 recursively_load_dict_contents_from_group(f, "graph")
-            )
+            ),
+            create_using=nx.DiGraph,
         )
 
         pop_synth = recursively_load_dict_contents_from_group(f, "popsynth")
-- 
2.43.0


From 5bbad131774787804b97150c0e36966cd4cd1ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 04/54] fix: keep the known distances in a sub-population

---
 popsynth/population.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index e67c704..7fa4fc5 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -879,25 +879,25 @@ class Population(object):
 
             new_aux = None
 
-        itr = 0
-        known_distances = []
-        known_distance_idx = []
-        unknown_distance_idx = []
+        # the known distance indices number the observed objects, so
+        # no distance of an unobserved object is known
 
-        for i, s in enumerate(selection):
+        n_selected = sum(selection)
 
-            if s:
-
-                if i in self._known_distances:
+        if observed:
 
-                    known_distances.append(self._distances[i])
-                    known_distance_idx.append(itr)
+            known_distance_idx = np.array(self._known_distance_idx, dtype=int)
 
-                else:
+        else:
 
-                    unknown_distance_idx.append(itr)
+            known_distance_idx = np.array([], dtype=int)
 
-                itr += 1
+        known_distances = np.asarray(_selector(self._distances))[
+            known_distance_idx
+        ]
+        unknown_distance_idx = np.setdiff1d(
+            np.arange(n_selected), known_distance_idx
+        )
 
         if self._probability is not None:
 
@@ -910,12 +910,12 @@ class Population(object):
         return Population(
             luminosities=_selector(self._luminosities),
             distances=_selector(self._distances),
-            known_distances=np.array(known_distances),
-            known_distance_idx=np.array(known_distance_idx),
-            unknown_distance_idx=np.array(unknown_distance_idx),
+            known_distances=known_distances,
+            known_distance_idx=known_distance_idx,
+            unknown_distance_idx=unknown_distance_idx,
             fluxes=_selector(self._fluxes).latent,
             flux_obs=_selector(self._fluxes),
-            selection=np.ones(sum(selection), dtype=bool),
+            selection=np.ones(n_selected, dtype=bool),
             flux_sigma=self._flux_sigma,
             n_model=self._n_model,
             r_max=self._r_max,
-- 
2.43.0


From 0ceba7dec46ca52de8a4e2cc01fa1063c8cf15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 05/54] fix: pass the population synth on to a sub-population
 so that it can be saved

---
 popsynth/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population.py b/popsynth/population.py
index 7fa4fc5..d4f4f9b 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -931,6 +931,7 @@ class Population(object):
             graph=self._graph,
             theta=_selector(self._theta),
             phi=_selector(self._phi),
+            pop_synth=self._pop_synth,
             probability=probability,
         )
 
-- 
2.43.0


From d47cde5ecd863a70c4d1a8e71487a29c8f141e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 06/54] fix: give selected and non-selected variables a boolean
 selection

---
 popsynth/simulated_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d716fdf..4d5c9e7 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -83,7 +83,7 @@ class SimulatedVariable(np.ndarray):
         selected = self.view(np.ndarray)[self._selection]
         selected_latent = self._latent_values[self._selection]
 
-        new_selection = np.ones_like(selected)
+        new_selection = np.ones(len(selected), dtype=bool)
 
         return SimulatedVariable(selected, selected_latent, new_selection)
 
@@ -96,7 +96,7 @@ class SimulatedVariable(np.ndarray):
         non_selected = self.view(np.ndarray)[~self._selection]
         non_selected_latent = self._latent_values[~self._selection]
 
-        new_selection = np.zeros_like(non_selected)
+        new_selection = np.zeros(len(non_selected), dtype=bool)
 
         return SimulatedVariable(
             non_selected, non_selected_latent, new_selection
-- 
2.43.0


From 22638df2ff90107489249fae21c4d03e1906fa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 07/54] fix: do not overwrite observed by latent values in
 in-place array operations

---
 popsynth/simulated_variable.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 4d5c9e7..e528a5d 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -146,15 +146,24 @@ class SimulatedVariable(np.ndarray):
 
         outputs = out
         out_no = []
+        latent_kwargs = dict(kwargs)
         if outputs:
             out_args = []
+            latent_out_args = []
             for j, output in enumerate(outputs):
                 if isinstance(output, SimulatedVariable):
                     out_no.append(j)
                     out_args.append(output.view(np.ndarray))
+                    # the latent values can share their memory with the
+                    # observed ones, so they are computed on a copy
+                    latent_out_args.append(np.array(output._latent_values))
                 else:
                     out_args.append(output)
+                    latent_out_args.append(
+                        None if output is None else np.array(output)
+                    )
             kwargs['out'] = tuple(out_args)
+            latent_kwargs['out'] = tuple(latent_out_args)
         else:
             outputs = (None,) * ufunc.nout
 
@@ -164,12 +173,12 @@ class SimulatedVariable(np.ndarray):
         if out_no:
             info['outputs'] = out_no
 
-        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
-
         latent_results = super().__array_ufunc__(
-            ufunc, method, *latent_args, **kwargs
+            ufunc, method, *latent_args, **latent_kwargs
         )
 
+        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+
         if results is NotImplemented:
             return NotImplemented
 
@@ -209,6 +218,10 @@ class SimulatedVariable(np.ndarray):
 
             else:
 
+                if isinstance(output, SimulatedVariable):
+
+                    output._latent_values = latent_result
+
                 out = output
 
             final_results.append(out)
-- 
2.43.0


From 0ecf4c4125417f930ef171c4288966ab7212ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 08/54] fix: rebuild the model graph so that it shows only the
 attached samplers

---
 popsynth/population_synth.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 85465c1..d334d7e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1503,6 +1503,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
         Builds the graph for all the samplers.
         """
 
+        # start from scratch, so that removed samplers do not linger and
+        # the graphs of drawn populations are not changed
+
+        self._graph = nx.DiGraph()
+        self._graph.add_node(self._spatial_distribution.name)
+
         # first check out the luminosity sampler
 
         self._graph.add_node("obs_flux", observed=True)
-- 
2.43.0


From 485f95649a4dfac72c88475443524c0b88383666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 09/54] fix: draw nested secondary samplers that use the
 distance

---
 popsynth/auxiliary_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 5de5d2e..c12735e 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -483,7 +483,7 @@ class AuxiliarySampler(
 
                     if v.uses_distance:
 
-                        self._graph.add_edge(spatial_distribution.name, k)
+                        graph.add_edge(spatial_distribution.name, k)
 
                 recursive_secondaries += v.get_secondary_properties(
                     graph, k, spatial_distribution
-- 
2.43.0


From f9009e93124ce1f981b78b7ee5eff0be076ab845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 10/54] fix: sample the normalized distance density also
 without progress bars

---
 popsynth/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index e0afb97..648ed9f 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -369,7 +369,7 @@ class SpatialDistribution(Distribution):
         else:
 
             r_out = rejection_sample(
-                size, ymax, self.r_max, dNdr
+                size, ymax, self.r_max, dNdr_norm
             )  # type: ArrayLike
 
         self._distances = np.array(r_out)  # type: ArrayLike
-- 
2.43.0


From 5f19441e942b405520866cb593268d440688a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 11/54] fix: evaluate the unit normalization on a copy, so that
 a failing draw cannot leave it set

---
 popsynth/distribution.py     | 58 +++++++++++++++++++++++-------------
 popsynth/population_synth.py | 33 +++++++-------------
 2 files changed, 48 insertions(+), 43 deletions(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 648ed9f..2c1f057 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -1,4 +1,5 @@
 import abc
+import copy
 from dataclasses import dataclass
 from typing import Dict, Optional, Union
 
@@ -290,6 +291,30 @@ class SpatialDistribution(Distribution):
         """
         return SpatialContainer(self._distances, self._theta, self._phi)
 
+    def _with_unit_normalization(self) -> "SpatialDistribution":
+        """
+        A copy of this distribution with the normalization
+        parameter, if there is one, set to unity. The parameters
+        of this distribution are not touched.
+        """
+
+        out = copy.copy(self)
+
+        out._parameter_storage = dict(self._parameter_storage)
+
+        for cls in type(self).mro():
+
+            for name, parameter in vars(cls).items():
+
+                if (
+                    isinstance(parameter, Parameter)
+                    and parameter.is_normalization
+                ):
+
+                    out._parameter_storage[name] = 1
+
+        return out
+
     def draw_sky_positions(self, size: int) -> None:
         """
         Draw the sky positions of the objects
@@ -316,25 +341,25 @@ class SpatialDistribution(Distribution):
             / self.time_adjustment(r)
         )
 
-        if normalize:
-
-            # set the prefactor to unity
+        # the same with the prefactor set to unity
+        unit_distribution = self._with_unit_normalization()
 
-            if self._normalization_parameter is not None:
+        unit_dNdr = (
+            lambda r: unit_distribution.dNdV(r)
+            * unit_distribution.differential_volume(r)
+            / unit_distribution.time_adjustment(r)
+        )
 
-                old_value = self.normalization_parameter
-                self.normalization_parameter = 1
+        if normalize:
 
-            integral = integrate.quad(dNdr, 0.0, self.r_max)[0]
+            integral = integrate.quad(unit_dNdr, 0.0, self.r_max)[0]
 
             dNdr_norm = lambda r: dNdr(r) / integral
 
-            if self._normalization_parameter is not None:
-
-                self.normalization_parameter = old_value
-
         else:
 
+            integral = 1.0
+
             dNdr_norm = dNdr
 
         # find the maximum point
@@ -377,16 +402,7 @@ class SpatialDistribution(Distribution):
         # now compute the differential probability
         # of the distance draws
 
-        if self._normalization_parameter is not None:
-
-            old_value = self.normalization_parameter
-            self.normalization_parameter = 1
-
-        self._probability = dNdr_norm(self._distances)
-
-        if self._normalization_parameter is not None:
-
-            self.normalization_parameter = old_value
+        self._probability = unit_dNdr(self._distances) / integral
 
 
 class LuminosityDistribution(Distribution):
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index d334d7e..69ffc94 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -984,33 +984,22 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 log.info("The population is being normalized such that")
                 log.info("the integral over N * f(z) * dV/dz = N")
 
-                old_value = None
+                log.info('setting normalization to unity for integration')
 
-                if (
-                    self._spatial_distribution._normalization_parameter
-                    is not None
-                ):
-
-                    old_value = (
-                        self._spatial_distribution.normalization_parameter
-                    )
-                    log.info('setting normalization to unity for integration')
-                    self._spatial_distribution.normalization_parameter = 1
+                # on a copy, to leave the distribution as it is even if
+                # the integration fails
+                unit_distribution = (
+                    self._spatial_distribution._with_unit_normalization()
+                )
 
                 integral = integrate.quad(
-                    dNdr, 0.0, self._spatial_distribution.r_max
+                    lambda r: unit_distribution.dNdV(r)
+                    * unit_distribution.differential_volume(r)
+                    / unit_distribution.time_adjustment(r),
+                    0.0,
+                    self._spatial_distribution.r_max,
                 )[0]
 
-                if old_value is not None:
-
-                    self._spatial_distribution.normalization_parameter = (
-                        old_value
-                    )
-
-                    log.info(
-                        f"normalization parameter set back to {self._spatial_distribution.normalization_parameter}"
-                    )
-
                 dNdr_norm = lambda r: dNdr(r) / integral
 
                 N = integrate.quad(
-- 
2.43.0


From c1fbc6dd39897c141dbf203d2e037fc9006d4478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 12/54] fix: report default parameter values also before their
 first use

---
 popsynth/auxiliary_sampler.py                 |  8 +++++--
 popsynth/distribution.py                      | 10 +++++---
 .../selection_probability.py                  |  8 +++++--
 popsynth/utils/meta.py                        | 24 +++++++++++++++++++
 4 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index c12735e..2fb2f25 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -12,7 +12,11 @@ from popsynth.distribution import SpatialContainer
 from popsynth.selection_probability import SelectionProbability, UnitySelection
 from popsynth.utils.cosmology import cosmology
 from popsynth.utils.logging import setup_logger
-from popsynth.utils.meta import Parameter, ParameterMeta
+from popsynth.utils.meta import (
+    Parameter,
+    ParameterMeta,
+    fill_default_parameters,
+)
 from popsynth.utils.registry import auxiliary_parameter_registry
 
 log = setup_logger(__name__)
@@ -659,7 +663,7 @@ class AuxiliarySampler(
         """
         out = {}
 
-        for k, v in self._parameter_storage.items():
+        for k, v in fill_default_parameters(self).items():
 
             if v is not None:
 
diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 2c1f057..c01673d 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -12,7 +12,11 @@ from numpy.typing import ArrayLike
 
 from popsynth.utils.configuration import popsynth_config
 from popsynth.utils.logging import setup_logger
-from popsynth.utils.meta import Parameter, ParameterMeta
+from popsynth.utils.meta import (
+    Parameter,
+    ParameterMeta,
+    fill_default_parameters,
+)
 from popsynth.utils.progress_bar import progress_bar
 from popsynth.utils.registry import distribution_registry
 from popsynth.utils.rejection_sample import rejection_sample
@@ -88,7 +92,7 @@ class Distribution(
         The parameters of the distribution
 
         """
-        return self._parameter_storage
+        return fill_default_parameters(self)
 
     @property
     def truth(self) -> Dict[str, float]:
@@ -97,7 +101,7 @@ class Distribution(
         """
         out = {}
 
-        for k, v in self._parameter_storage.items():
+        for k, v in self.params.items():
 
             if v is not None:
 
diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index b9522e0..372d8e6 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -5,7 +5,11 @@ import numpy as np
 from class_registry import AutoRegister
 
 from popsynth.utils.logging import setup_logger
-from popsynth.utils.meta import Parameter, ParameterMeta
+from popsynth.utils.meta import (
+    Parameter,
+    ParameterMeta,
+    fill_default_parameters,
+)
 from popsynth.utils.registry import selection_registry
 
 log = setup_logger(__name__)
@@ -137,7 +141,7 @@ class SelectionProbability(
 
         out = {}
 
-        for k, v in self._parameter_storage.items():
+        for k, v in fill_default_parameters(self).items():
 
             if v is not None:
 
diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c89f159..4c34d8c 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -134,6 +134,30 @@ class Parameter(object):
     )
 
 
+def fill_default_parameters(obj) -> Dict[str, float]:
+    """
+    Store the default values of all parameters which have not been
+    set or read yet, so that what is reported does not depend on this.
+
+    :param obj: the object owning the parameters
+    :returns: the parameter storage of the object
+    """
+
+    for cls in type(obj).mro():
+
+        for name, parameter in vars(cls).items():
+
+            if (
+                isinstance(parameter, Parameter)
+                and parameter.default is not None
+                and obj._parameter_storage.get(name) is None
+            ):
+
+                obj._parameter_storage[name] = parameter.default
+
+    return obj._parameter_storage
+
+
 class ParameterMeta(type):
     def __new__(mcls, name, bases, attrs, **kwargs):
 
-- 
2.43.0


From fb80aef9f5515790dcf21c3bc3e42bacd40f18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 13/54] fix: sample and select anew in every survey instead of
 re-using an earlier one

---
 popsynth/population_synth.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 69ffc94..655350b 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -966,6 +966,16 @@ class PopulationSynth(object, metaclass=ABCMeta):
             self._spatial_distribution.name
         ] = self._spatial_distribution.truth
 
+        # forget what an earlier survey has sampled
+
+        for sampler in self._auxiliary_observations.values():
+
+            sampler.reset()
+
+        if self._has_derived_luminosity:
+
+            self._derived_luminosity_sampler.reset()
+
         # set the random seed
 
         np.random.seed(self._seed)
@@ -1274,6 +1284,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
         # pass the values the plux selector and draw the selection
         self._flux_selector.set_observed_flux(flux_obs)
 
+        self._flux_selector.reset()
+
         self._flux_selector.select(n)
 
         #       selection = self._flux_selector.selection
@@ -1322,6 +1334,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._spatial_distribution
             )
 
+            self._spatial_selector.reset()
+
             self._spatial_selector.select(n)
 
             log.info(
@@ -1334,6 +1348,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
+        self._distance_selector.reset()
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
-- 
2.43.0


From beef2f05cbda1a7fab932c765924fb5fc06a00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 14/54] fix: apply each sampler's own selection when samplers
 share a selector

---
 popsynth/auxiliary_sampler.py | 8 +++++++-
 popsynth/population_synth.py  | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 2fb2f25..28bc6f7 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -1,4 +1,5 @@
 import abc
+import copy
 from typing import Any, Dict, List, Optional
 
 import numpy as np
@@ -211,6 +212,7 @@ class AuxiliarySampler(
         self._has_secondary: bool = False
         self._is_sampled: bool = False
         self._selector: SelectionProbability = UnitySelection()
+        self._drawn_selector: SelectionProbability = self._selector
         self._uses_distance: bool = uses_distance
         self._uses_luminosity: bool = uses_luminosity
         self._uses_sky_position: bool = uses_sky_position
@@ -402,6 +404,10 @@ class AuxiliarySampler(
 
             self._apply_selection()
 
+            # keep the outcome, the selector may also be used elsewhere
+
+            self._drawn_selector = copy.copy(self._selector)
+
             self._probability = self._compute_probability()
 
     def _compute_probability(self) -> Optional[np.ndarray]:
@@ -500,7 +506,7 @@ class AuxiliarySampler(
                 self._name,
                 self._true_values,
                 self._obs_values,
-                self._selector,
+                self._drawn_selector,
                 self.probability,
             )
         )
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 655350b..8296d04 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1113,7 +1113,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     self._derived_luminosity_sampler.name,
                     self._derived_luminosity_sampler.true_values,
                     self._derived_luminosity_sampler.obs_values,
-                    self._derived_luminosity_sampler.selector,
+                    self._derived_luminosity_sampler._drawn_selector,
                     self._derived_luminosity_sampler.probability,
                 )
             )
-- 
2.43.0


From 1d09df29ffb2731871263930ba34feaf6f46a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 15/54] fix: draw surveys with detections but without any known
 distance

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 8296d04..7354e5e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1362,8 +1362,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if global_selection.n_selected > 0:
 
+            max_distance = max(distances[global_selection.selection])
+
             log.info(
-                f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
+                f"Detected {global_selection.n_selected} objects out to a distance of {max_distance:.2f}"
             )
 
         else:
-- 
2.43.0


From 90c7e1367cf4ac9dbcbdc828e8c3758168cdba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 16/54] fix: do not modify the dictionary a population synth is
 built from

---
 popsynth/population_synth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 7354e5e..f969e47 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1,3 +1,4 @@
+import copy
 from abc import ABCMeta
 from collections import OrderedDict
 from typing import Any, Dict, Optional, Union
@@ -345,6 +346,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :rtype: :class:`PopulationSynth`
         """
 
+        # the description is taken apart below and must not be modified
+        input = copy.deepcopy(input)
+
         if "luminosity distribution" in input:
 
             # try:
-- 
2.43.0


From 77b745d3fc77e2db37eb6ab9980ab0c2d731d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 17/54] fix: describe a derived luminosity sampler by its
 registered type

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f969e47..50b975f 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -303,7 +303,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp = {}
 
-            tmp["type"] = self._derived_luminosity_sampler.name
+            tmp[
+                "type"
+            ] = self._derived_luminosity_sampler._auxiliary_sampler_name
             tmp["observed"] = self._derived_luminosity_sampler._is_observed
 
             for k2, v2 in self._derived_luminosity_sampler.truth.items():
-- 
2.43.0


From 27d3a5332e51fea5c05a7a11fb0c18751c545639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 18/54] fix: set inherited parameters of an auxiliary sampler's
 selection

---
 popsynth/population_synth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 50b975f..9797f4a 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -694,9 +694,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     for k, v in params.items():
 
-                        if k in selector.__class__.__dict__:
+                        for x in selector.__class__.mro():
 
-                            setattr(selector, k, float(v))
+                            if k in x.__dict__:
+
+                                setattr(selector, k, float(v))
+
+                                break
 
                     selector._use_obs_value = True
 
-- 
2.43.0


From ab7de836c866968b29943aedb2cfa730687e3a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 19/54] fix: pass the distances to the distance selection

---
 popsynth/population_synth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 9797f4a..0ac5407 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1360,6 +1360,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         self._distance_selector.reset()
 
+        self._distance_selector.set_distance(
+            distances[global_selection.selection]
+        )
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
-- 
2.43.0


From a34f8aa33b4b467f91a523c9dca88db32b268762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 20/54] fix: draw power law auxiliary values from the seeded
 generator

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6100f2b..d9e998f 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -84,8 +84,11 @@ class PowerLawAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
+        # numba has its own random state which is not seeded with numpy's
+        u = np.atleast_1d(np.random.uniform(0, 1, size=size))
+
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, size
+            u, self.xmin, self.xmax, self.alpha
         )
 
     def observation_sampler(self, size: int):
@@ -157,25 +160,24 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
 
 
 @nb.njit(fastmath=True)
-def _sample_power_law(xmin, xmax, alpha, size):
-
-    out = np.empty(size)
+def _sample_power_law(u, xmin, xmax, alpha):
 
-    for i in range(size):
+    out = np.empty(len(u))
 
-        u = np.random.uniform(0, 1)
+    for i in range(len(u)):
 
         if alpha != -1.0:
 
             x = np.power(
-                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u
+                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1))
+                * u[i]
                 + np.power(xmin, alpha + 1),
                 1.0 / (alpha + 1.0),
             )
 
         else:
 
-            x = xmin * np.exp(u / (1.0 / np.log(xmax / xmin)))
+            x = xmin * np.exp(u[i] / (1.0 / np.log(xmax / xmin)))
 
         out[i] = x
 
-- 
2.43.0


From f3853e58cce275782eb26352f4d4c6ffb761a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 21/54] fix: give a population its own copy of parameters and
 model spaces

---
 popsynth/population_synth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 0ac5407..1c6b0a4 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1391,7 +1391,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         lf_form = None
         if self._luminosity_distribution is not None:
 
-            lf_params = self._luminosity_distribution.params
+            lf_params = dict(self._luminosity_distribution.params)
             lf_form = self._luminosity_distribution.form
 
         # if distance_probability is None:
@@ -1410,8 +1410,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
             r_max=self._spatial_distribution.r_max,
             n_model=self._n_model,
             lf_params=lf_params,
-            spatial_params=self._spatial_distribution.params,
-            model_spaces=self._model_spaces,
+            spatial_params=dict(self._spatial_distribution.params),
+            model_spaces=dict(self._model_spaces),
             seed=self._seed,
             name=self._name,
             spatial_form=self._spatial_distribution.form,
-- 
2.43.0


From f5b3efdbd9fd4ad8ca3a1ad1f1bfafaf008d393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 22/54] fix: pass luminosities to and record the truth of
 nested secondary samplers

---
 popsynth/auxiliary_sampler.py | 19 +++++++++++++++++++
 popsynth/population_synth.py  | 11 +++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 28bc6f7..0db36cd 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -569,6 +569,25 @@ class AuxiliarySampler(
 
         return self._secondary_samplers
 
+    @property
+    def all_secondary_samplers(self) -> SamplerDict:
+        """
+        Secondary samplers of this sampler, their own
+        secondaries, and so on.
+
+        :returns: Dict of secondary samplers
+        :rtype: :class:`SamplerDict`
+        """
+
+        out: SamplerDict = {}
+
+        for k, v in self._secondary_samplers.items():
+
+            out[k] = v
+            out.update(v.all_secondary_samplers)
+
+        return out
+
     @property
     def is_secondary(self) -> bool:
         """
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 1c6b0a4..8eeb2c7 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1161,6 +1161,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 #     # now attach them
                 #     auxiliary_quantities[k3] = v3
 
+            for (
+                k2,
+                v2,
+            ) in (
+                self._derived_luminosity_sampler.all_secondary_samplers.items()
+            ):
+
                 # store the secondary truths
                 # this will _could_ be clobbered later
                 # but that is ok
@@ -1206,7 +1213,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             # also set luminosities and distances to secondaries
             # as needed
 
-            for k2, v2 in v.secondary_samplers.items():
+            for k2, v2 in v.all_secondary_samplers.items():
 
                 if v2.uses_luminosity:
 
@@ -1235,7 +1242,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             # collect the secondary values
 
-            for k2, v2 in v.secondary_samplers.items():
+            for k2, v2 in v.all_secondary_samplers.items():
 
                 # store the secondary truths
 
-- 
2.43.0


From 7ce7e252543c8a27ed6429e7b9d56d75aa35d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 23/54] fix: activate the logs also after they were silenced
 more than once

---
 popsynth/utils/logging.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 1d3a96d..7cae71a 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -126,8 +126,17 @@ class LoggingState(object):
             popsynth_console_log_handler.level
         )
 
+        # while the logs are silenced, the stored state is the one
+        # from before they were silenced
+
+        self._silenced = False
+
     def _store_state(self):
 
+        if self._silenced:
+
+            return
+
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
         self.popsynth_console_log_handler_state = (
             popsynth_console_log_handler.level
@@ -135,6 +144,8 @@ class LoggingState(object):
 
     def restore_last_state(self):
 
+        self._silenced = False
+
         self.popsynth_usr_log_handler.setLevel(
             self.popsynth_usr_log_handler_state
         )
@@ -147,6 +158,8 @@ class LoggingState(object):
         # store the state
         self._store_state()
 
+        self._silenced = True
+
         # silence the logs
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
         self.popsynth_console_log_handler.setLevel(logging.CRITICAL)
@@ -156,6 +169,8 @@ class LoggingState(object):
         # store the state
         self._store_state()
 
+        self._silenced = False
+
         # silence the logs
 
         self.popsynth_usr_log_handler.setLevel(logging.INFO)
-- 
2.43.0


From 059a1579ef45db46d4cc341f3c3d1a6b0f741abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 24/54] fix: let several processes create the log directory at
 once

---
 popsynth/utils/package_data.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/popsynth/utils/package_data.py b/popsynth/utils/package_data.py
index 3b4193b..58dee03 100644
--- a/popsynth/utils/package_data.py
+++ b/popsynth/utils/package_data.py
@@ -15,9 +15,7 @@ def get_path_of_log_dir() -> Path:
 
     p: Path = Path("~/.log/popsynth").expanduser()
 
-    if not p.exists():
-
-        p.mkdir(parents=True)
+    p.mkdir(parents=True, exist_ok=True)
 
     return p
 
-- 
2.43.0


From 2f5c3fb651e0c14f68177e7fa60a54ce564e80f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 25/54] fix: write the default configuration in one step

---
 popsynth/utils/atomic_file.py   | 60 +++++++++++++++++++++++++++++++++
 popsynth/utils/configuration.py |  7 ++--
 2 files changed, 65 insertions(+), 2 deletions(-)
 create mode 100644 popsynth/utils/atomic_file.py

diff --git a/popsynth/utils/atomic_file.py b/popsynth/utils/atomic_file.py
new file mode 100644
index 0000000..abaa9b7
--- /dev/null
+++ b/popsynth/utils/atomic_file.py
@@ -0,0 +1,60 @@
+import os
+import shutil
+import uuid
+from contextlib import contextmanager, suppress
+from typing import Iterator
+
+
+@contextmanager
+def atomic_write(file_name) -> Iterator[str]:
+    """
+    Write a file such that it always has either its old or its complete new
+    content: what is written to the name this yields replaces the file only
+    when the block ends without an error.
+
+    Anything that is not a regular file (to be) is written directly.
+
+    :param file_name: name of the file to write
+    """
+
+    if not isinstance(file_name, (str, os.PathLike)) or (
+        os.path.exists(file_name) and not os.path.isfile(file_name)
+    ):
+
+        yield file_name
+
+        return
+
+    # a link is kept, the file it points to is replaced
+    target = os.path.realpath(file_name)
+
+    tmp = f"{target}.{uuid.uuid4().hex}.tmp"
+
+    try:
+
+        yield tmp
+
+        if os.path.exists(target):
+
+            shutil.copymode(target, tmp)
+
+        # the data must be stored before the name points to them
+        fd = os.open(tmp, os.O_RDONLY)
+
+        try:
+
+            os.fsync(fd)
+
+        finally:
+
+            os.close(fd)
+
+        os.replace(tmp, target)
+
+    except BaseException:
+
+        with suppress(OSError):
+
+            os.unlink(tmp)
+
+        raise
diff --git a/popsynth/utils/configuration.py b/popsynth/utils/configuration.py
index 0bda8a7..b99c4b1 100644
--- a/popsynth/utils/configuration.py
+++ b/popsynth/utils/configuration.py
@@ -3,6 +3,8 @@ from pathlib import Path
 
 from omegaconf import OmegaConf
 
+from popsynth.utils.atomic_file import atomic_write
+
 # Path to configuration
 
 _config_path = Path("~/.config/popsynth/").expanduser()
@@ -69,6 +71,7 @@ else:
     # Make directory if needed
     _config_path.mkdir(parents=True, exist_ok=True)
 
-    with _config_file.open("w") as f:
+    # another process may be starting, it must never see half a file
+    with atomic_write(_config_file) as _tmp_file:
 
-        OmegaConf.save(config=popsynth_config, f=f.name)
+        OmegaConf.save(config=popsynth_config, f=_tmp_file)
-- 
2.43.0


From 12151023aaf7a52656205d77e3df56670512dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 26/54] fix: do not destroy the existing file when saving a
 population fails

---
 popsynth/population.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index d4f4f9b..5a31d2c 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -13,6 +13,7 @@ from numpy.typing import ArrayLike
 
 from popsynth.auxiliary_sampler import SecondaryStorage
 from popsynth.utils.array_to_cmap import array_to_cmap
+from popsynth.utils.atomic_file import atomic_write
 from popsynth.utils.hdf5_utils import (
     clean_graph_dict,
     fill_graph_dict,
@@ -553,9 +554,11 @@ class Population(object):
         :type file_name: str
         """
 
-        with h5py.File(file_name, "w") as f:
+        with atomic_write(file_name) as tmp_name:
 
-            self._writeto(f)
+            with h5py.File(tmp_name, "w") as f:
+
+                self._writeto(f)
 
     def addto(self, file_name: str, group_name: str) -> None:
         """
-- 
2.43.0


From b0cdffdfcc953c4dcaadef323ad511bd97e63ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 27/54] fix: do not destroy the existing file when writing a
 population synth fails

---
 popsynth/population_synth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 8eeb2c7..b9a44f2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -22,6 +22,7 @@ from popsynth.distributions.cosmological_distribution import (
 )
 from popsynth.population import Population
 from popsynth.selection_probability import SelectionProbability, UnitySelection
+from popsynth.utils.atomic_file import atomic_write
 from popsynth.utils.logging import setup_logger
 from popsynth.utils.registry import (
     auxiliary_parameter_registry,
@@ -191,7 +192,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :param file_name: the file name of the output YAML
         :type file_name: str
         """
-        with open(file_name, "w") as f:
+        with atomic_write(file_name) as tmp_name, open(tmp_name, "w") as f:
 
             yaml.dump(
                 stream=f,
-- 
2.43.0


From eb43c71852a16634d8b2fa0a8f87bcb298b769c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 28/54] fix: remove the partial group when adding a population
 to a file fails

---
 popsynth/population.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 5a31d2c..c955063 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -575,7 +575,17 @@ class Population(object):
 
             g = f.create_group(group_name)
 
-            self._writeto(g)
+            try:
+
+                self._writeto(g)
+
+            except BaseException:
+
+                # do not leave a part of the population behind
+
+                del f[group_name]
+
+                raise
 
     def _writeto(self, f):
         """
-- 
2.43.0


From b9cd1765d10abeda1e07f6ba4828afd8ae881628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 29/54] fix: add the missing measurement error of the broken
 power law sampler

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index d9e998f..2ceb998 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -112,6 +112,7 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
     xbreak = AuxiliaryParameter(vmin=0)
     beta = AuxiliaryParameter()
     xmax = AuxiliaryParameter(vmin=0)
+    sigma = AuxiliaryParameter(default=1, vmin=0)
 
     def __init__(self, name: str, observed: bool = True):
         """
-- 
2.43.0


From a0f0071b709625f1e80ae550133bfb1e9303b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 30/54] fix: use the base ten logarithm for the lower bound of
 the truncated log10 normal sampler

---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index 7c54007..affd06d 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -119,7 +119,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
         if self.lower == 0:
             a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
         else:
-            a = np.log(self.lower)
+            a = np.log10(self.lower)
 
         b = np.log10(self.upper)
 
-- 
2.43.0


From 09b8e3293ca83961d2b23fecc644e3ffe4111a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 31/54] fix: use the mathematical form of the spiral galaxy
 distribution

---
 popsynth/distributions/spiral_galaxy_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index bf0697c..e45b391 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -46,7 +46,7 @@ class SpiralGalaxyDistribution(SphericalDistribution):
         super(SpiralGalaxyDistribution, self).__init__(
             seed=seed,
             name=name,
-            form=form,
+            form=spatial_form if form is None else form,
         )
 
     def dNdV(self, r):
-- 
2.43.0


From 93a2a3bf5cde3adbd0f36fa99e4dfbeffa88274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 32/54] fix: keep the order of the samplers when writing a
 population synth

---
 popsynth/population_synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index b9a44f2..9618fa5 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -198,6 +198,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 stream=f,
                 data=self.to_dict(),
                 default_flow_style=False,
+                # samplers are drawn in the order they are listed in
+                sort_keys=False,
                 Dumper=yaml.SafeDumper,
             )
 
-- 
2.43.0


From d4a5de69f9ce21c585f02bbbae1010770057f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 33/54] fix: keep the order of the samplers when saving a
 population

---
 popsynth/utils/hdf5_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 828f8c2..b40cf71 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -13,6 +13,9 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     :param dic: Dictionary to save
     :type dic: Dict[Any, Any]
     """
+    # the order can matter, e.g., of the samplers of a population synth
+    h5file.create_group(path, track_order=True)
+
     for key, item in dic.items():
 
         if isinstance(item, list):
@@ -57,9 +60,11 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
 
                 h5file[path + "/" + key] = "FILL_VALUE"
 
-            recursively_save_dict_contents_to_group(
-                h5file, path + "/" + key + "/", item
-            )
+            else:
+
+                recursively_save_dict_contents_to_group(
+                    h5file, path + "/" + key + "/", item
+                )
         else:
             raise ValueError("Cannot save %s type" % type(item))
 
-- 
2.43.0


From 2fddf1f9629eed2784154109980b9d09a445b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 34/54] fix: save and reload numbers and booleans of any kind

---
 popsynth/utils/hdf5_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index b40cf71..71ce454 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -48,9 +48,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
 
                 raise ValueError("Cannot save %s type" % type(item))
 
-        if isinstance(
-            item, (np.ndarray, np.int64, np.float64, str, bytes, float, int)
-        ):
+        if isinstance(item, (np.ndarray, np.generic, str, bytes, float, int)):
 
             h5file[path + "/" + key] = item
 
@@ -85,6 +83,11 @@ def recursively_load_dict_contents_from_group(h5file, path):
         if isinstance(item, h5py._hl.dataset.Dataset):
             ans[key] = item[()]
 
+            # what was saved as a Python number or boolean
+            if isinstance(ans[key], np.generic):
+
+                ans[key] = ans[key].item()
+
             try:
 
                 ans[key] = ans[key].decode()
-- 
2.43.0


From 3b2d7530721a47133b98f9ae03dee18f1deeeed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 35/54] fix: describe a population synth with plain numbers so
 that it can be written

---
 popsynth/population_synth.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 9618fa5..b235065 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -36,6 +36,23 @@ from popsynth.utils.registry import (
 log = setup_logger(__name__)
 
 
+def _to_builtin(value: Any) -> Any:
+    """
+    Convert the numpy scalars in a (nested) dictionary to
+    plain Python numbers, which can be written to a YAML file.
+    """
+
+    if isinstance(value, dict):
+
+        return {k: _to_builtin(v) for k, v in value.items()}
+
+    if isinstance(value, np.generic):
+
+        return value.item()
+
+    return value
+
+
 class PopulationSynth(object, metaclass=ABCMeta):
     def __init__(
         self,
@@ -338,7 +355,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         output["auxiliary samplers"] = aux_samplers
 
-        return output
+        return _to_builtin(output)
 
     @classmethod
     def from_dict(cls, input: Dict[str, Any]) -> "PopulationSynth":
-- 
2.43.0


From 8feb92f62d79b866f2923d91cd3b558ef7bae5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 36/54] fix: describe selections of auxiliary samplers on
 luminosity or distance

---
 popsynth/auxiliary_sampler.py                 |  2 +-
 popsynth/population_synth.py                  | 18 +++++++++++++++---
 .../selection_probability.py                  | 19 +++++++++++++++++++
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 0db36cd..c66f24c 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -551,7 +551,7 @@ class AuxiliarySampler(
         tmp["secondary"] = list(self.secondary_samplers.keys())
 
         selection = {}
-        selection[self.selector._selection_name] = self.selector.parameters
+        selection[self.selector._selection_name] = self.selector.description
 
         tmp["selection"] = selection
 
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index b235065..ae7d8b9 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -309,7 +309,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             tmp["secondary"] = list(v.secondary_samplers.keys())
 
             selection = {}
-            selection[v.selector._selection_name] = v.selector.parameters
+            selection[v.selector._selection_name] = v.selector.description
 
             tmp["selection"] = selection
 
@@ -339,7 +339,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             selection = {}
             selection[
                 self._derived_luminosity_sampler.selector._selection_name
-            ] = self._derived_luminosity_sampler.selector.parameters
+            ] = self._derived_luminosity_sampler.selector.description
 
             tmp["selection"] = selection
 
@@ -722,7 +722,19 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                                 break
 
-                    selector._use_obs_value = True
+                    # by default, the observed value is selected on
+
+                    if params.get("use_luminosity", False):
+
+                        selector._use_luminosity = True
+
+                    elif params.get("use_distance", False):
+
+                        selector._use_distance = True
+
+                    else:
+
+                        selector._use_obs_value = True
 
                     tmp.set_selection_probability(selector)
 
diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index 372d8e6..64a474f 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -149,6 +149,25 @@ class SelectionProbability(
 
         return out
 
+    @property
+    def description(self) -> Dict[str, float]:
+        """
+        The parameters, and what is selected on if it is
+        not the observed value.
+        """
+
+        out = self.parameters
+
+        if self._use_luminosity:
+
+            out["use_luminosity"] = True
+
+        elif self._use_distance and not self._use_obs_value:
+
+            out["use_distance"] = True
+
+        return out
+
     @property
     def selection(self) -> np.ndarray:
         if self._selection is not None:
-- 
2.43.0


From e72cf76e1f9a9581eaa1e4ca24402995a1611da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 37/54] fix: allow an index of -1 in broken power laws

---
 popsynth/distributions/bpl_distribution.py | 48 ++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 48ed39b..c977d13 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -65,6 +65,34 @@ class BPLDistribution(LuminosityDistribution):
         )
 
 
+def _integrate_piece(x0, x1, a):
+    """
+    Integrate a single power law between bounds.
+    """
+
+    if a == -1:
+
+        return np.log(x1 / x0)
+
+    return (np.power(x1, a + 1.0) - np.power(x0, a + 1.0)) / (a + 1)
+
+
+def _sample_piece(u, x0, x1, a):
+    """
+    Inverse transform sample a single power law between bounds.
+    """
+
+    if a == -1:
+
+        return x0 * np.power(x1 / x0, u)
+
+    return np.power(
+        u * (np.power(x1, a + 1.0) - np.power(x0, a + 1.0))
+        + np.power(x0, a + 1.0),
+        1.0 / (1 + a),
+    )
+
+
 def integrate_pl(x0, x1, x2, a1, a2):
     """
     Integrate a broken power law between bounds.
@@ -77,12 +105,8 @@ def integrate_pl(x0, x1, x2, a1, a2):
     """
 
     # compute the integral of each piece analytically
-    int_1 = (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0)) / (a1 + 1)
-    int_2 = (
-        np.power(x1, a1 - a2)
-        * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        / (a2 + 1)
-    )
+    int_1 = _integrate_piece(x0, x1, a1)
+    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -155,17 +179,9 @@ def sample_bpl(u, x0, x1, x2, a1, a2):
     idx = stats.bernoulli.rvs(w1, size=len(u)).astype(bool)
 
     # inverse transform sample the lower part for the "successes"
-    out[idx] = np.power(
-        u[idx] * (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0))
-        + np.power(x0, a1 + 1.0),
-        1.0 / (1 + a1),
-    )
+    out[idx] = _sample_piece(u[idx], x0, x1, a1)
 
     # inverse transform sample the upper part for the "failures"
-    out[~idx] = np.power(
-        u[~idx] * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        + np.power(x1, a2 + 1.0),
-        1.0 / (1 + a2),
-    )
+    out[~idx] = _sample_piece(u[~idx], x1, x2, a2)
 
     return out
-- 
2.43.0


From f86fc07e0b0d29717fa78b1d3d1e533718f3d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 38/54] fix: build every model graph separately

---
 popsynth/population_synth.py | 52 +++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index ae7d8b9..3e36860 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -81,8 +81,6 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         self._auxiliary_observations: Dict[str, AuxiliarySampler] = {}
 
-        self._graph = nx.DiGraph()  # type: nx.Digraph
-
         if not isinstance(spatial_distribution, SpatialDistribution):
 
             log.error("the spatial_distribution is the wrong type")
@@ -139,8 +137,6 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 self._params[k] = v
 
-        self._graph.add_node(self._spatial_distribution.name)
-
         # add the sky sampler
 
     def clean(self, reset: bool = False):
@@ -1554,9 +1550,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
     @property
     def graph(self):
 
-        self._build_graph()
-
-        return self._graph
+        return self._build_graph()
 
     def _build_graph(self):
         """
@@ -1566,24 +1560,24 @@ class PopulationSynth(object, metaclass=ABCMeta):
         # start from scratch, so that removed samplers do not linger and
         # the graphs of drawn populations are not changed
 
-        self._graph = nx.DiGraph()
-        self._graph.add_node(self._spatial_distribution.name)
+        graph = nx.DiGraph()
+        graph.add_node(self._spatial_distribution.name)
 
         # first check out the luminosity sampler
 
-        self._graph.add_node("obs_flux", observed=True)
-        self._graph.add_edge(self._spatial_distribution.name, "obs_flux")
+        graph.add_node("obs_flux", observed=True)
+        graph.add_edge(self._spatial_distribution.name, "obs_flux")
         if self._has_derived_luminosity:
 
-            self._graph.add_node(self._derived_luminosity_sampler.name)
+            graph.add_node(self._derived_luminosity_sampler.name)
 
-            self._graph.add_edge(
+            graph.add_edge(
                 self._derived_luminosity_sampler.name, "obs_flux"
             )
 
             if self._derived_luminosity_sampler.uses_distance:
 
-                self._graph.add_edge(
+                graph.add_edge(
                     self._spatial_distribution.name,
                     self._derived_luminosity_sampler.name,
                 )
@@ -1593,19 +1587,19 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 v2,
             ) in self._derived_luminosity_sampler.secondary_samplers.items():
 
-                self._graph.add_node(k2)
-                self._graph.add_edge(k2, self._derived_luminosity_sampler.name)
+                graph.add_node(k2)
+                graph.add_edge(k2, self._derived_luminosity_sampler.name)
 
                 # pass the graph and the primary
 
                 _ = v2.get_secondary_properties(
-                    graph=self._graph,
+                    graph=graph,
                     primary=k2,
                     spatial_distribution=self._spatial_distribution,
                 )
 
         else:
-            self._graph.add_edge(self._luminosity_distribution.name, "obs_flux")
+            graph.add_edge(self._luminosity_distribution.name, "obs_flux")
         # now do the same fro everything else
 
         for k, v in self._auxiliary_observations.items():
@@ -1614,35 +1608,37 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 not v.is_secondary
             ), "This is a secondary sampler. You cannot sample it in the main sampler"
 
-            self._graph.add_node(k, observed=False)
+            graph.add_node(k, observed=False)
 
             if v.observed:
-                self._graph.add_node(v.obs_name, observed=False)
-                self._graph.add_edge(k, v.obs_name)
+                graph.add_node(v.obs_name, observed=False)
+                graph.add_edge(k, v.obs_name)
 
                 if v.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k)
+                    graph.add_edge(self._spatial_distribution.name, k)
 
             for k2, v2 in v.secondary_samplers.items():
 
                 # first we tell the sampler to go and retrieve all of
                 # its own secondaries
 
-                self._graph.add_edge(k2, k)
-                self._graph.add_node(k2, observed=False)
+                graph.add_edge(k2, k)
+                graph.add_node(k2, observed=False)
 
                 if v2.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k2)
+                    graph.add_edge(self._spatial_distribution.name, k2)
 
                 if v2.observed:
 
-                    self._graph.add_node(v2.obs_name, observed=True)
-                    self._graph.add_edge(k2, v2.obs_name)
+                    graph.add_node(v2.obs_name, observed=True)
+                    graph.add_edge(k2, v2.obs_name)
 
                 _ = v2.get_secondary_properties(
-                    graph=self._graph,
+                    graph=graph,
                     primary=k2,
                     spatial_distribution=self._spatial_distribution,
                 )
+
+        return graph
-- 
2.43.0


From 880f9517e88832ea576ce7c06eaf0c5122cb3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 39/54] fix: draw surveys of several threads one after another

---
 popsynth/population_synth.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 3e36860..f37f597 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1,4 +1,6 @@
 import copy
+import functools
+import threading
 from abc import ABCMeta
 from collections import OrderedDict
 from typing import Any, Dict, Optional, Union
@@ -36,6 +38,23 @@ from popsynth.utils.registry import (
 log = setup_logger(__name__)
 
 
+# surveys are drawn from numpy's global random state, so that only one
+# can be drawn at a time
+
+_draw_lock = threading.RLock()
+
+
+def _one_at_a_time(draw):
+    @functools.wraps(draw)
+    def wrapper(*args, **kwargs):
+
+        with _draw_lock:
+
+            return draw(*args, **kwargs)
+
+    return wrapper
+
+
 def _to_builtin(value: Any) -> Any:
     """
     Convert the numpy scalars in a (nested) dictionary to
@@ -973,6 +992,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         return log_fobs
 
+    @_one_at_a_time
     def draw_survey(
         self,
         flux_sigma: Optional[float] = None,
-- 
2.43.0


From 99aed6d2a304b8a5849eaabdbe81c70eae532449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 40/54] fix: describing a synth while another thread first
 copies its parts

---
 popsynth/distribution.py | 2 +-
 popsynth/utils/meta.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index c01673d..97411aa 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -308,7 +308,7 @@ class SpatialDistribution(Distribution):
 
         for cls in type(self).mro():
 
-            for name, parameter in vars(cls).items():
+            for name, parameter in list(vars(cls).items()):
 
                 if (
                     isinstance(parameter, Parameter)
diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index 4c34d8c..e49295f 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -145,7 +145,7 @@ def fill_default_parameters(obj) -> Dict[str, float]:
 
     for cls in type(obj).mro():
 
-        for name, parameter in vars(cls).items():
+        for name, parameter in list(vars(cls).items()):
 
             if (
                 isinstance(parameter, Parameter)
-- 
2.43.0


From 49848452bf9361f3b2dc61926291710859fe8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 41/54] fix: quantities own their observed values

The observed array of a quantity could be the array of another quantity
(the Flatland transform returns the luminosities themselves), so that an
in-place operation on one of them changed the other.
---
 popsynth/simulated_variable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index e528a5d..f423cbe 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -33,9 +33,11 @@ class SimulatedVariable(np.ndarray):
         selection: np.ndarray,
     ):
         # Input array is an already formed ndarray instance
-        # We first cast to be our class type
+        # We first cast to be our class type. The values are copied as
+        # they may be shared with another variable which must not change
+        # if this one is modified in place
 
-        obj = np.asarray(observed_values).view(cls)
+        obj = np.array(observed_values).view(cls)
 
         if len(selection) != len(observed_values):
 
-- 
2.43.0


From 952c552eb1793c9591eefe7c31cee62cbe9705e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 42/54] fix: store replaced files durably, and never take an
 error for a missing file

An error when looking at the file made it be written in place, and after a
power failure a save that had reported success could be undone.
---
 popsynth/utils/atomic_file.py | 53 +++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/popsynth/utils/atomic_file.py b/popsynth/utils/atomic_file.py
index abaa9b7..ff42c91 100644
--- a/popsynth/utils/atomic_file.py
+++ b/popsynth/utils/atomic_file.py
@@ -1,10 +1,23 @@
 import os
-import shutil
+import stat
 import uuid
 from contextlib import contextmanager, suppress
 from typing import Iterator
 
 
+def _sync(path: str) -> None:
+
+    fd = os.open(path, os.O_RDONLY)
+
+    try:
+
+        os.fsync(fd)
+
+    finally:
+
+        os.close(fd)
+
+
 @contextmanager
 def atomic_write(file_name) -> Iterator[str]:
     """
@@ -17,9 +30,22 @@ def atomic_write(file_name) -> Iterator[str]:
     :param file_name: name of the file to write
     """
 
-    if not isinstance(file_name, (str, os.PathLike)) or (
-        os.path.exists(file_name) and not os.path.isfile(file_name)
-    ):
+    mode = None
+
+    if isinstance(file_name, (str, os.PathLike)):
+
+        # any other error must not be taken for a missing file
+        with suppress(FileNotFoundError):
+
+            mode = os.stat(file_name).st_mode
+
+        regular = mode is None or stat.S_ISREG(mode)
+
+    else:
+
+        regular = False
+
+    if not regular:
 
         yield file_name
 
@@ -34,20 +60,12 @@ def atomic_write(file_name) -> Iterator[str]:
 
         yield tmp
 
-        if os.path.exists(target):
+        if mode is not None:
 
-            shutil.copymode(target, tmp)
+            os.chmod(tmp, stat.S_IMODE(mode))
 
         # the data must be stored before the name points to them
-        fd = os.open(tmp, os.O_RDONLY)
-
-        try:
-
-            os.fsync(fd)
-
-        finally:
-
-            os.close(fd)
+        _sync(tmp)
 
         os.replace(tmp, target)
 
@@ -58,3 +76,8 @@ def atomic_write(file_name) -> Iterator[str]:
             os.unlink(tmp)
 
         raise
+
+    # not every system can store the name right away
+    with suppress(OSError):
+
+        _sync(os.path.dirname(target))
-- 
2.43.0


From 713cc26112371299f22a5b2e0348de44f2a76e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 43/54] fix: write populations in memory first

HDF5 does not report a failed write of the data of a data set when it is
closed, so that a save could succeed without having stored everything, and
an addition that failed or was interrupted left the whole file unreadable.
---
 popsynth/population.py       | 22 ++++-------------
 popsynth/utils/hdf5_utils.py | 47 +++++++++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index c955063..70683d8 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -13,8 +13,8 @@ from numpy.typing import ArrayLike
 
 from popsynth.auxiliary_sampler import SecondaryStorage
 from popsynth.utils.array_to_cmap import array_to_cmap
-from popsynth.utils.atomic_file import atomic_write
 from popsynth.utils.hdf5_utils import (
+    atomic_hdf5,
     clean_graph_dict,
     fill_graph_dict,
     recursively_load_dict_contents_from_group,
@@ -554,11 +554,9 @@ class Population(object):
         :type file_name: str
         """
 
-        with atomic_write(file_name) as tmp_name:
+        with atomic_hdf5(file_name, "w") as f:
 
-            with h5py.File(tmp_name, "w") as f:
-
-                self._writeto(f)
+            self._writeto(f)
 
     def addto(self, file_name: str, group_name: str) -> None:
         """
@@ -571,21 +569,11 @@ class Population(object):
         :type group_name: str
         """
 
-        with h5py.File(file_name, "r+") as f:
+        with atomic_hdf5(file_name, "r+") as f:
 
             g = f.create_group(group_name)
 
-            try:
-
-                self._writeto(g)
-
-            except BaseException:
-
-                # do not leave a part of the population behind
-
-                del f[group_name]
-
-                raise
+            self._writeto(g)
 
     def _writeto(self, f):
         """
diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 71ce454..bdde918 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -1,8 +1,53 @@
-from typing import Any, Dict
+import io
+import os
+from contextlib import contextmanager
+from typing import Any, Dict, Iterator
 
 import h5py
 import numpy as np
 
+from popsynth.utils.atomic_file import atomic_write
+
+
+@contextmanager
+def atomic_hdf5(file_name, mode: str) -> Iterator[h5py.File]:
+    """
+    Write to an HDF5 file such that it always has either its old or its
+    complete new content.
+
+    The content is made in memory first as HDF5 does not report every write
+    that failed, and a file whose change was interrupted can not be read.
+
+    :param file_name: name of the file to write
+    :param mode: w to write a new file, r+ to change an existing one
+    """
+
+    if not isinstance(file_name, (str, os.PathLike)):
+
+        # it is not for us to know what this is
+        with h5py.File(file_name, mode) as f:
+
+            yield f
+
+        return
+
+    image = io.BytesIO()
+
+    if mode == "r+":
+
+        # fails if the file is in use
+        with h5py.File(file_name, mode), open(file_name, "rb") as old:
+
+            image.write(old.read())
+
+    with h5py.File(image, mode) as f:
+
+        yield f
+
+    with atomic_write(file_name) as tmp_name, open(tmp_name, "wb") as new:
+
+        new.write(image.getbuffer())
+
 
 def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     """
-- 
2.43.0


From c33dad7b664c3f1d4061e61892f912a380e4e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 44/54] fix: a start never replaces a configuration that
 appeared meanwhile

A process that found no configuration wrote the defaults over one the user
had put there before it got that far.
---
 popsynth/utils/atomic_file.py   | 34 +++++++++++++++++++++++++++++++--
 popsynth/utils/configuration.py |  5 +++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/popsynth/utils/atomic_file.py b/popsynth/utils/atomic_file.py
index ff42c91..1655725 100644
--- a/popsynth/utils/atomic_file.py
+++ b/popsynth/utils/atomic_file.py
@@ -18,8 +18,30 @@ def _sync(path: str) -> None:
         os.close(fd)
 
 
+def _move_unless_exists(source: str, target: str) -> None:
+
+    try:
+
+        os.link(source, target)
+
+    except FileExistsError:
+
+        pass
+
+    except OSError:
+
+        # not every file system has links
+        if not os.path.exists(target):
+
+            os.replace(source, target)
+
+            return
+
+    os.unlink(source)
+
+
 @contextmanager
-def atomic_write(file_name) -> Iterator[str]:
+def atomic_write(file_name, replace: bool = True) -> Iterator[str]:
     """
     Write a file such that it always has either its old or its complete new
     content: what is written to the name this yields replaces the file only
@@ -28,6 +50,8 @@ def atomic_write(file_name) -> Iterator[str]:
     Anything that is not a regular file (to be) is written directly.
 
     :param file_name: name of the file to write
+    :param replace: if False, a file that has come into existence by the end
+        of the block is kept
     """
 
     mode = None
@@ -67,7 +91,13 @@ def atomic_write(file_name) -> Iterator[str]:
         # the data must be stored before the name points to them
         _sync(tmp)
 
-        os.replace(tmp, target)
+        if replace:
+
+            os.replace(tmp, target)
+
+        else:
+
+            _move_unless_exists(tmp, target)
 
     except BaseException:
 
diff --git a/popsynth/utils/configuration.py b/popsynth/utils/configuration.py
index b99c4b1..ec450fb 100644
--- a/popsynth/utils/configuration.py
+++ b/popsynth/utils/configuration.py
@@ -71,7 +71,8 @@ else:
     # Make directory if needed
     _config_path.mkdir(parents=True, exist_ok=True)
 
-    # another process may be starting, it must never see half a file
-    with atomic_write(_config_file) as _tmp_file:
+    # another process may be starting, it must never see half a file, and a
+    # file that was put there meanwhile must be kept
+    with atomic_write(_config_file, replace=False) as _tmp_file:
 
         OmegaConf.save(config=popsynth_config, f=_tmp_file)
-- 
2.43.0


From 62e56377fb8df2e12dc33fada62a7af13d0d4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 45/54] fix: silencing the console for a while never makes
 silent logs louder

Errors were reported again within silence_console_log although all logs had
been silenced.
---
 popsynth/utils/logging.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 7cae71a..c5a8b85 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -283,8 +283,14 @@ def silence_console_log():
     current_console_logging_level = popsynth_console_log_handler.level
     current_usr_logging_level = popsynth_usr_log_handler.level
 
-    popsynth_console_log_handler.setLevel(logging.ERROR)
-    popsynth_usr_log_handler.setLevel(logging.ERROR)
+    # logs that are already more silent stay so
+
+    popsynth_console_log_handler.setLevel(
+        max(logging.ERROR, current_console_logging_level)
+    )
+    popsynth_usr_log_handler.setLevel(
+        max(logging.ERROR, current_usr_logging_level)
+    )
 
     try:
         yield
-- 
2.43.0


From 3d59a466dec4182d93004a7580de366a3cbbf9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 46/54] fix: graph shows that unobserved samplers depend on the
 distance

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f37f597..25bb6fb 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1634,9 +1634,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 graph.add_node(v.obs_name, observed=False)
                 graph.add_edge(k, v.obs_name)
 
-                if v.uses_distance:
+            if v.uses_distance:
 
-                    graph.add_edge(self._spatial_distribution.name, k)
+                graph.add_edge(self._spatial_distribution.name, k)
 
             for k2, v2 in v.secondary_samplers.items():
 
-- 
2.43.0


From 38b46304c0a22940beff96c7a231148df6ca7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 47/54] fix: graph shows all of the samplers that feed a
 derived luminosity

---
 popsynth/population_synth.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 25bb6fb..fd907bc 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1610,6 +1610,15 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 graph.add_node(k2)
                 graph.add_edge(k2, self._derived_luminosity_sampler.name)
 
+                if v2.uses_distance:
+
+                    graph.add_edge(self._spatial_distribution.name, k2)
+
+                if v2.observed:
+
+                    graph.add_node(v2.obs_name, observed=True)
+                    graph.add_edge(k2, v2.obs_name)
+
                 # pass the graph and the primary
 
                 _ = v2.get_secondary_properties(
-- 
2.43.0


From cd2430efa1e000187d182932b638bdb43f3af5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 48/54] fix: distributions with their default parameters can be
 described

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index fd907bc..abdb190 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -406,7 +406,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.debug(f"setting parameters for {ld_name}")
 
-            for k, v in tmp[ld_name].items():
+            for k, v in (tmp[ld_name] or {}).items():
 
                 log.debug(f"trying to set {k} to {v}")
 
@@ -434,7 +434,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             sd_name
         ]
 
-        for k, v in tmp[sd_name].items():
+        for k, v in (tmp[sd_name] or {}).items():
 
             log.debug(f"trying to set {k} to {v}")
 
-- 
2.43.0


From 8b10dbde345acabacbc5fe1bc3f146e9ba89ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 49/54] fix: is_rate may be left out of a description, as
 documented

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index abdb190..062ca19 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -448,7 +448,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(spatial_distribution, CosmologicalDistribution):
 
-            spatial_distribution._is_rate = tmp["is_rate"]
+            spatial_distribution._is_rate = tmp.get(
+                "is_rate", spatial_distribution._is_rate
+            )
 
         seed: int = input["seed"]
 
-- 
2.43.0


From 5710990a714ef50a84a94ec6e818e8b1350cff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 50/54] fix: descriptions of samplers may be shared or left
 empty

---
 popsynth/population_synth.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 062ca19..230ee1e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -590,7 +590,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if "auxiliary samplers" in input:
 
-            for obj_name, v in input["auxiliary samplers"].items():
+            for obj_name, v in (input["auxiliary samplers"] or {}).items():
+
+                # samplers may share one description
+                v = dict(v)
 
                 # first we extract the required info
 
-- 
2.43.0


From 837a7b833eca280950f260c72d185c5882f74e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 51/54] fix: populations saved to one file at the same time do
 not get lost

---
 popsynth/utils/hdf5_utils.py | 71 +++++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 10 deletions(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index bdde918..e0dc331 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -1,6 +1,7 @@
 import io
 import os
-from contextlib import contextmanager
+import threading
+from contextlib import contextmanager, suppress
 from typing import Any, Dict, Iterator
 
 import h5py
@@ -8,6 +9,53 @@ import numpy as np
 
 from popsynth.utils.atomic_file import atomic_write
 
+try:
+
+    import fcntl
+
+except ImportError:
+
+    # not on every system
+    fcntl = None
+
+
+_save_lock = threading.RLock()
+
+
+@contextmanager
+def _one_at_a_time(file_name) -> Iterator[None]:
+    """
+    Wait until no other thread or process saves to the directory of a file,
+    and keep them waiting for the length of the block.
+
+    :param file_name: name of the file
+    """
+
+    with _save_lock:
+
+        directory = None
+
+        # where this is not possible, processes have to share files with care
+        with suppress(OSError):
+
+            if fcntl is not None:
+
+                directory = os.open(
+                    os.path.dirname(os.path.realpath(file_name)), os.O_RDONLY
+                )
+
+                fcntl.flock(directory, fcntl.LOCK_EX)
+
+        try:
+
+            yield
+
+        finally:
+
+            if directory is not None:
+
+                os.close(directory)
+
 
 @contextmanager
 def atomic_hdf5(file_name, mode: str) -> Iterator[h5py.File]:
@@ -31,22 +79,25 @@ def atomic_hdf5(file_name, mode: str) -> Iterator[h5py.File]:
 
         return
 
-    image = io.BytesIO()
+    # nothing another thread or process saves meanwhile may get lost
+    with _one_at_a_time(file_name):
+
+        image = io.BytesIO()
 
-    if mode == "r+":
+        if mode == "r+":
 
-        # fails if the file is in use
-        with h5py.File(file_name, mode), open(file_name, "rb") as old:
+            # fails if the file is in use
+            with h5py.File(file_name, mode), open(file_name, "rb") as old:
 
-            image.write(old.read())
+                image.write(old.read())
 
-    with h5py.File(image, mode) as f:
+        with h5py.File(image, mode) as f:
 
-        yield f
+            yield f
 
-    with atomic_write(file_name) as tmp_name, open(tmp_name, "wb") as new:
+        with atomic_write(file_name) as tmp_name, open(tmp_name, "wb") as new:
 
-        new.write(image.getbuffer())
+            new.write(image.getbuffer())
 
 
 def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
-- 
2.43.0


From dbdef08b9d4d38ae87c87d0ad9e1a84f2004a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 52/54] fix: populations with slashes in the names of
 quantities can be saved and loaded

---
 popsynth/population.py       | 12 ++++++++----
 popsynth/utils/hdf5_utils.py | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 70683d8..da493fb 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -17,8 +17,10 @@ from popsynth.utils.hdf5_utils import (
     atomic_hdf5,
     clean_graph_dict,
     fill_graph_dict,
+    from_hdf5_key,
     recursively_load_dict_contents_from_group,
     recursively_save_dict_contents_to_group,
+    to_hdf5_key,
 )
 from popsynth.utils.logging import setup_logger
 from popsynth.utils.spherical_geometry import xyz
@@ -654,7 +656,7 @@ class Population(object):
 
         for k, v in self._auxiliary_quantities.items():
 
-            q_grp = aux_grp.create_group(k)
+            q_grp = aux_grp.create_group(to_hdf5_key(k))
             q_grp.create_dataset(
                 "true_values", data=v["true_values"], compression="gzip"
             )
@@ -666,7 +668,9 @@ class Population(object):
 
         for k, v in self._model_spaces.items():
 
-            model_grp.create_dataset(k, data=v, compression="gzip")
+            model_grp.create_dataset(
+                to_hdf5_key(k), data=v, compression="gzip"
+            )
 
         # now store the truths
         recursively_save_dict_contents_to_group(f, "truth", self._truth)
@@ -788,13 +792,13 @@ class Population(object):
 
         for k in f["model_spaces"].keys():
 
-            model_spaces[str(k)] = f["model_spaces"][k][()]
+            model_spaces[from_hdf5_key(k)] = f["model_spaces"][k][()]
 
         auxiliary_quantities = {}
 
         for k in f["auxiliary_quantities"].keys():
 
-            auxiliary_quantities[str(k)] = {
+            auxiliary_quantities[from_hdf5_key(k)] = {
                 "true_values": f["auxiliary_quantities"][k]["true_values"][()],
                 "obs_values": f["auxiliary_quantities"][k]["obs_values"][()],
             }
diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index e0dc331..046d5d9 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -100,6 +100,27 @@ def atomic_hdf5(file_name, mode: str) -> Iterator[h5py.File]:
             new.write(image.getbuffer())
 
 
+def to_hdf5_key(name: str) -> str:
+    """
+    A name as it can be used for an HDF5 object, for which a slash separates
+    groups.
+
+    :param name: any name
+    """
+
+    return name.replace("%", "%25").replace("/", "%2F")
+
+
+def from_hdf5_key(key: str) -> str:
+    """
+    The name of an HDF5 object, see to_hdf5_key.
+
+    :param key: name of the object in the file
+    """
+
+    return str(key).replace("%2F", "/").replace("%25", "%")
+
+
 def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     """
     Save dict to HDF5.
@@ -146,18 +167,18 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
 
         if isinstance(item, (np.ndarray, np.generic, str, bytes, float, int)):
 
-            h5file[path + "/" + key] = item
+            h5file[path + "/" + to_hdf5_key(key)] = item
 
         elif isinstance(item, dict):
 
             if len(item) == 0:
 
-                h5file[path + "/" + key] = "FILL_VALUE"
+                h5file[path + "/" + to_hdf5_key(key)] = "FILL_VALUE"
 
             else:
 
                 recursively_save_dict_contents_to_group(
-                    h5file, path + "/" + key + "/", item
+                    h5file, path + "/" + to_hdf5_key(key) + "/", item
                 )
         else:
             raise ValueError("Cannot save %s type" % type(item))
@@ -174,7 +195,9 @@ def recursively_load_dict_contents_from_group(h5file, path):
     """
     ans = {}
 
-    for key, item in h5file[path].items():
+    for h5_key, item in h5file[path].items():
+
+        key = from_hdf5_key(h5_key)
 
         if isinstance(item, h5py._hl.dataset.Dataset):
             ans[key] = item[()]
@@ -198,7 +221,7 @@ def recursively_load_dict_contents_from_group(h5file, path):
 
         elif isinstance(item, h5py._hl.group.Group):
             ans[key] = recursively_load_dict_contents_from_group(
-                h5file, path + "/" + key + "/"
+                h5file, path + "/" + h5_key + "/"
             )
     return ans
 
-- 
2.43.0


From 502a0f4bd44d5d201e616d2c017fabdc07222fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 53/54] fix: samplers can be selected on distances and
 luminosities they do not use themselves

---
 popsynth/auxiliary_sampler.py | 5 ++++-
 popsynth/population_synth.py  | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index c66f24c..4d24157 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -339,7 +339,10 @@ class AuxiliarySampler(
 
                 log.info(f"{self.name} is sampling its secondary quantities")
 
-            if self._uses_distance:
+            # the selection may be on the distance even if the sampler
+            # itself does not depend on it
+
+            if self._uses_distance or hasattr(self, "_distance"):
 
                 self._selector.set_distance(self._distance)
 
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 230ee1e..33e83b2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1268,9 +1268,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             for k2, v2 in v.all_secondary_samplers.items():
 
-                if v2.uses_luminosity:
+                # the selection may be on the luminosity even if the
+                # sampler itself does not depend on it
 
-                    v2.set_luminosity(luminosities)
+                v2.set_luminosity(luminosities)
 
                 if v2.uses_distance:
 
-- 
2.43.0


From 2f468d4e5a4cdf9bc4e708e1c5f88fe82fec7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 54/54] fix: populations can be copied and pickled

---
 popsynth/auxiliary_sampler.py  |  4 ++--
 popsynth/simulated_variable.py | 27 +++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 4d24157..91cdd66 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -125,7 +125,7 @@ class SecondaryContainer(object):
 
 
 class SecondaryStorage(DotMap):
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
         """
         A container for secondary samplers
 
@@ -133,7 +133,7 @@ class SecondaryStorage(DotMap):
 
         """
 
-        super(SecondaryStorage, self).__init__()
+        super(SecondaryStorage, self).__init__(*args, **kwargs)
 
     def add_secondary(self, secondary_values: SecondaryContainer) -> None:
         """
diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index f423cbe..a422af3 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from .utils.logging import setup_logger
@@ -116,6 +118,31 @@ class SimulatedVariable(np.ndarray):
 
         self._latent_values = getattr(obj, "_latent_values", None)
 
+    # the latent values and the selection belong to the variable when it is
+    # copied or pickled, e.g. to send it to another process
+
+    def __deepcopy__(self, memo):
+
+        out = super().__deepcopy__(memo)
+
+        out._latent_values = copy.deepcopy(self._latent_values, memo)
+
+        out._selection = copy.deepcopy(self._selection, memo)
+
+        return out
+
+    def __reduce__(self):
+
+        function, args, state = super().__reduce__()
+
+        return function, args, (state, self._latent_values, self._selection)
+
+    def __setstate__(self, state):
+
+        state, self._latent_values, self._selection = state
+
+        super().__setstate__(state)
+
     def __getitem__(self, item):
 
         obs = self.view(np.ndarray).__getitem__(item)
-- 
2.43.0

