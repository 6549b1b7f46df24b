From f862af37f332aa3550724c35e1d1c78ff405c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:13 +0000
Subject: [PATCH 01/25] fix: do not lose results that are put to the queue
 while it is being drained

---
 mlmc/sampling_pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 0d40232..536eb13 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -281,13 +281,13 @@ class OneProcessPool(SamplingPool):
     def _queues_to_list(self, queue_dict_list):
         results = {}
         for level_id, q in queue_dict_list:
-            queue_list = list(q.queue)
+            # Thread safe read and clear, results put in between would be lost otherwise
+            with q.mutex:
+                queue_list = list(q.queue)
+                q.queue.clear()
             if not queue_list:
                 continue
             results[level_id] = queue_list
-            # Thread safe clear
-            with q.mutex:
-                q.queue.clear()
 
             self._n_running -= len(results[level_id])
 
-- 
2.43.0


From 02d3fa41494b6f77852954225f1bc1fe36e44f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:14 +0000
Subject: [PATCH 02/25] fix: report a sample as failed when its workspace
 cannot be prepared

---
 mlmc/sampling_pool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 536eb13..b408b78 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -99,9 +99,9 @@ class SamplingPool(ABC):
         err_msg = ""
         running_time = 0
 
-        if level_sim.need_sample_workspace:
-            SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
         try:
+            if level_sim.need_sample_workspace:
+                SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
             start = time.time()
             res = level_sim._calculate(level_sim.config_dict, seed)
             running_time = time.time() - start
-- 
2.43.0


From 275fca1d920b92b5558da7f89cf5f10742db794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:14 +0000
Subject: [PATCH 03/25] fix: count the first batch of failed samples of a level
 as finished

---
 mlmc/sample_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 01be908..8ef330c 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -199,8 +199,8 @@ class Memory(SampleStorage):
 
             if level_id not in self._n_finished:
                 self._n_finished[level_id] = 0
-            else:
-                self._n_finished[level_id] += len(res)
+
+            self._n_finished[level_id] += len(res)
 
     def save_result_format(self, res_spec: List[QuantitySpec]):
         """
-- 
2.43.0


From c5c7272ed16b7dc2c5d6bab9206ddf5d70302a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:14 +0000
Subject: [PATCH 04/25] fix: report zero finished samples on levels without any
 finished sample

---
 mlmc/sample_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 8ef330c..31119b5 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -215,7 +215,8 @@ class Memory(SampleStorage):
         Number of finished samples on each level
         :return: List
         """
-        n_finished = np.empty(max(self._n_finished.items(), key=lambda k: k[0])[0]+1)
+        n_levels = 0 if self._level_parameters is None else len(self._level_parameters)
+        n_finished = np.zeros(max([n_levels] + [level_id + 1 for level_id in self._n_finished]))
         for level_id, n_fin in self._n_finished.items():
             n_finished[level_id] = n_fin
 
-- 
2.43.0


From 84cb40a88186dce783622f9651f4f3c754f3d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:14 +0000
Subject: [PATCH 05/25] fix: store failed samples with non-ASCII error messages

---
 mlmc/tool/hdf5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f6f3219..f4bf0c8 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -325,7 +325,9 @@ class LevelGroup:
         :param failed_samples: set; Level sample ids
         :return: None
         """
-        self._append_dataset(self.failed_dset, failed_samples)
+        # Error messages can contain any characters
+        self._append_dataset(self.failed_dset, [(sample_id, err_msg.encode('utf-8', errors='replace'))
+                                                for sample_id, err_msg in failed_samples])
 
     def _append_dataset(self, dataset_name, values):
         """
-- 
2.43.0


From 210d808a46da97ce17cc43647966416084addaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:20 +0000
Subject: [PATCH 06/25] fix: do not reuse cached samples of deleted quantities

---
 mlmc/quantity/quantity.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bdeddb9..e5fbf7b 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -1,3 +1,4 @@
+import itertools
 import operator
 import numpy as np
 import scipy.stats
@@ -33,6 +34,14 @@ def make_root_quantity(storage: SampleStorage, q_specs: List[QuantitySpec]):
 
 
 class Quantity:
+    _instance_ids = itertools.count()
+    # Unlike id(), these identifiers are not reused when a quantity is deleted
+
+    def __new__(cls, *args, **kwargs):
+        instance = super().__new__(cls)
+        instance._instance_id = next(Quantity._instance_ids)
+        return instance
+
     def __init__(self, quantity_type, operation, input_quantities=[]):
         """
         Quantity class represents real quantity and also provides operation that can be performed with stored values.
@@ -121,7 +130,7 @@ class Quantity:
         chunk_size = None
         if chunk_spec.chunk_slice is not None:
             chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, id(self))  # redundant parentheses needed due to py36, py37
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, self._instance_id)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From fd9b2e12e2f0c469b0660bfd224b3b146d4c0b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:36 +0000
Subject: [PATCH 07/25] fix: keep the shape of a constant computed from
 constants

---
 mlmc/quantity/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index e5fbf7b..627d48b 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -228,8 +228,8 @@ class Quantity:
         for quantity in quantities:
             if not isinstance(quantity, QuantityConst):
                 return Quantity(quantity.qtype, operation=operation, input_quantities=quantities)
-        # Quantity from QuantityConst instances
-        return QuantityConst(quantities[0].qtype, value=operation(*[q._value for q in quantities]))
+        # Quantity from QuantityConst instances, their values have already shape [M, 1, 1]
+        return QuantityConst(quantities[0].qtype, value=operation(*[q._value for q in quantities])[:, 0, 0])
 
     @staticmethod
     def add_op(x, y):
-- 
2.43.0


From cec69a5a0fe76f53bac24bf95c7a1a81bb0f1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:21 +0000
Subject: [PATCH 08/25] fix: index the mean of an array quantity by a tuple
 axis by axis

---
 mlmc/quantity/quantity.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 627d48b..3593997 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -651,9 +651,12 @@ class QuantityMean:
         if not isinstance(self.qtype, qt.ArrayType):
             key = slice(start, start + new_qtype.size())
 
+        # First axis are levels, a tuple indexes the following axes one by one
+        level_key = (slice(None), *key) if isinstance(key, tuple) else (slice(None), key)
+
         # Getting items, it performs reshape inside
-        l_means = self.l_means[:, key]
-        l_vars = self.l_vars[:, key]
+        l_means = self.l_means[level_key]
+        l_vars = self.l_vars[level_key]
 
         return QuantityMean(quantity_type=new_qtype, l_means=l_means.reshape((l_means.shape[0], -1)),
                             l_vars=l_vars.reshape((l_vars.shape[0], -1)), n_samples=self._n_samples,
-- 
2.43.0


From 69dbf2dfbba215b5a2891f203f4b6afb37c4ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:38 +0000
Subject: [PATCH 09/25] fix: access items of arrays of composed quantities

---
 mlmc/quantity/quantity_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 41d6ea7..b764ad8 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -128,9 +128,9 @@ class ArrayType(QType):
         :param key: slice
         :return:
         """
-        # Reshape M to original shape to allow access
+        # Reshape M to original shape to allow access, array items can be composed types
         assert self._shape is not None
-        chunk = chunk.reshape((*self._shape, chunk.shape[-2], chunk.shape[-1]))
+        chunk = chunk.reshape((*self._shape, self._qtype.size(), chunk.shape[-2], chunk.shape[-1]))
         return QType.keep_dims(chunk[key])
 
     def reshape(self, data):
-- 
2.43.0


From 25ba2b39aa74e2dd93429b3d56c0027850103f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 10/25] fix: keep the reference domain, log and safe_eval when
 changing the number of moments

---
 mlmc/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2329566..23ce770 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -53,7 +53,8 @@ class Moments:
         Return moment object with different size.
         :param size: int, new number of _moments_fn
         """
-        return self.__class__(size, self.domain, self._is_log, self._is_clip)
+        return self.__class__(size, self.domain, ref_domain=self.ref_domain, log=self._is_log,
+                              safe_eval=self._is_clip)
 
     def clip(self, value):
         """
-- 
2.43.0


From f51f0bdeaae3816f6ea8fd01091dae669260dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 11/25] fix: evaluate one moment of values in an array of any
 dimension

---
 mlmc/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 23ce770..0d3687c 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -77,7 +77,7 @@ class Moments:
         return self._eval_all(value, self.size)
 
     def eval(self, i, value):
-        return self._eval_all(value, i+1)[:, -1]
+        return self._eval_all(value, i+1)[..., -1]
 
     def eval_single_moment(self, i, value):
         """
-- 
2.43.0


From 8b2e74a967135ef834ab8336d06816b022cab980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 12/25] fix: single Fourier moments in the same order as all of
 them together

---
 mlmc/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 0d3687c..2cc26bd 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -165,11 +165,11 @@ class Fourier(Moments):
     def eval(self, i, value):
         t = self.transform(np.atleast_1d(value))
         if i == 0:
-            return 1
+            return np.ones(t.shape)
         elif i % 2 == 1:
-            return np.sin( (i - 1) / 2 * t)
+            return np.cos((i + 1) / 2 * t)
         else:
-            return np.cos(i / 2 * t)
+            return np.sin(i / 2 * t)
 
 
 class Legendre(Moments):
-- 
2.43.0


From 262f60d49f028eb6ec31f1915ca0dbb30f89dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 13/25] fix: evaluate Fourier moments of values in an array of
 any dimension

---
 mlmc/moments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2cc26bd..fc77d8f 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -151,15 +151,15 @@ class Fourier(Moments):
         R = int(size / 2)
         shorter_sin = 1 - int(size % 2)
         k = np.arange(1, R + 1)
-        kx = np.outer(t, k)
+        kx = t[..., None] * k
 
-        res = np.empty((len(t), size))
-        res[:, 0] = 1
+        res = np.empty(t.shape + (size,))
+        res[..., 0] = 1
 
         # Odd column index
-        res[:, 1::2] = np.cos(kx[:, :])
+        res[..., 1::2] = np.cos(kx)
         # Even column index
-        res[:, 2::2] = np.sin(kx[:, : R - shorter_sin])
+        res[..., 2::2] = np.sin(kx[..., : R - shorter_sin])
         return res
 
     def eval(self, i, value):
-- 
2.43.0


From 7a2582e996aa0b7bf9e8fc876396308e1dd5f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:51 +0000
Subject: [PATCH 14/25] fix: check the shape of the actual standard deviance
 when points are set

---
 mlmc/random/correlated_field.py | 1510 +++++++++++++++----------------
 1 file changed, 755 insertions(+), 755 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ba83e15..6d50be5 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -1,755 +1,755 @@
-import copy
-import numpy as np
-import numpy.linalg as la
-import numpy.random as rand
-import scipy as sp
-from sklearn.utils.extmath import randomized_svd
-import warnings
-warnings.simplefilter('always', DeprecationWarning)
-import gstools
-
-
-def kozeny_carman(porosity, m, factor, viscosity):
-    """
-    Kozeny-Carman law. Empirical relationship between porosity and conductivity.
-    :param porosity: Porosity value.
-    :param m: Power. Suitable values are 1 < m < 4
-    :param factor: [m^2]
-        E.g. 1e-7 ,   m = 3.48;  juta fibers
-             2.2e-8 ,     1.46;  glass fibers
-             1.8e-13,     2.89;  erruptive material
-             1e-12        2.76;  erruptive material
-             1.8e-12      1.99;  basalt
-    :param viscosity: [Pa . s], water: 8.90e-4
-    :return:
-    """
-    assert np.all(viscosity > 1e-10)
-    porosity = np.minimum(porosity, 1-1e-10)
-    porosity = np.maximum(porosity, 1e-10)
-    cond = factor * porosity ** (2 + m) / (1 - porosity) ** 2 / viscosity
-    cond = np.maximum(cond, 1e-15)
-    return cond
-
-
-def positive_to_range(exp, a, b):
-    """
-    Mapping a positive parameter 'exp' from the interval <0, \infty) to the interval <a,b).
-    Suitable e.g. to generate meaningful porosity from a variable with lognormal distribution.
-    :param exp: A positive parameter. (LogNormal distribution.)
-    :param a, b: Range interval.
-    """
-    return b * (1 - (b - a) / (b + (b - a) * exp))
-
-
-class Field:
-    def __init__(self, name, field=None, param_fields=[], regions=[]):
-        """
-        :param name: Name of the field.
-        :param field: scalar (const field), or instance of SpatialCorrelatedField, or a callable
-               for evaluation of the field from its param_fields.
-        :param regions: Domain where field is sampled.
-        :param param_fields: List of names of parameter fields, dependees.
-        TODO: consider three different derived classes for: const, random and func fields.
-        """
-        self.correlated_field = None
-        self.const = None
-        self._func = field
-        self.is_outer = True
-
-        if type(regions) is str:
-            regions = [regions]
-        self.name = name
-        if type(field) in [float, int]:
-            self.const = field
-            assert len(param_fields) == 0
-        elif isinstance(field, RandomFieldBase):
-            self.correlated_field = field
-            assert len(param_fields) == 0
-        else:
-            assert len(param_fields) > 0, field
-
-            # check callable
-            try:
-                params = [np.ones(2) for i in range(len(param_fields))]
-                field(*params)
-            except:
-                raise Exception("Invalid field function for field: {}".format(name))
-            self._func = field
-
-        self.regions = regions
-        self.param_fields = param_fields
-
-    def set_points(self, points):
-        """
-        Internal method to set evaluation points. See Fields.set_points.
-        """
-        if self.const is not None:
-            self._sample = self.const * np.ones(len(points))
-        elif self.correlated_field is not None:
-            self.correlated_field.set_points(points)
-            if type(self.correlated_field) is  SpatialCorrelatedField:
-                # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
-                self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
-        else:
-            pass
-
-    def sample(self):
-        """
-        Internal method to generate/compute new sample.
-        :return:
-        """
-        if self.const is not None:
-            return self._sample
-        elif self.correlated_field is not None:
-            self._sample = self.correlated_field.sample()
-        else:
-            params = [ pf._sample for pf in self.param_fields]
-            self._sample = self._func(*params)
-        return self._sample
-
-
-class Fields:
-
-    def __init__(self, fields):
-        """
-        Creates a new set of cross dependent random fields.
-        Currently no support for cross-correlated random fields.
-        A set of independent basic random fields must exist
-        other fields can be dependent in deterministic way.
-
-        :param fields: A list of dependent fields.
-
-        Example:
-        rf = SpatialCorrelatedField(log=True)
-        Fields([
-            Field('por_top', rf, regions='ground_0'),
-            Field('porosity_top', positive_to_range, ['por_top', 0.02, 0.1], regions='ground_0'),
-            Field('por_bot', rf, regions='ground_1'),
-            Field('porosity_bot', positive_to_range, ['por_bot', 0.01, 0.05], regions='ground_1'),
-            Field('conductivity_top', cf.kozeny_carman, ['porosity_top', 1, 1e-8, water_viscosity], regions='ground_0'),
-            Field('conductivity_bot', cf.kozeny_carman, ['porosity_bot', 1, 1e-10, water_viscosity],regions='ground_1')
-            ])
-
-        TODO: use topological sort to fix order of 'fields'
-        TODO: syntactic sugar for calculating with fields (like with np.arrays).
-        """
-        self.fields_orig = fields
-        self.fields_dict = {}
-        self.fields = []
-
-        # Have to make a copy of the fields since we want to generate the samples in them
-        # and the given instances of Field can be used by an independent FieldSet instance.
-        for field in self.fields_orig:
-            new_field = copy.copy(field)
-            if new_field.param_fields:
-                new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
-            self.fields_dict[new_field.name] = new_field
-            self.fields.append(new_field)
-
-    def _get_field_obj(self, field_name, regions):
-        """
-        Get fields by name, replace constants by constant fields for unification.
-        """
-        if type(field_name) in [float, int]:
-            const_field = Field("const_{}".format(field_name), field_name, regions=regions)
-            self.fields.insert(0, const_field)
-            self.fields_dict[const_field.name] = const_field
-            return const_field
-        else:
-            assert field_name in self.fields_dict, "name: {} dict: {}".format(field_name, self.fields_dict)
-            return self.fields_dict[field_name]
-
-    @property
-    def names(self):
-        return self.fields_dict.keys()
-
-    # def iterative_dfs(self, graph, start, path=[]):
-    #     q = [start]
-    #     while q:
-    #         v = q.pop(0)
-    #         if v not in path:
-    #             path = path + [v]
-    #             q = graph[v] + q
-    #
-    #     return path
-
-    def set_outer_fields(self, outer):
-        """
-        Set fields that will be in a dictionary produced by FieldSet.sample() call.
-        :param outer: A list of names of fields that are sampled.
-        :return:
-        """
-        outer_set = set(outer)
-        for f in self.fields:
-            if f.name in outer_set:
-                f.is_outer = True
-            else:
-                f.is_outer = False
-
-    def set_points(self, points, region_ids=[], region_map={}):
-        """
-        Set mesh related data to fields.
-        - set points for sample evaluation
-        - translate region names to region ids in fields
-        - create maps from region constraned point sets of fields to full point set
-        :param points: np array of points for field evaluation
-        :param regions: regions of the points;
-               empty means no points for fields restricted to regions and all points for unrestricted fields
-        :return:
-        """
-        self.n_elements = len(points)
-        assert len(points) == len(region_ids)
-        reg_points = {}
-        for i, reg_id in enumerate(region_ids):
-            reg_list = reg_points.get(reg_id, [])
-            reg_list.append(i)
-            reg_points[reg_id] = reg_list
-
-        for field in self.fields:
-            point_ids = []
-            if field.regions:
-                for reg in field.regions:
-                    reg_id = region_map[reg]
-                    point_ids.extend(reg_points.get(reg_id, []))
-                field.set_points(points[point_ids])
-                field.full_sample_ids = point_ids
-            else:
-                field.set_points(points)
-                field.full_sample_ids = np.arange(self.n_elements)
-
-    def sample(self):
-        """
-        Return dictionary of sampled fields.
-        :return: { 'field_name': sample, ...}
-        """
-        result = {}
-        for field in self.fields:
-            sample = field.sample()
-            if field.is_outer:
-                result[field.name] = np.zeros(self.n_elements)
-                result[field.name][field.full_sample_ids] = sample
-        return result
-
-
-class RandomFieldBase:
-    """
-    Base class for various methods for generating random fields.
-
-    Generating realizations of a spatially correlated random field F for a fixed set of points at X.
-    E[F(x)]       = mu(x)
-    Cov_ij = Cov[x_i,x_j]  = E[(F(x_i) - mu(x))(F(x_j) - mu(x))]
-
-    We assume stationary random field with covariance matrix Cov_ij:
-        Cov_i,j = c(x_i - x_j)
-    where c(X) is the "stationary covariance" function. We assume:
-          c(X) = sigma^2 exp( -|X^t K X|^(alpha/2) )
-    for spatially heterogeneous sigma(X) we consider particular non-stationary generalization:\
-          Cov_i,i = sigma(x_i)*sigma(x_j) exp( -|X^t K X|^(alpha/2) ); X = x_i - x_j
-
-    where:
-        - sigma(X) is the standard deviance of the single uncorrelated value
-        - K is a positive definite tensor with eigen vectors corresponding to
-          main directions and eigen values equal to (1/l_i)^2, where l_i is correlation
-          length in singel main direction.
-        - alpha is =1 for "exponential" and =2 for "Gauss" correlation
-
-    SVD decomposition:
-        Considering first m vectors, such that lam(m)/lam(0) <0.1
-
-    Example:
-    ```
-        field = SpatialCorrelatedField(corr_exp='exp', corr_length=1.5)
-        X, Y = np.mgrid[0:1:10j, 0:1:10j]
-        points = np.vstack([X.ravel(), Y.ravel()])
-        field.set_points(points)
-        sample = field.sample()
-
-    ```
-    """
-
-    def __init__(self, corr_exp='gauss', dim=2, corr_length=1.0,
-                 aniso_correlation=None, mu=0.0, sigma=1.0, log=False, **kwargs):
-        """
-        :param corr_exp: 'gauss', 'exp' or a float (should be >= 1)
-        :param dim: dimension of the domain (size of point coords)
-        :param corr_length: scalar, correlation length L > machine epsilon; tensor K = (1/L)^2
-        :param aniso_correlation: 3x3 array; K tensor, overrides correlation length
-        :param mu - mu field (currently just a constant)
-        :param sigma - sigma field (currently just a constant)
-
-        TODO:
-        - implement anisotropy in the base class using transformation matrix for the points
-        - use transformation matrix also for the corr_length
-        - replace corr_exp by aux classes for various correlation functions and pass them here
-        - more general set of correlation functions
-        """
-        self.dim = dim
-        self.log = log
-
-        if corr_exp == 'gauss':
-            self.correlation_exponent = 2.0
-        elif corr_exp == 'exp':
-            self.correlation_exponent = 1.0
-        else:
-            self.correlation_exponent = float(corr_exp)
-
-        # TODO: User should prescribe scaling for main axis and their rotation.
-        # From this we should construct the transformation matrix for the points
-        self._corr_length = corr_length
-        if aniso_correlation is None:
-            assert corr_length > np.finfo(float).eps
-            self.correlation_tensor = np.eye(dim, dim) * (1 / (corr_length ** 2))
-            self._max_corr_length = corr_length
-        else:
-            self.correlation_tensor = aniso_correlation
-            self._max_corr_length = la.norm(aniso_correlation, ord=2)  # largest eigen value
-
-        #### Attributes set through `set_points`.
-        self.points = None
-        # Evaluation points of the field.
-        self.mu = mu
-        # Mean in points. Or scalar.
-        self.sigma = sigma
-        # Standard deviance in points. Or scalar.
-
-        self._initialize(**kwargs)  # Implementation dependent initialization.
-
-    def _initialize(self, **kwargs):
-        raise NotImplementedError()
-
-    def set_points(self, points, mu=None, sigma=None):
-        """
-        :param points: N x d array. Points X_i where the field will be evaluated. d is the dimension.
-        :param mu: Scalar or N array. Mean value of uncorrelated field: E( F(X_i)).
-        :param sigma: Scalar or N array. Standard deviance of uncorrelated field: sqrt( E ( F(X_i) - mu_i )^2 )
-        :return: None
-        """
-        points = np.array(points, dtype=float)
-
-        assert len(points.shape) >= 1
-        assert points.shape[1] == self.dim
-        self.n_points, self.dimension = points.shape
-        self.points = points
-
-        if mu is not None:
-            self.mu = mu
-        self.mu = np.array(self.mu, dtype=float)
-        assert self.mu.shape == () or self.mu.shape == (len(points),)
-
-        if sigma is not None:
-            self.sigma = sigma
-        self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or sigma.shape == (len(points),)
-
-    def _set_points(self):
-        pass
-
-    def sample(self):
-        """
-        :param uncorelated: Random samples from standard normal distribution.
-               Removed as the spectral method do not support it.
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        # if uncorelated is None:
-        #     uncorelated = np.random.normal(0, 1, self.n_approx_terms)
-        # else:
-        #     assert uncorelated.shape == (self.n_approx_terms,)
-
-        field = self._sample()
-        field = self.sigma * field + self.mu
-
-        if not self.log:
-            return field
-        return np.exp(field)
-
-    def _sample(self, uncorrelated):
-        raise NotImplementedError()
-
-
-class SpatialCorrelatedField(RandomFieldBase):
-
-    def _initialize(self, **kwargs):
-        """
-        Called after initialization in common constructor.
-        """
-
-        ### Attributes computed in precalculation.
-        self.cov_mat = None
-        # Covariance matrix (dense).
-        self._n_approx_terms = None
-        # Length of the sample vector, number of KL (Karhunen-Loe?ve) expansion terms.
-        self._cov_l_factor = None
-        # (Reduced) L factor of the SVD decomposition of the covariance matrix.
-        self._sqrt_ev = None
-        # (Reduced) square roots of singular values.
-
-    def _set_points(self):
-        self.cov_mat = None
-        self._cov_l_factor = None
-
-    def cov_matrix(self):
-        """
-        Setup dense covariance matrix for given set of points.
-        :return: None.
-        """
-        assert self.points is not None, "Points not set, call set_points."
-
-        self._points_bbox = box = (np.min(self.points, axis=0), np.max(self.points, axis=0))
-        diameter = np.max(np.abs(box[1] - box[0]))
-        self._relative_corr_length = self._max_corr_length / diameter
-
-        # sigma_sqr_mat = np.outer(self.sigma, self.sigma.T)
-        self._sigma_sqr_max = np.max(self.sigma) ** 2
-        n_pt = len(self.points)
-        self.cov_mat = np.empty((n_pt, n_pt))
-        corr_exp = self.correlation_exponent / 2.0
-
-        for i_row in range(n_pt):
-            pt = self.points[i_row]
-            diff_row = self.points - pt
-            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)
-            self.cov_mat[i_row, :] = np.exp(-len_sqr_row ** corr_exp)
-        return self.cov_mat
-
-    def _eigen_value_estimate(self, m):
-        """
-        Estimate of the m-th eigen value of the covariance matrix.
-        According to paper: Schwab, Thodor: KL Approximation  of Random Fields by ...
-        However for small gamma the asimtotics holds just for to big values of 'm'.
-        We rather need to find a semiempricial formula.
-        greater
-        :param m:
-        :return:
-        """
-        assert self.cov_mat is not None
-        d = self.dimension
-        alpha = self.correlation_exponent
-        gamma = self._relative_corr_length
-        return self._sigma_sqr_max * (1.0 / gamma) ** (m ** (1.0 / d) + alpha) / sp.special.gamma(0.5 * m ** (1 / d))
-
-    def svd_dcmp(self, precision=0.01, n_terms_range=(1, np.inf)):
-        """
-        Does decomposition of covariance matrix defined by set of points
-        :param precision: Desired accuracy of the KL approximation, smaller eigen values are dropped.
-        :param n_terms_range: (min, max) number of terms in KL expansion to use. The number of terms estimated from
-        given precision is snapped to the given interval.
-
-        truncated SVD:
-         cov_mat = U*diag(ev) * V,
-         _cov_l_factor = U[:,0:m]*sqrt(ev[0:m])
-
-        Note on number of terms:
-        According to: C. Schwab and R. A. Todor: KL Approximation of Random Fields by Generalized Fast Multiploe Method
-        the eigen values should decay as (Proposition 2.18):
-            lambda_m ~ sigma^2 * ( 1/gamma ) **( m**(1/d) + alpha ) / Gamma(0.5 * m**(1/d) )
-        where gamma = correlation length / domain diameter
-        ans alpha is the correlation exponent. Gamma is the gamma function.
-        ... should be checked experimantaly and generalized for sigma(X)
-
-        :return:
-        """
-        if self.cov_mat is None:
-            self.cov_matrix()
-
-        if n_terms_range[0] >= self.n_points:
-            U, ev, VT = np.linalg.svd(self.cov_mat)
-            m = self.n_points
-        else:
-            range = list(n_terms_range)
-            range[0] = max(1, range[0])
-            range[1] = min(self.n_points, range[1])
-
-            prec_range = (self._eigen_value_estimate(range[0]), self._eigen_value_estimate(range[1]))
-            if precision < prec_range[0]:
-                m = range[0]
-            elif precision > prec_range[1]:
-                m = range[1]
-            else:
-                f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
-
-            m = max(m, range[0])
-            threshold = 2 * precision
-            # TODO: Test if we should cut eigen values by relative (like now) or absolute value
-            while threshold >= precision and m <= range[1]:
-                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
-                U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
-                threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
-
-            m = len(ev)
-            m = min(m, range[1])
-
-        #print("KL approximation: {} for {} points.".format(m, self.n_points))
-        self.n_approx_terms = m
-        self._sqrt_ev = np.sqrt(ev[0:m])
-        self._cov_l_factor = U[:, 0:m].dot(np.diag(self._sqrt_ev))
-        self.cov_mat = None
-        return self._cov_l_factor, ev[0:m]
-
-    def _sample(self):
-        """
-        :param uncorelated: Random samples from standard normal distribution.
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        if self._cov_l_factor is None:
-            self.svd_dcmp()
-        uncorelated = np.random.normal(0, 1, self.n_approx_terms)
-        return self._cov_l_factor.dot(uncorelated)
-
-
-class GSToolsSpatialCorrelatedField(RandomFieldBase):
-
-    def __init__(self, model, mode_no=1000, log=False, sigma=1):
-        """
-        :param model: instance of covariance model class, which parent is gstools.covmodel.CovModel
-        :param mode_no: number of Fourier modes, default: 1000 as in gstools package
-        """
-        self.model = model
-        self.mode_no = mode_no
-        self.srf = gstools.SRF(model, mode_no=mode_no)
-        self.mu = self.srf.mean
-        self.sigma = sigma
-        self.dim = model.dim
-        self.log = log
-
-    def change_srf(self, seed):
-        """
-        Spatial random field with new seed
-        :param seed: int, random number generator seed
-        :return: None
-        """
-        self.srf = gstools.SRF(self.model, seed=seed, mode_no=self.mode_no)
-
-    def random_field(self):
-        """
-        Generate the spatial random field
-        :return: field, np.ndarray
-        """
-        if self.dim == 1:
-            x = self.points
-            x.reshape(len(x))
-            field = self.srf((x,))
-        elif self.dim == 2:
-            x, y = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            field = self.srf((x, y))
-        else:
-            x, y, z = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            z = z.reshape(len(z), 1)
-            field = self.srf((x, y, z))
-
-        return field
-
-    def sample(self):
-        """
-        :return: Random field evaluated in points given by 'set_points'
-        """
-        if not self.log:
-            return self.sigma * self.random_field() + self.mu
-        return np.exp(self.sigma * self.random_field() + self.mu)
-
-
-class FourierSpatialCorrelatedField(RandomFieldBase):
-    """
-    Generate spatial random fields
-    """
-
-    def _initialize(self, **kwargs):
-        """
-        Own intialization.
-        :param mode_no: Number of Fourier modes
-        """
-        warnings.warn("FourierSpatialCorrelatedField class is deprecated, try to use GSToolsSpatialCorrelatedField class instead",
-            DeprecationWarning)
-        self.len_scale = self._corr_length * 2*np.pi
-        self.mode_no = kwargs.get("mode_no", 1000)
-
-    def get_normal_distr(self):
-        """
-        Normal distributed arrays
-        :return: np.ndarray
-        """
-        Z = np.empty((2, self.mode_no))
-        rng = self._get_random_stream()
-        for i in range(2):
-            Z[i] = rng.normal(size=self.mode_no)
-
-        return Z
-
-    def _sample_sphere(self, mode_no):
-        """Uniform sampling on a d-dimensional sphere
-        Parameters
-        ----------
-            mode_no : :class:`int`, optional
-                number of the Fourier modes
-        Returns
-        -------
-            coord : :class:`numpy.ndarray`
-                x[, y[, z]] coordinates on the sphere with shape (dim, mode_no)
-        """
-        coord = self._create_empty_k(mode_no)
-        if self.dim == 1:
-            rng = self._get_random_stream()
-            ang1 = rng.random_sample(mode_no)
-            coord[0] = 2 * np.around(ang1) - 1
-        elif self.dim == 2:
-            rng = self._get_random_stream()
-            ang1 = rng.uniform(0.0, 2 * np.pi, mode_no)
-            coord[0] = np.cos(ang1)
-            coord[1] = np.sin(ang1)
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return coord
-
-    def gau(self, mode_no=1000):
-        """
-        Compute a gaussian spectrum
-        :param mode_no: int, Number of Fourier modes
-        :return: numpy.ndarray
-        """
-        len_scale = self.len_scale * np.sqrt(np.pi / 4)
-        if self.dim == 1:
-            k = self._create_empty_k(mode_no)
-            rng = self._get_random_stream()
-            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
-        elif self.dim == 2:
-            coord = self._sample_sphere(mode_no)
-            rng = self._get_random_stream()
-            rad_u = rng.random_sample(mode_no)
-            # weibull distribution sampling
-            rad = np.sqrt(np.pi) / len_scale * np.sqrt(-np.log(rad_u))
-            k = rad * coord
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return k
-
-    def exp(self, mode_no=1000):
-        """
-        Compute an exponential spectrum
-        :param mode_no: int, Number of Fourier modes
-        :return: numpy.ndarray
-        """
-        if self.dim == 1:
-            k = self._create_empty_k(mode_no)
-            rng = self._get_random_stream()
-            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
-            k[0] = np.tan(k_u) / self.len_scale
-        elif self.dim == 2:
-            coord = self._sample_sphere(mode_no)
-            rng = self._get_random_stream()
-            rad_u = rng.random_sample(mode_no)
-            # sampling with ppf
-            rad = np.sqrt(1.0 / rad_u ** 2 - 1.0) / self.len_scale
-            k = rad * coord
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return k
-
-    def _create_empty_k(self, mode_no=None):
-        """ Create empty mode array with the correct shape.
-        Parameters
-        ----------
-            mode_no : :class:`int`
-                number of the fourier modes
-        Returns
-        -------
-            :class:`numpy.ndarray`
-                the empty mode array
-        """
-        if mode_no is None:
-            k = np.empty(self.dim)
-        else:
-            k = np.empty((self.dim, mode_no))
-
-        return k
-
-    def _get_random_stream(self, seed=None):
-        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
-
-    def random_field(self):
-        """
-        Calculates the random modes for the randomization method.
-        """
-        y, z = None, None
-        if self.dim == 1:
-            x = self.points
-            x.reshape(len(x), 1)
-        elif self.dim == 2:
-            x, y = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-        else:
-            x, y, z = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            z = z.reshape(len(z), 1)
-
-        normal_distr_values = self.get_normal_distr()
-
-        if self.correlation_exponent == 2:
-            k = self.gau(self.mode_no)
-        else:
-            k = self.exp(self.mode_no)
-
-        # reshape for unstructured grid
-        for dim_i in range(self.dim):
-            k[dim_i] = np.squeeze(k[dim_i])
-            k[dim_i] = np.reshape(k[dim_i], (1, len(k[dim_i])))
-
-        summed_modes = np.broadcast(x, y, z)
-        summed_modes = np.squeeze(np.zeros(summed_modes.shape))
-        # Test to see if enough memory is available.
-        # In case there isn't, divide Fourier modes into smaller chunks
-        chunk_no = 1
-        chunk_no_exp = 0
-
-        while True:
-            try:
-                chunk_len = int(np.ceil(self.mode_no / chunk_no))
-
-                for chunk in range(chunk_no):
-                    a = chunk * chunk_len
-                    # In case k[d,a:e] with e >= len(k[d,:]) causes errors in
-                    # numpy, use the commented min-function below
-                    # e = min((chunk + 1) * chunk_len, self.mode_no-1)
-                    e = (chunk + 1) * chunk_len
-
-                    if self.dim == 1:
-                        phase = k[0, a:e]*x
-                    elif self.dim == 2:
-                        phase = k[0, a:e]*x + k[1, a:e]*y
-                    else:
-                        phase = (k[0, a:e]*x + k[1, a:e]*y +
-                                 k[2, a:e]*z)
-
-                    summed_modes += np.squeeze(
-                        np.sum(normal_distr_values[0, a:e] * np.cos(2.*np.pi*phase) +
-                               normal_distr_values[1, a:e] * np.sin(2.*np.pi*phase),
-                               axis=-1))
-            except MemoryError:
-                chunk_no += 2**chunk_no_exp
-                chunk_no_exp += 1
-                print('Not enough memory. Dividing Fourier modes into {} '
-                      'chunks.'.format(chunk_no))
-            else:
-                break
-
-        field = np.sqrt(1.0 / self.mode_no) * summed_modes
-        return field
-
-    def _sample(self):
-        """
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        return self.random_field()
-
-        if not self.log:
-            return field
-        return np.exp(field)
+import copy
+import numpy as np
+import numpy.linalg as la
+import numpy.random as rand
+import scipy as sp
+from sklearn.utils.extmath import randomized_svd
+import warnings
+warnings.simplefilter('always', DeprecationWarning)
+import gstools
+
+
+def kozeny_carman(porosity, m, factor, viscosity):
+    """
+    Kozeny-Carman law. Empirical relationship between porosity and conductivity.
+    :param porosity: Porosity value.
+    :param m: Power. Suitable values are 1 < m < 4
+    :param factor: [m^2]
+        E.g. 1e-7 ,   m = 3.48;  juta fibers
+             2.2e-8 ,     1.46;  glass fibers
+             1.8e-13,     2.89;  erruptive material
+             1e-12        2.76;  erruptive material
+             1.8e-12      1.99;  basalt
+    :param viscosity: [Pa . s], water: 8.90e-4
+    :return:
+    """
+    assert np.all(viscosity > 1e-10)
+    porosity = np.minimum(porosity, 1-1e-10)
+    porosity = np.maximum(porosity, 1e-10)
+    cond = factor * porosity ** (2 + m) / (1 - porosity) ** 2 / viscosity
+    cond = np.maximum(cond, 1e-15)
+    return cond
+
+
+def positive_to_range(exp, a, b):
+    """
+    Mapping a positive parameter 'exp' from the interval <0, \infty) to the interval <a,b).
+    Suitable e.g. to generate meaningful porosity from a variable with lognormal distribution.
+    :param exp: A positive parameter. (LogNormal distribution.)
+    :param a, b: Range interval.
+    """
+    return b * (1 - (b - a) / (b + (b - a) * exp))
+
+
+class Field:
+    def __init__(self, name, field=None, param_fields=[], regions=[]):
+        """
+        :param name: Name of the field.
+        :param field: scalar (const field), or instance of SpatialCorrelatedField, or a callable
+               for evaluation of the field from its param_fields.
+        :param regions: Domain where field is sampled.
+        :param param_fields: List of names of parameter fields, dependees.
+        TODO: consider three different derived classes for: const, random and func fields.
+        """
+        self.correlated_field = None
+        self.const = None
+        self._func = field
+        self.is_outer = True
+
+        if type(regions) is str:
+            regions = [regions]
+        self.name = name
+        if type(field) in [float, int]:
+            self.const = field
+            assert len(param_fields) == 0
+        elif isinstance(field, RandomFieldBase):
+            self.correlated_field = field
+            assert len(param_fields) == 0
+        else:
+            assert len(param_fields) > 0, field
+
+            # check callable
+            try:
+                params = [np.ones(2) for i in range(len(param_fields))]
+                field(*params)
+            except:
+                raise Exception("Invalid field function for field: {}".format(name))
+            self._func = field
+
+        self.regions = regions
+        self.param_fields = param_fields
+
+    def set_points(self, points):
+        """
+        Internal method to set evaluation points. See Fields.set_points.
+        """
+        if self.const is not None:
+            self._sample = self.const * np.ones(len(points))
+        elif self.correlated_field is not None:
+            self.correlated_field.set_points(points)
+            if type(self.correlated_field) is  SpatialCorrelatedField:
+                # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
+                self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
+        else:
+            pass
+
+    def sample(self):
+        """
+        Internal method to generate/compute new sample.
+        :return:
+        """
+        if self.const is not None:
+            return self._sample
+        elif self.correlated_field is not None:
+            self._sample = self.correlated_field.sample()
+        else:
+            params = [ pf._sample for pf in self.param_fields]
+            self._sample = self._func(*params)
+        return self._sample
+
+
+class Fields:
+
+    def __init__(self, fields):
+        """
+        Creates a new set of cross dependent random fields.
+        Currently no support for cross-correlated random fields.
+        A set of independent basic random fields must exist
+        other fields can be dependent in deterministic way.
+
+        :param fields: A list of dependent fields.
+
+        Example:
+        rf = SpatialCorrelatedField(log=True)
+        Fields([
+            Field('por_top', rf, regions='ground_0'),
+            Field('porosity_top', positive_to_range, ['por_top', 0.02, 0.1], regions='ground_0'),
+            Field('por_bot', rf, regions='ground_1'),
+            Field('porosity_bot', positive_to_range, ['por_bot', 0.01, 0.05], regions='ground_1'),
+            Field('conductivity_top', cf.kozeny_carman, ['porosity_top', 1, 1e-8, water_viscosity], regions='ground_0'),
+            Field('conductivity_bot', cf.kozeny_carman, ['porosity_bot', 1, 1e-10, water_viscosity],regions='ground_1')
+            ])
+
+        TODO: use topological sort to fix order of 'fields'
+        TODO: syntactic sugar for calculating with fields (like with np.arrays).
+        """
+        self.fields_orig = fields
+        self.fields_dict = {}
+        self.fields = []
+
+        # Have to make a copy of the fields since we want to generate the samples in them
+        # and the given instances of Field can be used by an independent FieldSet instance.
+        for field in self.fields_orig:
+            new_field = copy.copy(field)
+            if new_field.param_fields:
+                new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
+            self.fields_dict[new_field.name] = new_field
+            self.fields.append(new_field)
+
+    def _get_field_obj(self, field_name, regions):
+        """
+        Get fields by name, replace constants by constant fields for unification.
+        """
+        if type(field_name) in [float, int]:
+            const_field = Field("const_{}".format(field_name), field_name, regions=regions)
+            self.fields.insert(0, const_field)
+            self.fields_dict[const_field.name] = const_field
+            return const_field
+        else:
+            assert field_name in self.fields_dict, "name: {} dict: {}".format(field_name, self.fields_dict)
+            return self.fields_dict[field_name]
+
+    @property
+    def names(self):
+        return self.fields_dict.keys()
+
+    # def iterative_dfs(self, graph, start, path=[]):
+    #     q = [start]
+    #     while q:
+    #         v = q.pop(0)
+    #         if v not in path:
+    #             path = path + [v]
+    #             q = graph[v] + q
+    #
+    #     return path
+
+    def set_outer_fields(self, outer):
+        """
+        Set fields that will be in a dictionary produced by FieldSet.sample() call.
+        :param outer: A list of names of fields that are sampled.
+        :return:
+        """
+        outer_set = set(outer)
+        for f in self.fields:
+            if f.name in outer_set:
+                f.is_outer = True
+            else:
+                f.is_outer = False
+
+    def set_points(self, points, region_ids=[], region_map={}):
+        """
+        Set mesh related data to fields.
+        - set points for sample evaluation
+        - translate region names to region ids in fields
+        - create maps from region constraned point sets of fields to full point set
+        :param points: np array of points for field evaluation
+        :param regions: regions of the points;
+               empty means no points for fields restricted to regions and all points for unrestricted fields
+        :return:
+        """
+        self.n_elements = len(points)
+        assert len(points) == len(region_ids)
+        reg_points = {}
+        for i, reg_id in enumerate(region_ids):
+            reg_list = reg_points.get(reg_id, [])
+            reg_list.append(i)
+            reg_points[reg_id] = reg_list
+
+        for field in self.fields:
+            point_ids = []
+            if field.regions:
+                for reg in field.regions:
+                    reg_id = region_map[reg]
+                    point_ids.extend(reg_points.get(reg_id, []))
+                field.set_points(points[point_ids])
+                field.full_sample_ids = point_ids
+            else:
+                field.set_points(points)
+                field.full_sample_ids = np.arange(self.n_elements)
+
+    def sample(self):
+        """
+        Return dictionary of sampled fields.
+        :return: { 'field_name': sample, ...}
+        """
+        result = {}
+        for field in self.fields:
+            sample = field.sample()
+            if field.is_outer:
+                result[field.name] = np.zeros(self.n_elements)
+                result[field.name][field.full_sample_ids] = sample
+        return result
+
+
+class RandomFieldBase:
+    """
+    Base class for various methods for generating random fields.
+
+    Generating realizations of a spatially correlated random field F for a fixed set of points at X.
+    E[F(x)]       = mu(x)
+    Cov_ij = Cov[x_i,x_j]  = E[(F(x_i) - mu(x))(F(x_j) - mu(x))]
+
+    We assume stationary random field with covariance matrix Cov_ij:
+        Cov_i,j = c(x_i - x_j)
+    where c(X) is the "stationary covariance" function. We assume:
+          c(X) = sigma^2 exp( -|X^t K X|^(alpha/2) )
+    for spatially heterogeneous sigma(X) we consider particular non-stationary generalization:\
+          Cov_i,i = sigma(x_i)*sigma(x_j) exp( -|X^t K X|^(alpha/2) ); X = x_i - x_j
+
+    where:
+        - sigma(X) is the standard deviance of the single uncorrelated value
+        - K is a positive definite tensor with eigen vectors corresponding to
+          main directions and eigen values equal to (1/l_i)^2, where l_i is correlation
+          length in singel main direction.
+        - alpha is =1 for "exponential" and =2 for "Gauss" correlation
+
+    SVD decomposition:
+        Considering first m vectors, such that lam(m)/lam(0) <0.1
+
+    Example:
+    ```
+        field = SpatialCorrelatedField(corr_exp='exp', corr_length=1.5)
+        X, Y = np.mgrid[0:1:10j, 0:1:10j]
+        points = np.vstack([X.ravel(), Y.ravel()])
+        field.set_points(points)
+        sample = field.sample()
+
+    ```
+    """
+
+    def __init__(self, corr_exp='gauss', dim=2, corr_length=1.0,
+                 aniso_correlation=None, mu=0.0, sigma=1.0, log=False, **kwargs):
+        """
+        :param corr_exp: 'gauss', 'exp' or a float (should be >= 1)
+        :param dim: dimension of the domain (size of point coords)
+        :param corr_length: scalar, correlation length L > machine epsilon; tensor K = (1/L)^2
+        :param aniso_correlation: 3x3 array; K tensor, overrides correlation length
+        :param mu - mu field (currently just a constant)
+        :param sigma - sigma field (currently just a constant)
+
+        TODO:
+        - implement anisotropy in the base class using transformation matrix for the points
+        - use transformation matrix also for the corr_length
+        - replace corr_exp by aux classes for various correlation functions and pass them here
+        - more general set of correlation functions
+        """
+        self.dim = dim
+        self.log = log
+
+        if corr_exp == 'gauss':
+            self.correlation_exponent = 2.0
+        elif corr_exp == 'exp':
+            self.correlation_exponent = 1.0
+        else:
+            self.correlation_exponent = float(corr_exp)
+
+        # TODO: User should prescribe scaling for main axis and their rotation.
+        # From this we should construct the transformation matrix for the points
+        self._corr_length = corr_length
+        if aniso_correlation is None:
+            assert corr_length > np.finfo(float).eps
+            self.correlation_tensor = np.eye(dim, dim) * (1 / (corr_length ** 2))
+            self._max_corr_length = corr_length
+        else:
+            self.correlation_tensor = aniso_correlation
+            self._max_corr_length = la.norm(aniso_correlation, ord=2)  # largest eigen value
+
+        #### Attributes set through `set_points`.
+        self.points = None
+        # Evaluation points of the field.
+        self.mu = mu
+        # Mean in points. Or scalar.
+        self.sigma = sigma
+        # Standard deviance in points. Or scalar.
+
+        self._initialize(**kwargs)  # Implementation dependent initialization.
+
+    def _initialize(self, **kwargs):
+        raise NotImplementedError()
+
+    def set_points(self, points, mu=None, sigma=None):
+        """
+        :param points: N x d array. Points X_i where the field will be evaluated. d is the dimension.
+        :param mu: Scalar or N array. Mean value of uncorrelated field: E( F(X_i)).
+        :param sigma: Scalar or N array. Standard deviance of uncorrelated field: sqrt( E ( F(X_i) - mu_i )^2 )
+        :return: None
+        """
+        points = np.array(points, dtype=float)
+
+        assert len(points.shape) >= 1
+        assert points.shape[1] == self.dim
+        self.n_points, self.dimension = points.shape
+        self.points = points
+
+        if mu is not None:
+            self.mu = mu
+        self.mu = np.array(self.mu, dtype=float)
+        assert self.mu.shape == () or self.mu.shape == (len(points),)
+
+        if sigma is not None:
+            self.sigma = sigma
+        self.sigma = np.array(self.sigma, dtype=float)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+
+    def _set_points(self):
+        pass
+
+    def sample(self):
+        """
+        :param uncorelated: Random samples from standard normal distribution.
+               Removed as the spectral method do not support it.
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        # if uncorelated is None:
+        #     uncorelated = np.random.normal(0, 1, self.n_approx_terms)
+        # else:
+        #     assert uncorelated.shape == (self.n_approx_terms,)
+
+        field = self._sample()
+        field = self.sigma * field + self.mu
+
+        if not self.log:
+            return field
+        return np.exp(field)
+
+    def _sample(self, uncorrelated):
+        raise NotImplementedError()
+
+
+class SpatialCorrelatedField(RandomFieldBase):
+
+    def _initialize(self, **kwargs):
+        """
+        Called after initialization in common constructor.
+        """
+
+        ### Attributes computed in precalculation.
+        self.cov_mat = None
+        # Covariance matrix (dense).
+        self._n_approx_terms = None
+        # Length of the sample vector, number of KL (Karhunen-Loe?ve) expansion terms.
+        self._cov_l_factor = None
+        # (Reduced) L factor of the SVD decomposition of the covariance matrix.
+        self._sqrt_ev = None
+        # (Reduced) square roots of singular values.
+
+    def _set_points(self):
+        self.cov_mat = None
+        self._cov_l_factor = None
+
+    def cov_matrix(self):
+        """
+        Setup dense covariance matrix for given set of points.
+        :return: None.
+        """
+        assert self.points is not None, "Points not set, call set_points."
+
+        self._points_bbox = box = (np.min(self.points, axis=0), np.max(self.points, axis=0))
+        diameter = np.max(np.abs(box[1] - box[0]))
+        self._relative_corr_length = self._max_corr_length / diameter
+
+        # sigma_sqr_mat = np.outer(self.sigma, self.sigma.T)
+        self._sigma_sqr_max = np.max(self.sigma) ** 2
+        n_pt = len(self.points)
+        self.cov_mat = np.empty((n_pt, n_pt))
+        corr_exp = self.correlation_exponent / 2.0
+
+        for i_row in range(n_pt):
+            pt = self.points[i_row]
+            diff_row = self.points - pt
+            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)
+            self.cov_mat[i_row, :] = np.exp(-len_sqr_row ** corr_exp)
+        return self.cov_mat
+
+    def _eigen_value_estimate(self, m):
+        """
+        Estimate of the m-th eigen value of the covariance matrix.
+        According to paper: Schwab, Thodor: KL Approximation  of Random Fields by ...
+        However for small gamma the asimtotics holds just for to big values of 'm'.
+        We rather need to find a semiempricial formula.
+        greater
+        :param m:
+        :return:
+        """
+        assert self.cov_mat is not None
+        d = self.dimension
+        alpha = self.correlation_exponent
+        gamma = self._relative_corr_length
+        return self._sigma_sqr_max * (1.0 / gamma) ** (m ** (1.0 / d) + alpha) / sp.special.gamma(0.5 * m ** (1 / d))
+
+    def svd_dcmp(self, precision=0.01, n_terms_range=(1, np.inf)):
+        """
+        Does decomposition of covariance matrix defined by set of points
+        :param precision: Desired accuracy of the KL approximation, smaller eigen values are dropped.
+        :param n_terms_range: (min, max) number of terms in KL expansion to use. The number of terms estimated from
+        given precision is snapped to the given interval.
+
+        truncated SVD:
+         cov_mat = U*diag(ev) * V,
+         _cov_l_factor = U[:,0:m]*sqrt(ev[0:m])
+
+        Note on number of terms:
+        According to: C. Schwab and R. A. Todor: KL Approximation of Random Fields by Generalized Fast Multiploe Method
+        the eigen values should decay as (Proposition 2.18):
+            lambda_m ~ sigma^2 * ( 1/gamma ) **( m**(1/d) + alpha ) / Gamma(0.5 * m**(1/d) )
+        where gamma = correlation length / domain diameter
+        ans alpha is the correlation exponent. Gamma is the gamma function.
+        ... should be checked experimantaly and generalized for sigma(X)
+
+        :return:
+        """
+        if self.cov_mat is None:
+            self.cov_matrix()
+
+        if n_terms_range[0] >= self.n_points:
+            U, ev, VT = np.linalg.svd(self.cov_mat)
+            m = self.n_points
+        else:
+            range = list(n_terms_range)
+            range[0] = max(1, range[0])
+            range[1] = min(self.n_points, range[1])
+
+            prec_range = (self._eigen_value_estimate(range[0]), self._eigen_value_estimate(range[1]))
+            if precision < prec_range[0]:
+                m = range[0]
+            elif precision > prec_range[1]:
+                m = range[1]
+            else:
+                f = lambda m: self._eigen_value_estimate(m) - precision
+                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+
+            m = max(m, range[0])
+            threshold = 2 * precision
+            # TODO: Test if we should cut eigen values by relative (like now) or absolute value
+            while threshold >= precision and m <= range[1]:
+                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
+                U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
+                threshold = ev[-1] / ev[0]
+                m = int(np.ceil(1.5 * m))
+
+            m = len(ev)
+            m = min(m, range[1])
+
+        #print("KL approximation: {} for {} points.".format(m, self.n_points))
+        self.n_approx_terms = m
+        self._sqrt_ev = np.sqrt(ev[0:m])
+        self._cov_l_factor = U[:, 0:m].dot(np.diag(self._sqrt_ev))
+        self.cov_mat = None
+        return self._cov_l_factor, ev[0:m]
+
+    def _sample(self):
+        """
+        :param uncorelated: Random samples from standard normal distribution.
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        if self._cov_l_factor is None:
+            self.svd_dcmp()
+        uncorelated = np.random.normal(0, 1, self.n_approx_terms)
+        return self._cov_l_factor.dot(uncorelated)
+
+
+class GSToolsSpatialCorrelatedField(RandomFieldBase):
+
+    def __init__(self, model, mode_no=1000, log=False, sigma=1):
+        """
+        :param model: instance of covariance model class, which parent is gstools.covmodel.CovModel
+        :param mode_no: number of Fourier modes, default: 1000 as in gstools package
+        """
+        self.model = model
+        self.mode_no = mode_no
+        self.srf = gstools.SRF(model, mode_no=mode_no)
+        self.mu = self.srf.mean
+        self.sigma = sigma
+        self.dim = model.dim
+        self.log = log
+
+    def change_srf(self, seed):
+        """
+        Spatial random field with new seed
+        :param seed: int, random number generator seed
+        :return: None
+        """
+        self.srf = gstools.SRF(self.model, seed=seed, mode_no=self.mode_no)
+
+    def random_field(self):
+        """
+        Generate the spatial random field
+        :return: field, np.ndarray
+        """
+        if self.dim == 1:
+            x = self.points
+            x.reshape(len(x))
+            field = self.srf((x,))
+        elif self.dim == 2:
+            x, y = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            field = self.srf((x, y))
+        else:
+            x, y, z = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            z = z.reshape(len(z), 1)
+            field = self.srf((x, y, z))
+
+        return field
+
+    def sample(self):
+        """
+        :return: Random field evaluated in points given by 'set_points'
+        """
+        if not self.log:
+            return self.sigma * self.random_field() + self.mu
+        return np.exp(self.sigma * self.random_field() + self.mu)
+
+
+class FourierSpatialCorrelatedField(RandomFieldBase):
+    """
+    Generate spatial random fields
+    """
+
+    def _initialize(self, **kwargs):
+        """
+        Own intialization.
+        :param mode_no: Number of Fourier modes
+        """
+        warnings.warn("FourierSpatialCorrelatedField class is deprecated, try to use GSToolsSpatialCorrelatedField class instead",
+            DeprecationWarning)
+        self.len_scale = self._corr_length * 2*np.pi
+        self.mode_no = kwargs.get("mode_no", 1000)
+
+    def get_normal_distr(self):
+        """
+        Normal distributed arrays
+        :return: np.ndarray
+        """
+        Z = np.empty((2, self.mode_no))
+        rng = self._get_random_stream()
+        for i in range(2):
+            Z[i] = rng.normal(size=self.mode_no)
+
+        return Z
+
+    def _sample_sphere(self, mode_no):
+        """Uniform sampling on a d-dimensional sphere
+        Parameters
+        ----------
+            mode_no : :class:`int`, optional
+                number of the Fourier modes
+        Returns
+        -------
+            coord : :class:`numpy.ndarray`
+                x[, y[, z]] coordinates on the sphere with shape (dim, mode_no)
+        """
+        coord = self._create_empty_k(mode_no)
+        if self.dim == 1:
+            rng = self._get_random_stream()
+            ang1 = rng.random_sample(mode_no)
+            coord[0] = 2 * np.around(ang1) - 1
+        elif self.dim == 2:
+            rng = self._get_random_stream()
+            ang1 = rng.uniform(0.0, 2 * np.pi, mode_no)
+            coord[0] = np.cos(ang1)
+            coord[1] = np.sin(ang1)
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return coord
+
+    def gau(self, mode_no=1000):
+        """
+        Compute a gaussian spectrum
+        :param mode_no: int, Number of Fourier modes
+        :return: numpy.ndarray
+        """
+        len_scale = self.len_scale * np.sqrt(np.pi / 4)
+        if self.dim == 1:
+            k = self._create_empty_k(mode_no)
+            rng = self._get_random_stream()
+            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
+        elif self.dim == 2:
+            coord = self._sample_sphere(mode_no)
+            rng = self._get_random_stream()
+            rad_u = rng.random_sample(mode_no)
+            # weibull distribution sampling
+            rad = np.sqrt(np.pi) / len_scale * np.sqrt(-np.log(rad_u))
+            k = rad * coord
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return k
+
+    def exp(self, mode_no=1000):
+        """
+        Compute an exponential spectrum
+        :param mode_no: int, Number of Fourier modes
+        :return: numpy.ndarray
+        """
+        if self.dim == 1:
+            k = self._create_empty_k(mode_no)
+            rng = self._get_random_stream()
+            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k[0] = np.tan(k_u) / self.len_scale
+        elif self.dim == 2:
+            coord = self._sample_sphere(mode_no)
+            rng = self._get_random_stream()
+            rad_u = rng.random_sample(mode_no)
+            # sampling with ppf
+            rad = np.sqrt(1.0 / rad_u ** 2 - 1.0) / self.len_scale
+            k = rad * coord
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return k
+
+    def _create_empty_k(self, mode_no=None):
+        """ Create empty mode array with the correct shape.
+        Parameters
+        ----------
+            mode_no : :class:`int`
+                number of the fourier modes
+        Returns
+        -------
+            :class:`numpy.ndarray`
+                the empty mode array
+        """
+        if mode_no is None:
+            k = np.empty(self.dim)
+        else:
+            k = np.empty((self.dim, mode_no))
+
+        return k
+
+    def _get_random_stream(self, seed=None):
+        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
+
+    def random_field(self):
+        """
+        Calculates the random modes for the randomization method.
+        """
+        y, z = None, None
+        if self.dim == 1:
+            x = self.points
+            x.reshape(len(x), 1)
+        elif self.dim == 2:
+            x, y = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+        else:
+            x, y, z = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            z = z.reshape(len(z), 1)
+
+        normal_distr_values = self.get_normal_distr()
+
+        if self.correlation_exponent == 2:
+            k = self.gau(self.mode_no)
+        else:
+            k = self.exp(self.mode_no)
+
+        # reshape for unstructured grid
+        for dim_i in range(self.dim):
+            k[dim_i] = np.squeeze(k[dim_i])
+            k[dim_i] = np.reshape(k[dim_i], (1, len(k[dim_i])))
+
+        summed_modes = np.broadcast(x, y, z)
+        summed_modes = np.squeeze(np.zeros(summed_modes.shape))
+        # Test to see if enough memory is available.
+        # In case there isn't, divide Fourier modes into smaller chunks
+        chunk_no = 1
+        chunk_no_exp = 0
+
+        while True:
+            try:
+                chunk_len = int(np.ceil(self.mode_no / chunk_no))
+
+                for chunk in range(chunk_no):
+                    a = chunk * chunk_len
+                    # In case k[d,a:e] with e >= len(k[d,:]) causes errors in
+                    # numpy, use the commented min-function below
+                    # e = min((chunk + 1) * chunk_len, self.mode_no-1)
+                    e = (chunk + 1) * chunk_len
+
+                    if self.dim == 1:
+                        phase = k[0, a:e]*x
+                    elif self.dim == 2:
+                        phase = k[0, a:e]*x + k[1, a:e]*y
+                    else:
+                        phase = (k[0, a:e]*x + k[1, a:e]*y +
+                                 k[2, a:e]*z)
+
+                    summed_modes += np.squeeze(
+                        np.sum(normal_distr_values[0, a:e] * np.cos(2.*np.pi*phase) +
+                               normal_distr_values[1, a:e] * np.sin(2.*np.pi*phase),
+                               axis=-1))
+            except MemoryError:
+                chunk_no += 2**chunk_no_exp
+                chunk_no_exp += 1
+                print('Not enough memory. Dividing Fourier modes into {} '
+                      'chunks.'.format(chunk_no))
+            else:
+                break
+
+        field = np.sqrt(1.0 / self.mode_no) * summed_modes
+        return field
+
+    def _sample(self):
+        """
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        return self.random_field()
+
+        if not self.log:
+            return field
+        return np.exp(field)
-- 
2.43.0


From ec0c57a1b727963460d1a78b9d53dd10e76cc46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:51 +0000
Subject: [PATCH 15/25] fix: drop the covariance decomposition of previous
 points when new points are set

---
 mlmc/random/correlated_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 6d50be5..e538242 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -340,6 +340,7 @@ class RandomFieldBase:
             self.sigma = sigma
         self.sigma = np.array(self.sigma, dtype=float)
         assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+        self._set_points()
 
     def _set_points(self):
         pass
-- 
2.43.0


From f54a35b27594341f711d3b724d0826a4d2f9f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:51 +0000
Subject: [PATCH 16/25] fix: let fields of different regions share one random
 field

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index e538242..722fb5e 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -141,6 +141,8 @@ class Fields:
         # and the given instances of Field can be used by an independent FieldSet instance.
         for field in self.fields_orig:
             new_field = copy.copy(field)
+            # A random field shared by several fields is evaluated in points of each of them
+            new_field.correlated_field = copy.copy(field.correlated_field)
             if new_field.param_fields:
                 new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
             self.fields_dict[new_field.name] = new_field
-- 
2.43.0


From edbfdf5e86838db42d93ec1c5305436b87cc5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:45 +0000
Subject: [PATCH 17/25] fix: continue job numbering after the highest existing
 job

---
 mlmc/sampling_pool_pbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 01c4128..afaa64d 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -101,8 +101,9 @@ class SamplingPoolPBS(SamplingPool):
         if not files:
             return 0
 
-        job_id = re.findall(r'(\d+)_job.sh', files[-1])[0]
-        return int(job_id) + 1
+        # The order of files returned by glob is arbitrary
+        job_ids = [int(re.findall(r'(\d+)_job.sh', file)[0]) for file in files]
+        return max(job_ids) + 1
 
     def _save_structure(self):
         """
-- 
2.43.0


From c274b8cf1a407a4228d44b34b89ecc1110ad05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:45 +0000
Subject: [PATCH 18/25] fix: do not skip jobs when finished ones are removed
 from the list of running jobs

---
 mlmc/sampling_pool_pbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index afaa64d..aff1897 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -307,7 +307,7 @@ class SamplingPoolPBS(SamplingPool):
 
         # Get unfinished as diff between planned and finished
         unfinished_pbs_jobs = []
-        for pbs_id in self._pbs_ids:
+        for pbs_id in list(self._pbs_ids):
             if pbs_id not in finished_pbs_jobs:
                 unfinished_pbs_jobs.append(pbs_id)
             else:
-- 
2.43.0


From 9fa2eeb2f74db4a4affe0146753591e34effda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:45 +0000
Subject: [PATCH 19/25] fix: collect also failed samples and times of jobs that
 ended while the main process was down

---
 mlmc/sampling_pool_pbs.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index aff1897..fe16e71 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -399,17 +399,18 @@ class SamplingPoolPBS(SamplingPool):
                         already_collected.add(res[0])
                         successful_results.setdefault(level_id, []).append(res)
 
-            for level_id, results in failed_results.items():
+            for level_id, results in failed.items():
                 for res in results:
                     if res[0] in self._unfinished_sample_ids:
                         already_collected.add(res[0])
                         failed_results.setdefault(level_id, []).append(res)
 
-            for level_id, results in times.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        times.setdefault(level_id, []).append(res)
-                times[level_id] = results
+            for level_id, results in time.items():
+                if level_id in times:
+                    times[level_id][0] += results[-1][0]
+                    times[level_id][1] += results[-1][1]
+                else:
+                    times[level_id] = list(results[-1])
 
             # Delete pbsID file - it means job is finished
             # SamplingPoolPBS.delete_pbs_id_file(file)
-- 
2.43.0


From 764b77de4f0b66acd9c50690f5d00313f5287099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:36 +0000
Subject: [PATCH 20/25] fix: report run time of each sample to the storage only
 once

---
 mlmc/sampling_pool.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index b408b78..2aa2f27 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -215,6 +215,8 @@ class OneProcessPool(SamplingPool):
         self._queues = {}
         self._n_running = 0
         self.times = {}
+        # Total times and numbers of samples which have been already returned by get_finished()
+        self._reported_times = {}
 
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
@@ -276,7 +278,20 @@ class OneProcessPool(SamplingPool):
         successful = self._queues_to_list(list(self._queues.items()))
         failed = self._queues_to_list(list(self._failed_queues.items()))
 
-        return successful, failed, self._n_running, list(self.times.items())
+        return successful, failed, self._n_running, self._new_times()
+
+    def _new_times(self):
+        """
+        Times and numbers of samples measured since the previous call, storage accumulates them
+        :return: List[Tuple[level_id, List[time, number of samples]]]
+        """
+        new_times = []
+        for level_id, level_times in list(self.times.items()):
+            time, n_samples = level_times
+            reported_time, reported_n = self._reported_times.get(level_id, (0, 0))
+            new_times.append((level_id, [time - reported_time, n_samples - reported_n]))
+            self._reported_times[level_id] = (time, n_samples)
+        return new_times
 
     def _queues_to_list(self, queue_dict_list):
         results = {}
-- 
2.43.0


From a0b6905a4dd490400a7f401b04c4ac16453a234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:36 +0000
Subject: [PATCH 21/25] fix: cost per sample in memory storage is total time
 over total number of samples

---
 mlmc/sample_storage.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 31119b5..106fb7f 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -293,19 +293,22 @@ class Memory(SampleStorage):
         """
         for level, (time, n_samples) in n_ops:
             if level not in self._n_ops:
-                self._n_ops[level] = 0
+                self._n_ops[level] = [0, 0]
 
             if n_samples != 0:
-                self._n_ops[level] += time/n_samples
+                self._n_ops[level][0] += time
+                self._n_ops[level][1] += n_samples
 
     def get_n_ops(self):
         """
         Get number of operations on each level
         :return: List[float]
         """
-        n_ops = list(np.empty(len(np.max(self._n_ops.keys()))))
-        for level, time in self._n_ops.items():
-            n_ops[level] = time
+        n_levels = 0 if self._level_parameters is None else len(self._level_parameters)
+        n_ops = list(np.zeros(max([n_levels] + [level + 1 for level in self._n_ops])))
+        for level, (time, n_samples) in self._n_ops.items():
+            if n_samples > 0:
+                n_ops[level] = time / n_samples
         return n_ops
 
     def unfinished_ids(self):
-- 
2.43.0


From 7ed015a8a27e50f8e7758e5af9e0860afb239fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:37 +0000
Subject: [PATCH 22/25] fix: report zero cost of levels without measured
 samples

---
 mlmc/sample_storage_hdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 7e5fbef..a5224ca 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -243,8 +243,9 @@ class SampleStorageHDF(SampleStorage):
         """
         n_ops = list(np.zeros(len(self._level_groups)))
         for level in self._level_groups:
-            if level.n_ops_estimate[1] > 0:
-                n_ops[int(level.level_id)] = level.n_ops_estimate[0] / level.n_ops_estimate[1]
+            n_ops_estimate = level.n_ops_estimate
+            if n_ops_estimate is not None and n_ops_estimate[1] > 0:
+                n_ops[int(level.level_id)] = n_ops_estimate[0] / n_ops_estimate[1]
             else:
                 n_ops[int(level.level_id)] = 0
         return n_ops
-- 
2.43.0


From 72e2fe1acf63db4b1aa0923f6f9710077e5e657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:58 +0000
Subject: [PATCH 23/25] fix: report zero collected samples in memory storage on
 levels without any

---
 mlmc/sample_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 106fb7f..42555a1 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -326,7 +326,8 @@ class Memory(SampleStorage):
         Number of collected samples at each level
         :return: List
         """
-        n_collected = list(np.zeros(len(self._results)))
+        n_levels = 0 if self._level_parameters is None else len(self._level_parameters)
+        n_collected = list(np.zeros(max([n_levels] + [int(level_id) + 1 for level_id in self.get_level_ids()])))
         for level_id in self.get_level_ids():
             n_collected[int(level_id)] = len(self._results[int(level_id)])
         return n_collected
-- 
2.43.0


From 67a3f771f3b204e27cec246fa70f2d5fa8d6c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:58 +0000
Subject: [PATCH 24/25] fix: report zero collected samples in HDF5 storage on
 levels without any

---
 mlmc/tool/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f4bf0c8..ededad2 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -384,7 +384,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'r') as hdf_file:
             if 'collected_values' not in hdf_file[self.level_group_path]:
-                return AttributeError("collected_values dataset not in HDF file for level {}".format(self.level_id))
+                return 0
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
             collected_n_items = len(dataset[()])
         return collected_n_items
-- 
2.43.0


From 6c0ed56fd4109bc21818fda44841b84a01538504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:05 +0000
Subject: [PATCH 25/25] fix: restore the line endings of correlated_field.py

7a2582e converted them; now only the repaired lines differ.
---
 mlmc/random/correlated_field.py | 1516 +++++++++++++++----------------
 1 file changed, 758 insertions(+), 758 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 722fb5e..09241c5 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -1,758 +1,758 @@
-import copy
-import numpy as np
-import numpy.linalg as la
-import numpy.random as rand
-import scipy as sp
-from sklearn.utils.extmath import randomized_svd
-import warnings
-warnings.simplefilter('always', DeprecationWarning)
-import gstools
-
-
-def kozeny_carman(porosity, m, factor, viscosity):
-    """
-    Kozeny-Carman law. Empirical relationship between porosity and conductivity.
-    :param porosity: Porosity value.
-    :param m: Power. Suitable values are 1 < m < 4
-    :param factor: [m^2]
-        E.g. 1e-7 ,   m = 3.48;  juta fibers
-             2.2e-8 ,     1.46;  glass fibers
-             1.8e-13,     2.89;  erruptive material
-             1e-12        2.76;  erruptive material
-             1.8e-12      1.99;  basalt
-    :param viscosity: [Pa . s], water: 8.90e-4
-    :return:
-    """
-    assert np.all(viscosity > 1e-10)
-    porosity = np.minimum(porosity, 1-1e-10)
-    porosity = np.maximum(porosity, 1e-10)
-    cond = factor * porosity ** (2 + m) / (1 - porosity) ** 2 / viscosity
-    cond = np.maximum(cond, 1e-15)
-    return cond
-
-
-def positive_to_range(exp, a, b):
-    """
-    Mapping a positive parameter 'exp' from the interval <0, \infty) to the interval <a,b).
-    Suitable e.g. to generate meaningful porosity from a variable with lognormal distribution.
-    :param exp: A positive parameter. (LogNormal distribution.)
-    :param a, b: Range interval.
-    """
-    return b * (1 - (b - a) / (b + (b - a) * exp))
-
-
-class Field:
-    def __init__(self, name, field=None, param_fields=[], regions=[]):
-        """
-        :param name: Name of the field.
-        :param field: scalar (const field), or instance of SpatialCorrelatedField, or a callable
-               for evaluation of the field from its param_fields.
-        :param regions: Domain where field is sampled.
-        :param param_fields: List of names of parameter fields, dependees.
-        TODO: consider three different derived classes for: const, random and func fields.
-        """
-        self.correlated_field = None
-        self.const = None
-        self._func = field
-        self.is_outer = True
-
-        if type(regions) is str:
-            regions = [regions]
-        self.name = name
-        if type(field) in [float, int]:
-            self.const = field
-            assert len(param_fields) == 0
-        elif isinstance(field, RandomFieldBase):
-            self.correlated_field = field
-            assert len(param_fields) == 0
-        else:
-            assert len(param_fields) > 0, field
-
-            # check callable
-            try:
-                params = [np.ones(2) for i in range(len(param_fields))]
-                field(*params)
-            except:
-                raise Exception("Invalid field function for field: {}".format(name))
-            self._func = field
-
-        self.regions = regions
-        self.param_fields = param_fields
-
-    def set_points(self, points):
-        """
-        Internal method to set evaluation points. See Fields.set_points.
-        """
-        if self.const is not None:
-            self._sample = self.const * np.ones(len(points))
-        elif self.correlated_field is not None:
-            self.correlated_field.set_points(points)
-            if type(self.correlated_field) is  SpatialCorrelatedField:
-                # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
-                self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
-        else:
-            pass
-
-    def sample(self):
-        """
-        Internal method to generate/compute new sample.
-        :return:
-        """
-        if self.const is not None:
-            return self._sample
-        elif self.correlated_field is not None:
-            self._sample = self.correlated_field.sample()
-        else:
-            params = [ pf._sample for pf in self.param_fields]
-            self._sample = self._func(*params)
-        return self._sample
-
-
-class Fields:
-
-    def __init__(self, fields):
-        """
-        Creates a new set of cross dependent random fields.
-        Currently no support for cross-correlated random fields.
-        A set of independent basic random fields must exist
-        other fields can be dependent in deterministic way.
-
-        :param fields: A list of dependent fields.
-
-        Example:
-        rf = SpatialCorrelatedField(log=True)
-        Fields([
-            Field('por_top', rf, regions='ground_0'),
-            Field('porosity_top', positive_to_range, ['por_top', 0.02, 0.1], regions='ground_0'),
-            Field('por_bot', rf, regions='ground_1'),
-            Field('porosity_bot', positive_to_range, ['por_bot', 0.01, 0.05], regions='ground_1'),
-            Field('conductivity_top', cf.kozeny_carman, ['porosity_top', 1, 1e-8, water_viscosity], regions='ground_0'),
-            Field('conductivity_bot', cf.kozeny_carman, ['porosity_bot', 1, 1e-10, water_viscosity],regions='ground_1')
-            ])
-
-        TODO: use topological sort to fix order of 'fields'
-        TODO: syntactic sugar for calculating with fields (like with np.arrays).
-        """
-        self.fields_orig = fields
-        self.fields_dict = {}
-        self.fields = []
-
-        # Have to make a copy of the fields since we want to generate the samples in them
-        # and the given instances of Field can be used by an independent FieldSet instance.
-        for field in self.fields_orig:
-            new_field = copy.copy(field)
-            # A random field shared by several fields is evaluated in points of each of them
-            new_field.correlated_field = copy.copy(field.correlated_field)
-            if new_field.param_fields:
-                new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
-            self.fields_dict[new_field.name] = new_field
-            self.fields.append(new_field)
-
-    def _get_field_obj(self, field_name, regions):
-        """
-        Get fields by name, replace constants by constant fields for unification.
-        """
-        if type(field_name) in [float, int]:
-            const_field = Field("const_{}".format(field_name), field_name, regions=regions)
-            self.fields.insert(0, const_field)
-            self.fields_dict[const_field.name] = const_field
-            return const_field
-        else:
-            assert field_name in self.fields_dict, "name: {} dict: {}".format(field_name, self.fields_dict)
-            return self.fields_dict[field_name]
-
-    @property
-    def names(self):
-        return self.fields_dict.keys()
-
-    # def iterative_dfs(self, graph, start, path=[]):
-    #     q = [start]
-    #     while q:
-    #         v = q.pop(0)
-    #         if v not in path:
-    #             path = path + [v]
-    #             q = graph[v] + q
-    #
-    #     return path
-
-    def set_outer_fields(self, outer):
-        """
-        Set fields that will be in a dictionary produced by FieldSet.sample() call.
-        :param outer: A list of names of fields that are sampled.
-        :return:
-        """
-        outer_set = set(outer)
-        for f in self.fields:
-            if f.name in outer_set:
-                f.is_outer = True
-            else:
-                f.is_outer = False
-
-    def set_points(self, points, region_ids=[], region_map={}):
-        """
-        Set mesh related data to fields.
-        - set points for sample evaluation
-        - translate region names to region ids in fields
-        - create maps from region constraned point sets of fields to full point set
-        :param points: np array of points for field evaluation
-        :param regions: regions of the points;
-               empty means no points for fields restricted to regions and all points for unrestricted fields
-        :return:
-        """
-        self.n_elements = len(points)
-        assert len(points) == len(region_ids)
-        reg_points = {}
-        for i, reg_id in enumerate(region_ids):
-            reg_list = reg_points.get(reg_id, [])
-            reg_list.append(i)
-            reg_points[reg_id] = reg_list
-
-        for field in self.fields:
-            point_ids = []
-            if field.regions:
-                for reg in field.regions:
-                    reg_id = region_map[reg]
-                    point_ids.extend(reg_points.get(reg_id, []))
-                field.set_points(points[point_ids])
-                field.full_sample_ids = point_ids
-            else:
-                field.set_points(points)
-                field.full_sample_ids = np.arange(self.n_elements)
-
-    def sample(self):
-        """
-        Return dictionary of sampled fields.
-        :return: { 'field_name': sample, ...}
-        """
-        result = {}
-        for field in self.fields:
-            sample = field.sample()
-            if field.is_outer:
-                result[field.name] = np.zeros(self.n_elements)
-                result[field.name][field.full_sample_ids] = sample
-        return result
-
-
-class RandomFieldBase:
-    """
-    Base class for various methods for generating random fields.
-
-    Generating realizations of a spatially correlated random field F for a fixed set of points at X.
-    E[F(x)]       = mu(x)
-    Cov_ij = Cov[x_i,x_j]  = E[(F(x_i) - mu(x))(F(x_j) - mu(x))]
-
-    We assume stationary random field with covariance matrix Cov_ij:
-        Cov_i,j = c(x_i - x_j)
-    where c(X) is the "stationary covariance" function. We assume:
-          c(X) = sigma^2 exp( -|X^t K X|^(alpha/2) )
-    for spatially heterogeneous sigma(X) we consider particular non-stationary generalization:\
-          Cov_i,i = sigma(x_i)*sigma(x_j) exp( -|X^t K X|^(alpha/2) ); X = x_i - x_j
-
-    where:
-        - sigma(X) is the standard deviance of the single uncorrelated value
-        - K is a positive definite tensor with eigen vectors corresponding to
-          main directions and eigen values equal to (1/l_i)^2, where l_i is correlation
-          length in singel main direction.
-        - alpha is =1 for "exponential" and =2 for "Gauss" correlation
-
-    SVD decomposition:
-        Considering first m vectors, such that lam(m)/lam(0) <0.1
-
-    Example:
-    ```
-        field = SpatialCorrelatedField(corr_exp='exp', corr_length=1.5)
-        X, Y = np.mgrid[0:1:10j, 0:1:10j]
-        points = np.vstack([X.ravel(), Y.ravel()])
-        field.set_points(points)
-        sample = field.sample()
-
-    ```
-    """
-
-    def __init__(self, corr_exp='gauss', dim=2, corr_length=1.0,
-                 aniso_correlation=None, mu=0.0, sigma=1.0, log=False, **kwargs):
-        """
-        :param corr_exp: 'gauss', 'exp' or a float (should be >= 1)
-        :param dim: dimension of the domain (size of point coords)
-        :param corr_length: scalar, correlation length L > machine epsilon; tensor K = (1/L)^2
-        :param aniso_correlation: 3x3 array; K tensor, overrides correlation length
-        :param mu - mu field (currently just a constant)
-        :param sigma - sigma field (currently just a constant)
-
-        TODO:
-        - implement anisotropy in the base class using transformation matrix for the points
-        - use transformation matrix also for the corr_length
-        - replace corr_exp by aux classes for various correlation functions and pass them here
-        - more general set of correlation functions
-        """
-        self.dim = dim
-        self.log = log
-
-        if corr_exp == 'gauss':
-            self.correlation_exponent = 2.0
-        elif corr_exp == 'exp':
-            self.correlation_exponent = 1.0
-        else:
-            self.correlation_exponent = float(corr_exp)
-
-        # TODO: User should prescribe scaling for main axis and their rotation.
-        # From this we should construct the transformation matrix for the points
-        self._corr_length = corr_length
-        if aniso_correlation is None:
-            assert corr_length > np.finfo(float).eps
-            self.correlation_tensor = np.eye(dim, dim) * (1 / (corr_length ** 2))
-            self._max_corr_length = corr_length
-        else:
-            self.correlation_tensor = aniso_correlation
-            self._max_corr_length = la.norm(aniso_correlation, ord=2)  # largest eigen value
-
-        #### Attributes set through `set_points`.
-        self.points = None
-        # Evaluation points of the field.
-        self.mu = mu
-        # Mean in points. Or scalar.
-        self.sigma = sigma
-        # Standard deviance in points. Or scalar.
-
-        self._initialize(**kwargs)  # Implementation dependent initialization.
-
-    def _initialize(self, **kwargs):
-        raise NotImplementedError()
-
-    def set_points(self, points, mu=None, sigma=None):
-        """
-        :param points: N x d array. Points X_i where the field will be evaluated. d is the dimension.
-        :param mu: Scalar or N array. Mean value of uncorrelated field: E( F(X_i)).
-        :param sigma: Scalar or N array. Standard deviance of uncorrelated field: sqrt( E ( F(X_i) - mu_i )^2 )
-        :return: None
-        """
-        points = np.array(points, dtype=float)
-
-        assert len(points.shape) >= 1
-        assert points.shape[1] == self.dim
-        self.n_points, self.dimension = points.shape
-        self.points = points
-
-        if mu is not None:
-            self.mu = mu
-        self.mu = np.array(self.mu, dtype=float)
-        assert self.mu.shape == () or self.mu.shape == (len(points),)
-
-        if sigma is not None:
-            self.sigma = sigma
-        self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
-        self._set_points()
-
-    def _set_points(self):
-        pass
-
-    def sample(self):
-        """
-        :param uncorelated: Random samples from standard normal distribution.
-               Removed as the spectral method do not support it.
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        # if uncorelated is None:
-        #     uncorelated = np.random.normal(0, 1, self.n_approx_terms)
-        # else:
-        #     assert uncorelated.shape == (self.n_approx_terms,)
-
-        field = self._sample()
-        field = self.sigma * field + self.mu
-
-        if not self.log:
-            return field
-        return np.exp(field)
-
-    def _sample(self, uncorrelated):
-        raise NotImplementedError()
-
-
-class SpatialCorrelatedField(RandomFieldBase):
-
-    def _initialize(self, **kwargs):
-        """
-        Called after initialization in common constructor.
-        """
-
-        ### Attributes computed in precalculation.
-        self.cov_mat = None
-        # Covariance matrix (dense).
-        self._n_approx_terms = None
-        # Length of the sample vector, number of KL (Karhunen-Loe?ve) expansion terms.
-        self._cov_l_factor = None
-        # (Reduced) L factor of the SVD decomposition of the covariance matrix.
-        self._sqrt_ev = None
-        # (Reduced) square roots of singular values.
-
-    def _set_points(self):
-        self.cov_mat = None
-        self._cov_l_factor = None
-
-    def cov_matrix(self):
-        """
-        Setup dense covariance matrix for given set of points.
-        :return: None.
-        """
-        assert self.points is not None, "Points not set, call set_points."
-
-        self._points_bbox = box = (np.min(self.points, axis=0), np.max(self.points, axis=0))
-        diameter = np.max(np.abs(box[1] - box[0]))
-        self._relative_corr_length = self._max_corr_length / diameter
-
-        # sigma_sqr_mat = np.outer(self.sigma, self.sigma.T)
-        self._sigma_sqr_max = np.max(self.sigma) ** 2
-        n_pt = len(self.points)
-        self.cov_mat = np.empty((n_pt, n_pt))
-        corr_exp = self.correlation_exponent / 2.0
-
-        for i_row in range(n_pt):
-            pt = self.points[i_row]
-            diff_row = self.points - pt
-            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)
-            self.cov_mat[i_row, :] = np.exp(-len_sqr_row ** corr_exp)
-        return self.cov_mat
-
-    def _eigen_value_estimate(self, m):
-        """
-        Estimate of the m-th eigen value of the covariance matrix.
-        According to paper: Schwab, Thodor: KL Approximation  of Random Fields by ...
-        However for small gamma the asimtotics holds just for to big values of 'm'.
-        We rather need to find a semiempricial formula.
-        greater
-        :param m:
-        :return:
-        """
-        assert self.cov_mat is not None
-        d = self.dimension
-        alpha = self.correlation_exponent
-        gamma = self._relative_corr_length
-        return self._sigma_sqr_max * (1.0 / gamma) ** (m ** (1.0 / d) + alpha) / sp.special.gamma(0.5 * m ** (1 / d))
-
-    def svd_dcmp(self, precision=0.01, n_terms_range=(1, np.inf)):
-        """
-        Does decomposition of covariance matrix defined by set of points
-        :param precision: Desired accuracy of the KL approximation, smaller eigen values are dropped.
-        :param n_terms_range: (min, max) number of terms in KL expansion to use. The number of terms estimated from
-        given precision is snapped to the given interval.
-
-        truncated SVD:
-         cov_mat = U*diag(ev) * V,
-         _cov_l_factor = U[:,0:m]*sqrt(ev[0:m])
-
-        Note on number of terms:
-        According to: C. Schwab and R. A. Todor: KL Approximation of Random Fields by Generalized Fast Multiploe Method
-        the eigen values should decay as (Proposition 2.18):
-            lambda_m ~ sigma^2 * ( 1/gamma ) **( m**(1/d) + alpha ) / Gamma(0.5 * m**(1/d) )
-        where gamma = correlation length / domain diameter
-        ans alpha is the correlation exponent. Gamma is the gamma function.
-        ... should be checked experimantaly and generalized for sigma(X)
-
-        :return:
-        """
-        if self.cov_mat is None:
-            self.cov_matrix()
-
-        if n_terms_range[0] >= self.n_points:
-            U, ev, VT = np.linalg.svd(self.cov_mat)
-            m = self.n_points
-        else:
-            range = list(n_terms_range)
-            range[0] = max(1, range[0])
-            range[1] = min(self.n_points, range[1])
-
-            prec_range = (self._eigen_value_estimate(range[0]), self._eigen_value_estimate(range[1]))
-            if precision < prec_range[0]:
-                m = range[0]
-            elif precision > prec_range[1]:
-                m = range[1]
-            else:
-                f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
-
-            m = max(m, range[0])
-            threshold = 2 * precision
-            # TODO: Test if we should cut eigen values by relative (like now) or absolute value
-            while threshold >= precision and m <= range[1]:
-                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
-                U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
-                threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
-
-            m = len(ev)
-            m = min(m, range[1])
-
-        #print("KL approximation: {} for {} points.".format(m, self.n_points))
-        self.n_approx_terms = m
-        self._sqrt_ev = np.sqrt(ev[0:m])
-        self._cov_l_factor = U[:, 0:m].dot(np.diag(self._sqrt_ev))
-        self.cov_mat = None
-        return self._cov_l_factor, ev[0:m]
-
-    def _sample(self):
-        """
-        :param uncorelated: Random samples from standard normal distribution.
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        if self._cov_l_factor is None:
-            self.svd_dcmp()
-        uncorelated = np.random.normal(0, 1, self.n_approx_terms)
-        return self._cov_l_factor.dot(uncorelated)
-
-
-class GSToolsSpatialCorrelatedField(RandomFieldBase):
-
-    def __init__(self, model, mode_no=1000, log=False, sigma=1):
-        """
-        :param model: instance of covariance model class, which parent is gstools.covmodel.CovModel
-        :param mode_no: number of Fourier modes, default: 1000 as in gstools package
-        """
-        self.model = model
-        self.mode_no = mode_no
-        self.srf = gstools.SRF(model, mode_no=mode_no)
-        self.mu = self.srf.mean
-        self.sigma = sigma
-        self.dim = model.dim
-        self.log = log
-
-    def change_srf(self, seed):
-        """
-        Spatial random field with new seed
-        :param seed: int, random number generator seed
-        :return: None
-        """
-        self.srf = gstools.SRF(self.model, seed=seed, mode_no=self.mode_no)
-
-    def random_field(self):
-        """
-        Generate the spatial random field
-        :return: field, np.ndarray
-        """
-        if self.dim == 1:
-            x = self.points
-            x.reshape(len(x))
-            field = self.srf((x,))
-        elif self.dim == 2:
-            x, y = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            field = self.srf((x, y))
-        else:
-            x, y, z = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            z = z.reshape(len(z), 1)
-            field = self.srf((x, y, z))
-
-        return field
-
-    def sample(self):
-        """
-        :return: Random field evaluated in points given by 'set_points'
-        """
-        if not self.log:
-            return self.sigma * self.random_field() + self.mu
-        return np.exp(self.sigma * self.random_field() + self.mu)
-
-
-class FourierSpatialCorrelatedField(RandomFieldBase):
-    """
-    Generate spatial random fields
-    """
-
-    def _initialize(self, **kwargs):
-        """
-        Own intialization.
-        :param mode_no: Number of Fourier modes
-        """
-        warnings.warn("FourierSpatialCorrelatedField class is deprecated, try to use GSToolsSpatialCorrelatedField class instead",
-            DeprecationWarning)
-        self.len_scale = self._corr_length * 2*np.pi
-        self.mode_no = kwargs.get("mode_no", 1000)
-
-    def get_normal_distr(self):
-        """
-        Normal distributed arrays
-        :return: np.ndarray
-        """
-        Z = np.empty((2, self.mode_no))
-        rng = self._get_random_stream()
-        for i in range(2):
-            Z[i] = rng.normal(size=self.mode_no)
-
-        return Z
-
-    def _sample_sphere(self, mode_no):
-        """Uniform sampling on a d-dimensional sphere
-        Parameters
-        ----------
-            mode_no : :class:`int`, optional
-                number of the Fourier modes
-        Returns
-        -------
-            coord : :class:`numpy.ndarray`
-                x[, y[, z]] coordinates on the sphere with shape (dim, mode_no)
-        """
-        coord = self._create_empty_k(mode_no)
-        if self.dim == 1:
-            rng = self._get_random_stream()
-            ang1 = rng.random_sample(mode_no)
-            coord[0] = 2 * np.around(ang1) - 1
-        elif self.dim == 2:
-            rng = self._get_random_stream()
-            ang1 = rng.uniform(0.0, 2 * np.pi, mode_no)
-            coord[0] = np.cos(ang1)
-            coord[1] = np.sin(ang1)
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return coord
-
-    def gau(self, mode_no=1000):
-        """
-        Compute a gaussian spectrum
-        :param mode_no: int, Number of Fourier modes
-        :return: numpy.ndarray
-        """
-        len_scale = self.len_scale * np.sqrt(np.pi / 4)
-        if self.dim == 1:
-            k = self._create_empty_k(mode_no)
-            rng = self._get_random_stream()
-            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
-        elif self.dim == 2:
-            coord = self._sample_sphere(mode_no)
-            rng = self._get_random_stream()
-            rad_u = rng.random_sample(mode_no)
-            # weibull distribution sampling
-            rad = np.sqrt(np.pi) / len_scale * np.sqrt(-np.log(rad_u))
-            k = rad * coord
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return k
-
-    def exp(self, mode_no=1000):
-        """
-        Compute an exponential spectrum
-        :param mode_no: int, Number of Fourier modes
-        :return: numpy.ndarray
-        """
-        if self.dim == 1:
-            k = self._create_empty_k(mode_no)
-            rng = self._get_random_stream()
-            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
-            k[0] = np.tan(k_u) / self.len_scale
-        elif self.dim == 2:
-            coord = self._sample_sphere(mode_no)
-            rng = self._get_random_stream()
-            rad_u = rng.random_sample(mode_no)
-            # sampling with ppf
-            rad = np.sqrt(1.0 / rad_u ** 2 - 1.0) / self.len_scale
-            k = rad * coord
-        elif self.dim == 3:
-            raise NotImplementedError("For implementation see "
-                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
-        return k
-
-    def _create_empty_k(self, mode_no=None):
-        """ Create empty mode array with the correct shape.
-        Parameters
-        ----------
-            mode_no : :class:`int`
-                number of the fourier modes
-        Returns
-        -------
-            :class:`numpy.ndarray`
-                the empty mode array
-        """
-        if mode_no is None:
-            k = np.empty(self.dim)
-        else:
-            k = np.empty((self.dim, mode_no))
-
-        return k
-
-    def _get_random_stream(self, seed=None):
-        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
-
-    def random_field(self):
-        """
-        Calculates the random modes for the randomization method.
-        """
-        y, z = None, None
-        if self.dim == 1:
-            x = self.points
-            x.reshape(len(x), 1)
-        elif self.dim == 2:
-            x, y = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-        else:
-            x, y, z = self.points.T
-            x = x.reshape(len(x), 1)
-            y = y.reshape(len(y), 1)
-            z = z.reshape(len(z), 1)
-
-        normal_distr_values = self.get_normal_distr()
-
-        if self.correlation_exponent == 2:
-            k = self.gau(self.mode_no)
-        else:
-            k = self.exp(self.mode_no)
-
-        # reshape for unstructured grid
-        for dim_i in range(self.dim):
-            k[dim_i] = np.squeeze(k[dim_i])
-            k[dim_i] = np.reshape(k[dim_i], (1, len(k[dim_i])))
-
-        summed_modes = np.broadcast(x, y, z)
-        summed_modes = np.squeeze(np.zeros(summed_modes.shape))
-        # Test to see if enough memory is available.
-        # In case there isn't, divide Fourier modes into smaller chunks
-        chunk_no = 1
-        chunk_no_exp = 0
-
-        while True:
-            try:
-                chunk_len = int(np.ceil(self.mode_no / chunk_no))
-
-                for chunk in range(chunk_no):
-                    a = chunk * chunk_len
-                    # In case k[d,a:e] with e >= len(k[d,:]) causes errors in
-                    # numpy, use the commented min-function below
-                    # e = min((chunk + 1) * chunk_len, self.mode_no-1)
-                    e = (chunk + 1) * chunk_len
-
-                    if self.dim == 1:
-                        phase = k[0, a:e]*x
-                    elif self.dim == 2:
-                        phase = k[0, a:e]*x + k[1, a:e]*y
-                    else:
-                        phase = (k[0, a:e]*x + k[1, a:e]*y +
-                                 k[2, a:e]*z)
-
-                    summed_modes += np.squeeze(
-                        np.sum(normal_distr_values[0, a:e] * np.cos(2.*np.pi*phase) +
-                               normal_distr_values[1, a:e] * np.sin(2.*np.pi*phase),
-                               axis=-1))
-            except MemoryError:
-                chunk_no += 2**chunk_no_exp
-                chunk_no_exp += 1
-                print('Not enough memory. Dividing Fourier modes into {} '
-                      'chunks.'.format(chunk_no))
-            else:
-                break
-
-        field = np.sqrt(1.0 / self.mode_no) * summed_modes
-        return field
-
-    def _sample(self):
-        """
-        :return: Random field evaluated in points given by 'set_points'.
-        """
-        return self.random_field()
-
-        if not self.log:
-            return field
-        return np.exp(field)
+import copy
+import numpy as np
+import numpy.linalg as la
+import numpy.random as rand
+import scipy as sp
+from sklearn.utils.extmath import randomized_svd
+import warnings
+warnings.simplefilter('always', DeprecationWarning)
+import gstools
+
+
+def kozeny_carman(porosity, m, factor, viscosity):
+    """
+    Kozeny-Carman law. Empirical relationship between porosity and conductivity.
+    :param porosity: Porosity value.
+    :param m: Power. Suitable values are 1 < m < 4
+    :param factor: [m^2]
+        E.g. 1e-7 ,   m = 3.48;  juta fibers
+             2.2e-8 ,     1.46;  glass fibers
+             1.8e-13,     2.89;  erruptive material
+             1e-12        2.76;  erruptive material
+             1.8e-12      1.99;  basalt
+    :param viscosity: [Pa . s], water: 8.90e-4
+    :return:
+    """
+    assert np.all(viscosity > 1e-10)
+    porosity = np.minimum(porosity, 1-1e-10)
+    porosity = np.maximum(porosity, 1e-10)
+    cond = factor * porosity ** (2 + m) / (1 - porosity) ** 2 / viscosity
+    cond = np.maximum(cond, 1e-15)
+    return cond
+
+
+def positive_to_range(exp, a, b):
+    """
+    Mapping a positive parameter 'exp' from the interval <0, \infty) to the interval <a,b).
+    Suitable e.g. to generate meaningful porosity from a variable with lognormal distribution.
+    :param exp: A positive parameter. (LogNormal distribution.)
+    :param a, b: Range interval.
+    """
+    return b * (1 - (b - a) / (b + (b - a) * exp))
+
+
+class Field:
+    def __init__(self, name, field=None, param_fields=[], regions=[]):
+        """
+        :param name: Name of the field.
+        :param field: scalar (const field), or instance of SpatialCorrelatedField, or a callable
+               for evaluation of the field from its param_fields.
+        :param regions: Domain where field is sampled.
+        :param param_fields: List of names of parameter fields, dependees.
+        TODO: consider three different derived classes for: const, random and func fields.
+        """
+        self.correlated_field = None
+        self.const = None
+        self._func = field
+        self.is_outer = True
+
+        if type(regions) is str:
+            regions = [regions]
+        self.name = name
+        if type(field) in [float, int]:
+            self.const = field
+            assert len(param_fields) == 0
+        elif isinstance(field, RandomFieldBase):
+            self.correlated_field = field
+            assert len(param_fields) == 0
+        else:
+            assert len(param_fields) > 0, field
+
+            # check callable
+            try:
+                params = [np.ones(2) for i in range(len(param_fields))]
+                field(*params)
+            except:
+                raise Exception("Invalid field function for field: {}".format(name))
+            self._func = field
+
+        self.regions = regions
+        self.param_fields = param_fields
+
+    def set_points(self, points):
+        """
+        Internal method to set evaluation points. See Fields.set_points.
+        """
+        if self.const is not None:
+            self._sample = self.const * np.ones(len(points))
+        elif self.correlated_field is not None:
+            self.correlated_field.set_points(points)
+            if type(self.correlated_field) is  SpatialCorrelatedField:
+                # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
+                self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
+        else:
+            pass
+
+    def sample(self):
+        """
+        Internal method to generate/compute new sample.
+        :return:
+        """
+        if self.const is not None:
+            return self._sample
+        elif self.correlated_field is not None:
+            self._sample = self.correlated_field.sample()
+        else:
+            params = [ pf._sample for pf in self.param_fields]
+            self._sample = self._func(*params)
+        return self._sample
+
+
+class Fields:
+
+    def __init__(self, fields):
+        """
+        Creates a new set of cross dependent random fields.
+        Currently no support for cross-correlated random fields.
+        A set of independent basic random fields must exist
+        other fields can be dependent in deterministic way.
+
+        :param fields: A list of dependent fields.
+
+        Example:
+        rf = SpatialCorrelatedField(log=True)
+        Fields([
+            Field('por_top', rf, regions='ground_0'),
+            Field('porosity_top', positive_to_range, ['por_top', 0.02, 0.1], regions='ground_0'),
+            Field('por_bot', rf, regions='ground_1'),
+            Field('porosity_bot', positive_to_range, ['por_bot', 0.01, 0.05], regions='ground_1'),
+            Field('conductivity_top', cf.kozeny_carman, ['porosity_top', 1, 1e-8, water_viscosity], regions='ground_0'),
+            Field('conductivity_bot', cf.kozeny_carman, ['porosity_bot', 1, 1e-10, water_viscosity],regions='ground_1')
+            ])
+
+        TODO: use topological sort to fix order of 'fields'
+        TODO: syntactic sugar for calculating with fields (like with np.arrays).
+        """
+        self.fields_orig = fields
+        self.fields_dict = {}
+        self.fields = []
+
+        # Have to make a copy of the fields since we want to generate the samples in them
+        # and the given instances of Field can be used by an independent FieldSet instance.
+        for field in self.fields_orig:
+            new_field = copy.copy(field)
+            # A random field shared by several fields is evaluated in points of each of them
+            new_field.correlated_field = copy.copy(field.correlated_field)
+            if new_field.param_fields:
+                new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
+            self.fields_dict[new_field.name] = new_field
+            self.fields.append(new_field)
+
+    def _get_field_obj(self, field_name, regions):
+        """
+        Get fields by name, replace constants by constant fields for unification.
+        """
+        if type(field_name) in [float, int]:
+            const_field = Field("const_{}".format(field_name), field_name, regions=regions)
+            self.fields.insert(0, const_field)
+            self.fields_dict[const_field.name] = const_field
+            return const_field
+        else:
+            assert field_name in self.fields_dict, "name: {} dict: {}".format(field_name, self.fields_dict)
+            return self.fields_dict[field_name]
+
+    @property
+    def names(self):
+        return self.fields_dict.keys()
+
+    # def iterative_dfs(self, graph, start, path=[]):
+    #     q = [start]
+    #     while q:
+    #         v = q.pop(0)
+    #         if v not in path:
+    #             path = path + [v]
+    #             q = graph[v] + q
+    #
+    #     return path
+
+    def set_outer_fields(self, outer):
+        """
+        Set fields that will be in a dictionary produced by FieldSet.sample() call.
+        :param outer: A list of names of fields that are sampled.
+        :return:
+        """
+        outer_set = set(outer)
+        for f in self.fields:
+            if f.name in outer_set:
+                f.is_outer = True
+            else:
+                f.is_outer = False
+
+    def set_points(self, points, region_ids=[], region_map={}):
+        """
+        Set mesh related data to fields.
+        - set points for sample evaluation
+        - translate region names to region ids in fields
+        - create maps from region constraned point sets of fields to full point set
+        :param points: np array of points for field evaluation
+        :param regions: regions of the points;
+               empty means no points for fields restricted to regions and all points for unrestricted fields
+        :return:
+        """
+        self.n_elements = len(points)
+        assert len(points) == len(region_ids)
+        reg_points = {}
+        for i, reg_id in enumerate(region_ids):
+            reg_list = reg_points.get(reg_id, [])
+            reg_list.append(i)
+            reg_points[reg_id] = reg_list
+
+        for field in self.fields:
+            point_ids = []
+            if field.regions:
+                for reg in field.regions:
+                    reg_id = region_map[reg]
+                    point_ids.extend(reg_points.get(reg_id, []))
+                field.set_points(points[point_ids])
+                field.full_sample_ids = point_ids
+            else:
+                field.set_points(points)
+                field.full_sample_ids = np.arange(self.n_elements)
+
+    def sample(self):
+        """
+        Return dictionary of sampled fields.
+        :return: { 'field_name': sample, ...}
+        """
+        result = {}
+        for field in self.fields:
+            sample = field.sample()
+            if field.is_outer:
+                result[field.name] = np.zeros(self.n_elements)
+                result[field.name][field.full_sample_ids] = sample
+        return result
+
+
+class RandomFieldBase:
+    """
+    Base class for various methods for generating random fields.
+
+    Generating realizations of a spatially correlated random field F for a fixed set of points at X.
+    E[F(x)]       = mu(x)
+    Cov_ij = Cov[x_i,x_j]  = E[(F(x_i) - mu(x))(F(x_j) - mu(x))]
+
+    We assume stationary random field with covariance matrix Cov_ij:
+        Cov_i,j = c(x_i - x_j)
+    where c(X) is the "stationary covariance" function. We assume:
+          c(X) = sigma^2 exp( -|X^t K X|^(alpha/2) )
+    for spatially heterogeneous sigma(X) we consider particular non-stationary generalization:\
+          Cov_i,i = sigma(x_i)*sigma(x_j) exp( -|X^t K X|^(alpha/2) ); X = x_i - x_j
+
+    where:
+        - sigma(X) is the standard deviance of the single uncorrelated value
+        - K is a positive definite tensor with eigen vectors corresponding to
+          main directions and eigen values equal to (1/l_i)^2, where l_i is correlation
+          length in singel main direction.
+        - alpha is =1 for "exponential" and =2 for "Gauss" correlation
+
+    SVD decomposition:
+        Considering first m vectors, such that lam(m)/lam(0) <0.1
+
+    Example:
+    ```
+        field = SpatialCorrelatedField(corr_exp='exp', corr_length=1.5)
+        X, Y = np.mgrid[0:1:10j, 0:1:10j]
+        points = np.vstack([X.ravel(), Y.ravel()])
+        field.set_points(points)
+        sample = field.sample()
+
+    ```
+    """
+
+    def __init__(self, corr_exp='gauss', dim=2, corr_length=1.0,
+                 aniso_correlation=None, mu=0.0, sigma=1.0, log=False, **kwargs):
+        """
+        :param corr_exp: 'gauss', 'exp' or a float (should be >= 1)
+        :param dim: dimension of the domain (size of point coords)
+        :param corr_length: scalar, correlation length L > machine epsilon; tensor K = (1/L)^2
+        :param aniso_correlation: 3x3 array; K tensor, overrides correlation length
+        :param mu - mu field (currently just a constant)
+        :param sigma - sigma field (currently just a constant)
+
+        TODO:
+        - implement anisotropy in the base class using transformation matrix for the points
+        - use transformation matrix also for the corr_length
+        - replace corr_exp by aux classes for various correlation functions and pass them here
+        - more general set of correlation functions
+        """
+        self.dim = dim
+        self.log = log
+
+        if corr_exp == 'gauss':
+            self.correlation_exponent = 2.0
+        elif corr_exp == 'exp':
+            self.correlation_exponent = 1.0
+        else:
+            self.correlation_exponent = float(corr_exp)
+
+        # TODO: User should prescribe scaling for main axis and their rotation.
+        # From this we should construct the transformation matrix for the points
+        self._corr_length = corr_length
+        if aniso_correlation is None:
+            assert corr_length > np.finfo(float).eps
+            self.correlation_tensor = np.eye(dim, dim) * (1 / (corr_length ** 2))
+            self._max_corr_length = corr_length
+        else:
+            self.correlation_tensor = aniso_correlation
+            self._max_corr_length = la.norm(aniso_correlation, ord=2)  # largest eigen value
+
+        #### Attributes set through `set_points`.
+        self.points = None
+        # Evaluation points of the field.
+        self.mu = mu
+        # Mean in points. Or scalar.
+        self.sigma = sigma
+        # Standard deviance in points. Or scalar.
+
+        self._initialize(**kwargs)  # Implementation dependent initialization.
+
+    def _initialize(self, **kwargs):
+        raise NotImplementedError()
+
+    def set_points(self, points, mu=None, sigma=None):
+        """
+        :param points: N x d array. Points X_i where the field will be evaluated. d is the dimension.
+        :param mu: Scalar or N array. Mean value of uncorrelated field: E( F(X_i)).
+        :param sigma: Scalar or N array. Standard deviance of uncorrelated field: sqrt( E ( F(X_i) - mu_i )^2 )
+        :return: None
+        """
+        points = np.array(points, dtype=float)
+
+        assert len(points.shape) >= 1
+        assert points.shape[1] == self.dim
+        self.n_points, self.dimension = points.shape
+        self.points = points
+
+        if mu is not None:
+            self.mu = mu
+        self.mu = np.array(self.mu, dtype=float)
+        assert self.mu.shape == () or self.mu.shape == (len(points),)
+
+        if sigma is not None:
+            self.sigma = sigma
+        self.sigma = np.array(self.sigma, dtype=float)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+        self._set_points()
+
+    def _set_points(self):
+        pass
+
+    def sample(self):
+        """
+        :param uncorelated: Random samples from standard normal distribution.
+               Removed as the spectral method do not support it.
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        # if uncorelated is None:
+        #     uncorelated = np.random.normal(0, 1, self.n_approx_terms)
+        # else:
+        #     assert uncorelated.shape == (self.n_approx_terms,)
+
+        field = self._sample()
+        field = self.sigma * field + self.mu
+
+        if not self.log:
+            return field
+        return np.exp(field)
+
+    def _sample(self, uncorrelated):
+        raise NotImplementedError()
+
+
+class SpatialCorrelatedField(RandomFieldBase):
+
+    def _initialize(self, **kwargs):
+        """
+        Called after initialization in common constructor.
+        """
+
+        ### Attributes computed in precalculation.
+        self.cov_mat = None
+        # Covariance matrix (dense).
+        self._n_approx_terms = None
+        # Length of the sample vector, number of KL (Karhunen-Loe?ve) expansion terms.
+        self._cov_l_factor = None
+        # (Reduced) L factor of the SVD decomposition of the covariance matrix.
+        self._sqrt_ev = None
+        # (Reduced) square roots of singular values.
+
+    def _set_points(self):
+        self.cov_mat = None
+        self._cov_l_factor = None
+
+    def cov_matrix(self):
+        """
+        Setup dense covariance matrix for given set of points.
+        :return: None.
+        """
+        assert self.points is not None, "Points not set, call set_points."
+
+        self._points_bbox = box = (np.min(self.points, axis=0), np.max(self.points, axis=0))
+        diameter = np.max(np.abs(box[1] - box[0]))
+        self._relative_corr_length = self._max_corr_length / diameter
+
+        # sigma_sqr_mat = np.outer(self.sigma, self.sigma.T)
+        self._sigma_sqr_max = np.max(self.sigma) ** 2
+        n_pt = len(self.points)
+        self.cov_mat = np.empty((n_pt, n_pt))
+        corr_exp = self.correlation_exponent / 2.0
+
+        for i_row in range(n_pt):
+            pt = self.points[i_row]
+            diff_row = self.points - pt
+            len_sqr_row = np.sum(diff_row.dot(self.correlation_tensor) * diff_row, axis=-1)
+            self.cov_mat[i_row, :] = np.exp(-len_sqr_row ** corr_exp)
+        return self.cov_mat
+
+    def _eigen_value_estimate(self, m):
+        """
+        Estimate of the m-th eigen value of the covariance matrix.
+        According to paper: Schwab, Thodor: KL Approximation  of Random Fields by ...
+        However for small gamma the asimtotics holds just for to big values of 'm'.
+        We rather need to find a semiempricial formula.
+        greater
+        :param m:
+        :return:
+        """
+        assert self.cov_mat is not None
+        d = self.dimension
+        alpha = self.correlation_exponent
+        gamma = self._relative_corr_length
+        return self._sigma_sqr_max * (1.0 / gamma) ** (m ** (1.0 / d) + alpha) / sp.special.gamma(0.5 * m ** (1 / d))
+
+    def svd_dcmp(self, precision=0.01, n_terms_range=(1, np.inf)):
+        """
+        Does decomposition of covariance matrix defined by set of points
+        :param precision: Desired accuracy of the KL approximation, smaller eigen values are dropped.
+        :param n_terms_range: (min, max) number of terms in KL expansion to use. The number of terms estimated from
+        given precision is snapped to the given interval.
+
+        truncated SVD:
+         cov_mat = U*diag(ev) * V,
+         _cov_l_factor = U[:,0:m]*sqrt(ev[0:m])
+
+        Note on number of terms:
+        According to: C. Schwab and R. A. Todor: KL Approximation of Random Fields by Generalized Fast Multiploe Method
+        the eigen values should decay as (Proposition 2.18):
+            lambda_m ~ sigma^2 * ( 1/gamma ) **( m**(1/d) + alpha ) / Gamma(0.5 * m**(1/d) )
+        where gamma = correlation length / domain diameter
+        ans alpha is the correlation exponent. Gamma is the gamma function.
+        ... should be checked experimantaly and generalized for sigma(X)
+
+        :return:
+        """
+        if self.cov_mat is None:
+            self.cov_matrix()
+
+        if n_terms_range[0] >= self.n_points:
+            U, ev, VT = np.linalg.svd(self.cov_mat)
+            m = self.n_points
+        else:
+            range = list(n_terms_range)
+            range[0] = max(1, range[0])
+            range[1] = min(self.n_points, range[1])
+
+            prec_range = (self._eigen_value_estimate(range[0]), self._eigen_value_estimate(range[1]))
+            if precision < prec_range[0]:
+                m = range[0]
+            elif precision > prec_range[1]:
+                m = range[1]
+            else:
+                f = lambda m: self._eigen_value_estimate(m) - precision
+                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+
+            m = max(m, range[0])
+            threshold = 2 * precision
+            # TODO: Test if we should cut eigen values by relative (like now) or absolute value
+            while threshold >= precision and m <= range[1]:
+                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
+                U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
+                threshold = ev[-1] / ev[0]
+                m = int(np.ceil(1.5 * m))
+
+            m = len(ev)
+            m = min(m, range[1])
+
+        #print("KL approximation: {} for {} points.".format(m, self.n_points))
+        self.n_approx_terms = m
+        self._sqrt_ev = np.sqrt(ev[0:m])
+        self._cov_l_factor = U[:, 0:m].dot(np.diag(self._sqrt_ev))
+        self.cov_mat = None
+        return self._cov_l_factor, ev[0:m]
+
+    def _sample(self):
+        """
+        :param uncorelated: Random samples from standard normal distribution.
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        if self._cov_l_factor is None:
+            self.svd_dcmp()
+        uncorelated = np.random.normal(0, 1, self.n_approx_terms)
+        return self._cov_l_factor.dot(uncorelated)
+
+
+class GSToolsSpatialCorrelatedField(RandomFieldBase):
+
+    def __init__(self, model, mode_no=1000, log=False, sigma=1):
+        """
+        :param model: instance of covariance model class, which parent is gstools.covmodel.CovModel
+        :param mode_no: number of Fourier modes, default: 1000 as in gstools package
+        """
+        self.model = model
+        self.mode_no = mode_no
+        self.srf = gstools.SRF(model, mode_no=mode_no)
+        self.mu = self.srf.mean
+        self.sigma = sigma
+        self.dim = model.dim
+        self.log = log
+
+    def change_srf(self, seed):
+        """
+        Spatial random field with new seed
+        :param seed: int, random number generator seed
+        :return: None
+        """
+        self.srf = gstools.SRF(self.model, seed=seed, mode_no=self.mode_no)
+
+    def random_field(self):
+        """
+        Generate the spatial random field
+        :return: field, np.ndarray
+        """
+        if self.dim == 1:
+            x = self.points
+            x.reshape(len(x))
+            field = self.srf((x,))
+        elif self.dim == 2:
+            x, y = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            field = self.srf((x, y))
+        else:
+            x, y, z = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            z = z.reshape(len(z), 1)
+            field = self.srf((x, y, z))
+
+        return field
+
+    def sample(self):
+        """
+        :return: Random field evaluated in points given by 'set_points'
+        """
+        if not self.log:
+            return self.sigma * self.random_field() + self.mu
+        return np.exp(self.sigma * self.random_field() + self.mu)
+
+
+class FourierSpatialCorrelatedField(RandomFieldBase):
+    """
+    Generate spatial random fields
+    """
+
+    def _initialize(self, **kwargs):
+        """
+        Own intialization.
+        :param mode_no: Number of Fourier modes
+        """
+        warnings.warn("FourierSpatialCorrelatedField class is deprecated, try to use GSToolsSpatialCorrelatedField class instead",
+            DeprecationWarning)
+        self.len_scale = self._corr_length * 2*np.pi
+        self.mode_no = kwargs.get("mode_no", 1000)
+
+    def get_normal_distr(self):
+        """
+        Normal distributed arrays
+        :return: np.ndarray
+        """
+        Z = np.empty((2, self.mode_no))
+        rng = self._get_random_stream()
+        for i in range(2):
+            Z[i] = rng.normal(size=self.mode_no)
+
+        return Z
+
+    def _sample_sphere(self, mode_no):
+        """Uniform sampling on a d-dimensional sphere
+        Parameters
+        ----------
+            mode_no : :class:`int`, optional
+                number of the Fourier modes
+        Returns
+        -------
+            coord : :class:`numpy.ndarray`
+                x[, y[, z]] coordinates on the sphere with shape (dim, mode_no)
+        """
+        coord = self._create_empty_k(mode_no)
+        if self.dim == 1:
+            rng = self._get_random_stream()
+            ang1 = rng.random_sample(mode_no)
+            coord[0] = 2 * np.around(ang1) - 1
+        elif self.dim == 2:
+            rng = self._get_random_stream()
+            ang1 = rng.uniform(0.0, 2 * np.pi, mode_no)
+            coord[0] = np.cos(ang1)
+            coord[1] = np.sin(ang1)
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return coord
+
+    def gau(self, mode_no=1000):
+        """
+        Compute a gaussian spectrum
+        :param mode_no: int, Number of Fourier modes
+        :return: numpy.ndarray
+        """
+        len_scale = self.len_scale * np.sqrt(np.pi / 4)
+        if self.dim == 1:
+            k = self._create_empty_k(mode_no)
+            rng = self._get_random_stream()
+            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
+        elif self.dim == 2:
+            coord = self._sample_sphere(mode_no)
+            rng = self._get_random_stream()
+            rad_u = rng.random_sample(mode_no)
+            # weibull distribution sampling
+            rad = np.sqrt(np.pi) / len_scale * np.sqrt(-np.log(rad_u))
+            k = rad * coord
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return k
+
+    def exp(self, mode_no=1000):
+        """
+        Compute an exponential spectrum
+        :param mode_no: int, Number of Fourier modes
+        :return: numpy.ndarray
+        """
+        if self.dim == 1:
+            k = self._create_empty_k(mode_no)
+            rng = self._get_random_stream()
+            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k[0] = np.tan(k_u) / self.len_scale
+        elif self.dim == 2:
+            coord = self._sample_sphere(mode_no)
+            rng = self._get_random_stream()
+            rad_u = rng.random_sample(mode_no)
+            # sampling with ppf
+            rad = np.sqrt(1.0 / rad_u ** 2 - 1.0) / self.len_scale
+            k = rad * coord
+        elif self.dim == 3:
+            raise NotImplementedError("For implementation see "
+                                      "https://github.com/LSchueler/GSTools/blob/randomization_revisited/gstools/field/rng.py")
+        return k
+
+    def _create_empty_k(self, mode_no=None):
+        """ Create empty mode array with the correct shape.
+        Parameters
+        ----------
+            mode_no : :class:`int`
+                number of the fourier modes
+        Returns
+        -------
+            :class:`numpy.ndarray`
+                the empty mode array
+        """
+        if mode_no is None:
+            k = np.empty(self.dim)
+        else:
+            k = np.empty((self.dim, mode_no))
+
+        return k
+
+    def _get_random_stream(self, seed=None):
+        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
+
+    def random_field(self):
+        """
+        Calculates the random modes for the randomization method.
+        """
+        y, z = None, None
+        if self.dim == 1:
+            x = self.points
+            x.reshape(len(x), 1)
+        elif self.dim == 2:
+            x, y = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+        else:
+            x, y, z = self.points.T
+            x = x.reshape(len(x), 1)
+            y = y.reshape(len(y), 1)
+            z = z.reshape(len(z), 1)
+
+        normal_distr_values = self.get_normal_distr()
+
+        if self.correlation_exponent == 2:
+            k = self.gau(self.mode_no)
+        else:
+            k = self.exp(self.mode_no)
+
+        # reshape for unstructured grid
+        for dim_i in range(self.dim):
+            k[dim_i] = np.squeeze(k[dim_i])
+            k[dim_i] = np.reshape(k[dim_i], (1, len(k[dim_i])))
+
+        summed_modes = np.broadcast(x, y, z)
+        summed_modes = np.squeeze(np.zeros(summed_modes.shape))
+        # Test to see if enough memory is available.
+        # In case there isn't, divide Fourier modes into smaller chunks
+        chunk_no = 1
+        chunk_no_exp = 0
+
+        while True:
+            try:
+                chunk_len = int(np.ceil(self.mode_no / chunk_no))
+
+                for chunk in range(chunk_no):
+                    a = chunk * chunk_len
+                    # In case k[d,a:e] with e >= len(k[d,:]) causes errors in
+                    # numpy, use the commented min-function below
+                    # e = min((chunk + 1) * chunk_len, self.mode_no-1)
+                    e = (chunk + 1) * chunk_len
+
+                    if self.dim == 1:
+                        phase = k[0, a:e]*x
+                    elif self.dim == 2:
+                        phase = k[0, a:e]*x + k[1, a:e]*y
+                    else:
+                        phase = (k[0, a:e]*x + k[1, a:e]*y +
+                                 k[2, a:e]*z)
+
+                    summed_modes += np.squeeze(
+                        np.sum(normal_distr_values[0, a:e] * np.cos(2.*np.pi*phase) +
+                               normal_distr_values[1, a:e] * np.sin(2.*np.pi*phase),
+                               axis=-1))
+            except MemoryError:
+                chunk_no += 2**chunk_no_exp
+                chunk_no_exp += 1
+                print('Not enough memory. Dividing Fourier modes into {} '
+                      'chunks.'.format(chunk_no))
+            else:
+                break
+
+        field = np.sqrt(1.0 / self.mode_no) * summed_modes
+        return field
+
+    def _sample(self):
+        """
+        :return: Random field evaluated in points given by 'set_points'.
+        """
+        return self.random_field()
+
+        if not self.log:
+            return field
+        return np.exp(field)
-- 
2.43.0

