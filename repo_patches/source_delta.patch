From 92d5406efbb1ce0c7be2d83f17ffb6988a4b4533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 1/5] fix: ptransform_analyzer treats outputs without an asset
 default as plain values

An output whose entry in output_asset_default_values is None is documented
not to be an asset path, but it was wrapped as one, and tracing failed when
the None was written to a file.
---
 tensorflow_transform/experimental/analyzers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_transform/experimental/analyzers.py b/tensorflow_transform/experimental/analyzers.py
index 1de0735..56b0220 100644
--- a/tensorflow_transform/experimental/analyzers.py
+++ b/tensorflow_transform/experimental/analyzers.py
@@ -283,7 +283,7 @@ def ptransform_analyzer(
                 "different lengths".format(output_dtypes, output_asset_default_values)
             )
         output_asset_default_values = [
-            analyzer_nodes.TemporaryAssetInfo(value, "text")
+            None if value is None else analyzer_nodes.TemporaryAssetInfo(value, "text")
             for value in output_asset_default_values
         ]
     else:
-- 
2.43.0


From 7df3e61b35c8a36369d44a94dcbfbd271f242202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 2/5] fix: NumPyCombiner drops an accumulator only if all its
 parts are default

min_and_max combines (-min, max). A batch whose negated min equals the
default (all values infinite, or equal to the largest integer) was taken
for an empty accumulator, so that its max was lost.
---
 tensorflow_transform/analyzers.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 2caa9ad..9f313e3 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -286,6 +286,11 @@ class NumPyCombiner(analyzer_nodes.Combiner):
     def _is_default_sub_accumulator(self, array):
         raise NotImplementedError("Implementation should be set in __init__.")
 
+    def _is_default_accumulator(self, accumulator):
+        # A single subaccumulator may be equal to the default while others hold
+        # data, e.g. the negated min of a batch of infinities.
+        return all(map(self._is_default_sub_accumulator, accumulator))
+
     def create_accumulator(self):
         return [self._create_sub_accumulator(shape) for shape in self._output_shapes]
 
@@ -300,9 +305,9 @@ class NumPyCombiner(analyzer_nodes.Combiner):
     def add_input(self, accumulator, batch_values):
         # TODO(b/112414577): Go back to accepting only a single input.
         # See comment in _numeric_combine.
-        # If the first subaccumulator is default, then the accumulator is default
-        # and can be discarded.
-        if self._is_default_sub_accumulator(accumulator[0]):
+        # If all subaccumulators are default, then the accumulator is default and
+        # can be discarded.
+        if self._is_default_accumulator(accumulator):
             return batch_values
         else:
             return [
@@ -311,12 +316,12 @@ class NumPyCombiner(analyzer_nodes.Combiner):
             ]
 
     def merge_accumulators(self, accumulators):
-        # If the first subaccumulator is default, then the accumulator is default
-        # and can be discarded.
+        # If all subaccumulators are default, then the accumulator is default and
+        # can be discarded.
         non_default_accumulators = [
             accumulator
             for accumulator in accumulators
-            if not self._is_default_sub_accumulator(accumulator[0])
+            if not self._is_default_accumulator(accumulator)
         ]
         if non_default_accumulators:
             return [
-- 
2.43.0


From 918935c4c4020f7492a82248965d69b60440d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 3/5] fix: analyzer cache keys cover the parameters
 accumulators depend on

The key of a cached combine only included the class of its combiner, so that
quantiles with another epsilon, an approximate vocabulary with another top_k
or a covariance with another dtype, of the same name, hit cache entries whose
accumulators were computed with the old parameters: a silently less accurate
result, or sketches that cannot be merged.
---
 tensorflow_transform/analyzer_nodes.py        | 19 +++++++++++++++++++
 tensorflow_transform/analyzers.py             |  8 ++++++++
 .../experimental/analyzers.py                 |  4 ++++
 3 files changed, 31 insertions(+)

diff --git a/tensorflow_transform/analyzer_nodes.py b/tensorflow_transform/analyzer_nodes.py
index 9ecb077..e3a45e5 100644
--- a/tensorflow_transform/analyzer_nodes.py
+++ b/tensorflow_transform/analyzer_nodes.py
@@ -416,6 +416,17 @@ class Combiner:
     def accumulator_coder(self):
         return JsonNumpyCacheCoder()
 
+    @property
+    def accumulator_params(self):
+        """Parameters of this combiner that its accumulators depend on.
+
+        These are part of the analyzer cache key. Accumulators of combiners of the
+        same class which differ in these can't be merged with each other.
+
+        Returns: A tuple of values with a `repr` that is the same in each process.
+        """
+        return ()
+
 
 class CacheCoder(metaclass=abc.ABCMeta):
     """A coder iterface for encoding and decoding cache items."""
@@ -587,6 +598,10 @@ class CacheableCombineAccumulate(
     def cache_coder(self):
         return self.combiner.accumulator_coder
 
+    @property
+    def accumulator_params(self):
+        return self.combiner.accumulator_params
+
 
 class CacheableCombineMerge(
     tfx_namedtuple.namedtuple("CacheableCombineMerge", ["combiner", "label"]),
@@ -681,6 +696,10 @@ class CacheableCombinePerKeyAccumulate(
     def cache_coder(self):
         return _CombinerPerKeyAccumulatorCoder(self.combiner.accumulator_coder)
 
+    @property
+    def accumulator_params(self):
+        return self.combiner.accumulator_params
+
 
 class CacheableCombinePerKeyMerge(
     tfx_namedtuple.namedtuple("CacheableCombinePerKeyMerge", ["combiner", "label"]),
diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 9f313e3..1436a10 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -2474,6 +2474,10 @@ class QuantilesCombiner(analyzer_nodes.Combiner):
     def accumulator_coder(self):
         return _QuantilesSketchCacheCoder()
 
+    @property
+    def accumulator_params(self):
+        return (self._epsilon, self._num_features, self._has_weights)
+
 
 class _QuantilesSketchCacheCoder(analyzer_nodes.CacheCoder):
     """Cache coder for the quantiles accumulator."""
@@ -2763,6 +2767,10 @@ class CovarianceCombiner(analyzer_nodes.Combiner):
         # ragged sequences are passed to np.array().
         return analyzer_nodes.JsonNumpyCacheCoder(np_dtype=object)
 
+    @property
+    def accumulator_params(self):
+        return (np.dtype(self._numpy_dtype).name,)
+
 
 @common.log_api_use(common.ANALYZER_COLLECTION)
 def covariance(x: tf.Tensor, dtype: tf.DType, name: Optional[str] = None) -> tf.Tensor:
diff --git a/tensorflow_transform/experimental/analyzers.py b/tensorflow_transform/experimental/analyzers.py
index 56b0220..d9b02da 100644
--- a/tensorflow_transform/experimental/analyzers.py
+++ b/tensorflow_transform/experimental/analyzers.py
@@ -587,6 +587,10 @@ class _VocabularyCombiner(analyzer_nodes.Combiner):
     def accumulator_coder(self) -> _MisraGriesSketchCoder:
         return _MisraGriesSketchCoder()
 
+    @property
+    def accumulator_params(self) -> Tuple[int, ...]:
+        return (self._top_k,)
+
 
 def _get_approximate_vocabulary_analyzer_inputs(
     x: common_types.TensorType,
-- 
2.43.0


From 61107a5ad8f633374ff4fbf2819be46c46b29a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 4/5] fix: analyzer cache path hash covers the type of each
 graph op

Only the attributes of ops were hashed, so tft.mean(tf.sin(x)) and
tft.mean(tf.cos(x)) had one cache key, and an analysis with a changed
preprocessing_fn silently reused results of the old one.
---
 tensorflow_transform/graph_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_transform/graph_tools.py b/tensorflow_transform/graph_tools.py
index 0792016..8c0e12a 100644
--- a/tensorflow_transform/graph_tools.py
+++ b/tensorflow_transform/graph_tools.py
@@ -953,7 +953,7 @@ def describe_path_as_analyzer_cache_hash(
         return None
 
     if isinstance(x, tf.Operation):
-        values = _serialize_op_attr(x.node_def.attr)
+        values = [x.node_def.op] + _serialize_op_attr(x.node_def.attr)
     elif isinstance(x, tf.Tensor):
         # No need to add x.op to the hash since that should be included in parents.
         values = [tf.compat.as_str_any(x.value_index)]
-- 
2.43.0


From d8bf4dbb663cd1d3310f4ed1a6c38cfdb09b27b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 5/5] fix: deep_copy clones steps with several outputs in
 dependency order

---
 tensorflow_transform/beam/deep_copy.py | 56 ++++++++++----------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/tensorflow_transform/beam/deep_copy.py b/tensorflow_transform/beam/deep_copy.py
index 1207502..b41b606 100644
--- a/tensorflow_transform/beam/deep_copy.py
+++ b/tensorflow_transform/beam/deep_copy.py
@@ -24,7 +24,6 @@ _MATERIALIZATION_BARRIER_TRANSFORMS as a materialization boundary for this
 purpose.
 """
 
-import queue
 import re
 
 import apache_beam as beam
@@ -83,50 +82,39 @@ def _get_items_to_clone(pcollection):
       ValueError: if the input PCollection is invalid.
     """
     assert isinstance(pcollection, PCollection)
-    # List of items (either PCollection or PTransform, in reverse dependency
-    # order (i.e. here, consumers occur before producers).
-    reversed_to_clone = []
-    # Queue of PCollections to be processed in traversal of pipeline graph.
-    to_process = queue.Queue()
-    # Set of items (PCollections and PTransforms) already seen during pipeline
-    # graph traversal.
+    # List of items (either PCollection or PTransform), in dependency order.
+    to_clone = []
+    # Applied PTransforms already reached during traversal of pipeline graph.
     seen = set()
-
-    to_process.put(pcollection)
-    seen.add(pcollection)
-    while not to_process.empty():
-        current_pcollection = to_process.get()
+    # Stack of PCollections to be processed, and of applied PTransforms to be added
+    # to the result once all of their inputs have been processed.
+    stack = [pcollection]
+    while stack:
+        current = stack.pop()
+        if isinstance(current, beam_pipeline.AppliedPTransform):
+            to_clone.append(current)
+            for output in current.outputs.values():
+                assert isinstance(output, PCollection), output
+                to_clone.append(output)
+            continue
 
         # Stop if we have reached the beginning of the pipeline, or at a
         # materialization boundary.
-        if isinstance(
-            current_pcollection, pvalue.PBegin
-        ) or _is_at_materialization_boundary(current_pcollection):
+        if isinstance(current, pvalue.PBegin) or _is_at_materialization_boundary(
+            current
+        ):
             continue
 
-        reversed_to_clone.append(current_pcollection)
-        applied_transform = current_pcollection.producer
+        applied_transform = current.producer
         if applied_transform is None:
-            raise ValueError(
-                "PCollection node has invalid producer: %s" % current_pcollection
-            )
-
-        # Visit the input PCollection(s), and also add other outputs of that applied
-        # PTransform.
+            raise ValueError("PCollection node has invalid producer: %s" % current)
         if applied_transform in seen:
             continue
-        for output in applied_transform.outputs.values():
-            assert isinstance(output, PCollection), output
-            if output not in seen:
-                reversed_to_clone.append(output)
         seen.add(applied_transform)
-        reversed_to_clone.append(applied_transform)
-        for input_pcollection in applied_transform.inputs:
-            if input_pcollection not in seen:
-                to_process.put(input_pcollection)
-                seen.add(input_pcollection)
+        stack.append(applied_transform)
+        stack.extend(applied_transform.inputs)
 
-    return list(reversed(reversed_to_clone))
+    return to_clone
 
 
 def _clone_items(pipeline, to_clone):
-- 
2.43.0

