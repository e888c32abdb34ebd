From d41e2b8059a7b867e92fd522f172501acffca0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:11 +0000
Subject: [PATCH 1/8] fix: restore sharded checkpoints that have arrays without
 elements

Saving an array with a zero-size dimension succeeded, but restoring it raised
(np.concatenate of no subchunks, and an empty intersection of slices).
---
 vmoe/checkpoints/partitioned.py   | 4 ++--
 vmoe/checkpoints/serialization.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index a7d0402..2856c6e 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -528,8 +528,8 @@ def _restore_local_buffers(
         ckpt_chunks.chunks[i], ckpt_chunks.global_slices[i]):
       for global_slice, buffer in local_buffers[i].items():
         intersect_slice = _intersect_slicend(global_slice, ckpt_slice)
-        if (global_slice == ckpt_slice or  # account for scalars with shape ().
-            intersect_slice):
+        # The intersection is () for scalars, and None if it has no elements.
+        if intersect_slice is not None:
           local_intersect_slice = tuple(
               slice(a.start - b.start, a.stop - b.start)
               for a, b in safe_zip(intersect_slice, global_slice))
diff --git a/vmoe/checkpoints/serialization.py b/vmoe/checkpoints/serialization.py
index 2c0bbe3..7d41b65 100644
--- a/vmoe/checkpoints/serialization.py
+++ b/vmoe/checkpoints/serialization.py
@@ -214,9 +214,10 @@ def _lazy_array_chunks_encode(
     chunk, global_slice = pair
     chunk = chunk.flatten()
     subchunk_size = max(1, int(_MAX_CHUNK_SIZE / chunk.dtype.itemsize))
+    # Note: there is always one subchunk, even if the chunk has no elements.
     subchunks = [
         chunk[i:i + subchunk_size]
-        for i in range(0, chunk.size, subchunk_size)
+        for i in range(0, max(1, chunk.size), subchunk_size)
     ]
     return [subchunks, global_slice]
 
-- 
2.43.0


From 30c5885b757071dc1b5e0e0e6c3803a8f141f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:21 +0000
Subject: [PATCH 2/8] fix: do not confuse checkpoints of different prefixes in
 the same directory

The pattern '<prefix>*' matches the files of '<prefix>_ema', '<prefix>foo', etc.
Their steps were reported as complete for the prefix (or discovery raised,
either because such a file has no step, or because a step had files both with
and without suffix, which cannot be sorted).
---
 vmoe/checkpoints/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 01ff717..693f896 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -14,7 +14,6 @@
 
 """Base functions for checkpointing."""
 import functools
-import itertools
 import multiprocessing.pool
 import os
 import re
@@ -93,12 +92,17 @@ def iterate_complete_steps_for_prefix(
   if not suffixes:
     suffixes = (None,)
   suffixes = set(suffixes)
+  basename = os.path.basename(prefix)
 
   def _parse_step_and_suffix_or_error(filepath):
     m = CHECKPOINT_REGEX.fullmatch(filepath)
     assert m is not None, (
         f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
         f'This should not happen.')
+    # The pattern '<prefix>*' also matches the files of other prefixes, e.g.
+    # '/dir/ckpt_ema_1' when the prefix is '/dir/ckpt'.
+    if os.path.basename(m.group(1)) not in (basename, f'.tmp.{basename}'):
+      return None
     if m.group(2) is None:
       raise ValueError(f'Filepath {filepath!r} does not contain a step number.')
     step = int(m.group(2)[1:])
@@ -114,11 +118,9 @@ def iterate_complete_steps_for_prefix(
   incomplete_steps_and_suffixes = set(
       map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
 
-  for step, group in itertools.groupby(
-      sorted(steps_and_suffixes - incomplete_steps_and_suffixes,
-             reverse=decreasing),
-      lambda x: x[0]):
-    if not suffixes.difference(set(x[1] for x in group)):
+  complete = steps_and_suffixes - incomplete_steps_and_suffixes - {None}
+  for step in sorted(set(x[0] for x in complete), reverse=decreasing):
+    if not suffixes.difference(set(x[1] for x in complete if x[0] == step)):
       yield step
 
 
-- 
2.43.0


From 7c5045a48b64d6437d6b33c14676466bdcd7ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:21 +0000
Subject: [PATCH 3/8] fix: a temp file of any suffix marks the step as
 incomplete

Only the suffix of the temp file was ignored, thus the step was still reported
as complete if that suffix was not one of the required ones.
---
 vmoe/checkpoints/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 693f896..b5df0ab 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -112,13 +112,15 @@ def iterate_complete_steps_for_prefix(
   # Find set of (step, suffix) from the given prefix.
   steps_and_suffixes = set(
       map(_parse_step_and_suffix_or_error, gfile.glob(prefix + '*')))
-  # Remove any steps where there is an associated temp file.
+  # Find the steps where there is any associated temp file.
   workdir = os.path.dirname(prefix)
   pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
   incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
+      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp))) - {None}
+  incomplete_steps = set(x[0] for x in incomplete_steps_and_suffixes)
 
-  complete = steps_and_suffixes - incomplete_steps_and_suffixes - {None}
+  complete = set(
+      x for x in steps_and_suffixes - {None} if x[0] not in incomplete_steps)
   for step in sorted(set(x[0] for x in complete), reverse=decreasing):
     if not suffixes.difference(set(x[1] for x in complete if x[0] == step)):
       yield step
-- 
2.43.0


From 0a4e6279a7c7f5cd52a07d1acfa02de1d134ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:25 +0000
Subject: [PATCH 4/8] fix: steps with missing shards are not complete

A process that crashed before it started to write its shard leaves no temp file,
thus the step was reported as complete without that shard.
---
 vmoe/checkpoints/base.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index b5df0ab..001cd85 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -72,7 +72,7 @@ def iterate_complete_steps_for_prefix(
   """Iterates over steps with complete checkpoints from a given prefix.
 
   Complete steps are those for which there are not incomplete (temp) checkpoint
-  shards and for which all suffixes are present.
+  shards and for which all suffixes are present, with all of their shards.
 
   E.g. If the prefix is '/dir/ckpt', the suffixes are ('.index', '.data') and
   the files in '/dir/' are: '/dir/ckpt_1.index', '/dir/ckpt_1.data',
@@ -94,7 +94,7 @@ def iterate_complete_steps_for_prefix(
   suffixes = set(suffixes)
   basename = os.path.basename(prefix)
 
-  def _parse_step_and_suffix_or_error(filepath):
+  def _parse_step_suffix_and_shard_or_error(filepath):
     m = CHECKPOINT_REGEX.fullmatch(filepath)
     assert m is not None, (
         f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
@@ -107,20 +107,27 @@ def iterate_complete_steps_for_prefix(
       raise ValueError(f'Filepath {filepath!r} does not contain a step number.')
     step = int(m.group(2)[1:])
     suffix = m.group(3)
-    return step, suffix
+    # E.g. '-00001-of-00003' is (1, 3), files without shards are (0, 1).
+    shard, shard_count = map(int, re.findall('[0-9]+', m.group(4) or '0-of-1'))
+    return step, suffix, shard, shard_count
 
-  # Find set of (step, suffix) from the given prefix.
-  steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(prefix + '*')))
+  # Find set of (step, suffix, shard, shard_count) from the given prefix.
+  files = set(
+      map(_parse_step_suffix_and_shard_or_error, gfile.glob(prefix + '*')))
   # Find the steps where there is any associated temp file.
   workdir = os.path.dirname(prefix)
   pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
-  incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp))) - {None}
-  incomplete_steps = set(x[0] for x in incomplete_steps_and_suffixes)
-
+  incomplete_files = set(
+      map(_parse_step_suffix_and_shard_or_error, gfile.glob(pattern_tmp)))
+  incomplete_steps = set(x[0] for x in incomplete_files - {None})
+  # Find the steps and suffixes with some missing shard.
   complete = set(
-      x for x in steps_and_suffixes - {None} if x[0] not in incomplete_steps)
+      x for x in files - {None} if x[0] not in incomplete_steps)
+  missing_shards = set(
+      (step, suffix) for step, suffix, _, count in complete
+      if any((step, suffix, i, count) not in complete for i in range(count)))
+
+  complete = set(x[:2] for x in complete) - missing_shards
   for step in sorted(set(x[0] for x in complete), reverse=decreasing):
     if not suffixes.difference(set(x[1] for x in complete if x[0] == step)):
       yield step
-- 
2.43.0


From 8385a2b21b9a404f664fdbae1c4c629e1e95868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:10 +0000
Subject: [PATCH 5/8] fix: variables and their partitioning have the same
 structure in attacks

---
 vmoe/projects/adversarial_attacks/restore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index 6d9b7fc..9e3612a 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -150,6 +150,8 @@ def restore_from_config(
       intermediates = {}
     return variables, intermediates
   variables_shape, intermediates_shape = jax.eval_shape(_init)
+  # Depending on the version of FLAX, these are regular or frozen dicts.
+  variables_shape = flax.core.unfreeze(variables_shape)
   router_keys = set(intermediates_shape.keys())
   # Find how the variables are partitioned.
   variables_axis_resources = partitioning.tree_axis_resources_from_regexes(
@@ -161,12 +163,12 @@ def restore_from_config(
       lambda x, s: jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=s),
       variables_shape, variables_axis_resources)
   # TODO(jpuigcerver): Generalize this to models with other vars than params.
-  variables = flax.core.freeze({
+  variables = {
       'params':
           checkpoints.restore_checkpoint_partitioned(
               prefix=checkpoint_prefix,
               tree=variables_shape['params']),
-  })
+  }
   loss_fn = get_loss_including_auxiliary_fn(**config.get('loss'))
   return (flax_module, variables, variables_axis_resources, loss_fn,
           router_keys, extra_rng_keys)
-- 
2.43.0


From 5497d1994081a76f70e82cb738cc819ca5dbd35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:10 +0000
Subject: [PATCH 6/8] fix: tile the logical mesh so that the devices of each
 process are contiguous

---
 vmoe/partitioning.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vmoe/partitioning.py b/vmoe/partitioning.py
index 6a0a087..b0002ee 100644
--- a/vmoe/partitioning.py
+++ b/vmoe/partitioning.py
@@ -277,15 +277,18 @@ def get_logical_mesh_tile_by_process(
     hardware_mesh_local_shape: Tuple[int, ...]) -> Mesh:
   """Returns a logical mesh where all process' devices form a contiguous slice."""
   # Split each axis of the hardware mesh in
-  # (partitions_process, partitions_device, replica_process, replica_device).
-  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_P_D, Z_R_H, Z_R_D, Y_P_H, ...).
+  # (partitions_process, replica_process, partitions_device, replica_device).
+  # The devices of a process are contiguous in the hardware mesh, thus the
+  # process dimensions must precede the device dimensions, and the product of
+  # the latter must be the number of devices per process across the axis.
+  # For TPUs: (Z, Y, X, C) -> (Z_P_H, Z_R_H, Z_P_D, Z_R_D, Y_P_H, ...).
   def fn(p, r, l):
     # (p, r) are the number of (partitions, replicas) across a given axis.
     # l is the number of devices per process across a given axis.
     if p % l == 0:
-      return p // l, l, r, 1
+      return p // l, r, l, 1
     elif r % l == 0:
-      return 1, p, r // l, l
+      return p, r // l, 1, l
     else:
       raise ValueError(
           f'Neither p = {p}, nor r = {r} are multiples of l = {l}')
@@ -296,8 +299,8 @@ def get_logical_mesh_tile_by_process(
   # Put all partition_process axes first, then partition_devices axes, then
   # all replica_process axes, and finally all replica_device axes.
   devices = devices.transpose(tuple(range(0, 4 * hardware_mesh.ndim, 4)) +
-                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(2, 4 * hardware_mesh.ndim, 4)) +
+                              tuple(range(1, 4 * hardware_mesh.ndim, 4)) +
                               tuple(range(3, 4 * hardware_mesh.ndim, 4)))
   # Reshape devices to (num_partitions, num_replicas).
   num_partitions = np.prod(partitions)
-- 
2.43.0


From 9ea24b4e35e1b7085a1e8755592f7e3c39a3698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:10 +0000
Subject: [PATCH 7/8] fix: saves remove the leftovers of interrupted saves with
 other shards

---
 vmoe/checkpoints/partitioned.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index 2856c6e..887311b 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -204,6 +204,8 @@ def save_checkpoint(
   del ckpt_shard_to_lazy_array_chunks
 
   if makedirs:
+    if overwrite and jax.process_index() == 0:
+      _remove_leftovers(prefix, num_shards)
     _make_dir_sync(os.path.dirname(prefix))
   return base.save_multiple_checkpoints_async(
       filepath_to_data,
@@ -398,6 +400,27 @@ def _make_index_info(
                    shards=shards)
 
 
+def _remove_leftovers(prefix: str, num_shards: int):
+  # An interrupted save (e.g. of a job with a different number of processes)
+  # might have left files that the new one doesn't overwrite. As long as these
+  # are around, the step wouldn't be considered complete.
+  workdir, basename = os.path.split(prefix)
+  shards, temps = (
+      [(int(filepath[-5:]), filepath)
+       for filepath in base.gfile.glob(
+           os.path.join(workdir, f'{name}.data-?????-of-?????'))]
+      for name in (basename, f'.tmp.{basename}'))
+  shard_counts = collections.Counter(count for count, _ in shards)
+  leftovers = [filepath for count, filepath in shards
+               if count not in (num_shards, shard_counts[count])]
+  leftovers += [filepath for count, filepath in temps if count != num_shards]
+  # The index might refer to the shards that will be removed.
+  if leftovers and base.gfile.exists(prefix + '.index'):
+    leftovers.insert(0, prefix + '.index')
+  for filepath in leftovers:
+    base.gfile.remove(filepath)
+
+
 def _replace_jax_with_numpy_in_lazy_array_chunks(
     ckpt_shard_to_lazy_array_chunks: Dict[int, LazyArrayChunks],
 ):
-- 
2.43.0


From 0e28fad0bde1d6cb869af4688ec7501e1dce0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:31 +0000
Subject: [PATCH 8/8] fix: losses of routers with balanced experts have finite
 gradients

The importance and load losses squared a standard deviation, whose gradient is
NaN where it is zero: with a single expert, or with a group of tokens that are
all zero.
---
 vmoe/nn/routing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vmoe/nn/routing.py b/vmoe/nn/routing.py
index 9070a2c..bd0dfdc 100644
--- a/vmoe/nn/routing.py
+++ b/vmoe/nn/routing.py
@@ -151,10 +151,11 @@ class NoisyTopExpertsPerItemRouter(nn.Module):
   def _importance_auxiliary_loss(cls, gates: Array) -> Array:
     axis = tuple(range(gates.ndim - 1))  # All except last.
     importance_per_expert = jnp.sum(gates, axis=axis)
-    std_importance_per_expert = jnp.std(importance_per_expert)
+    var_importance_per_expert = jnp.var(importance_per_expert)
     mean_importance_per_expert = jnp.mean(importance_per_expert)
     # Compute coefficient of variation (i.e. std/mean) squared.
-    return (std_importance_per_expert / mean_importance_per_expert)**2
+    # Note: the variance, unlike the std, is differentiable when it is zero.
+    return var_importance_per_expert / mean_importance_per_expert**2
 
   @classmethod
   def _load_auxiliary_loss(cls, logits: Array, logits_noisy: Array,
@@ -180,7 +181,8 @@ class NoisyTopExpertsPerItemRouter(nn.Module):
     # We compute the average such probability for each expert over examples.
     p_mean = jnp.mean(p, axis=0)
     # Compute p_mean's coefficient of variation squared.
-    return (jnp.std(p_mean) / jnp.mean(p_mean))**2
+    # Note: the variance, unlike the std, is differentiable when it is zero.
+    return jnp.var(p_mean) / jnp.mean(p_mean)**2
 
 
 class NoisyTopItemsPerExpertRouter(nn.Module):
-- 
2.43.0

