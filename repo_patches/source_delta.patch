From d1932959f8da579656d7e0c200dc21b1faefd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 01/14] fix: auxiliary loss keeps its shape when no loss weight
 is positive

The ensemble router maps the auxiliary loss over its members, which failed with
'axis 1 is out of bounds' when all loss weights were zero.
---
 vmoe/nn/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmoe/nn/routing.py b/vmoe/nn/routing.py
index 9070a2c..bad1a6b 100644
--- a/vmoe/nn/routing.py
+++ b/vmoe/nn/routing.py
@@ -249,4 +249,6 @@ def _weighted_sum(*args):
   # Note: some losses might be ill-defined in some scenarios (e.g. they may
   # have inf/NaN gradients), in those cases we don't apply them on the total
   # auxiliary loss, by setting their weights to zero.
-  return sum(x * w for w, x in args if w > 0)
+  # The result has the shape of the elements (e.g. one value per group) even if
+  # none of the weights is positive.
+  return sum((x * w for w, x in args if w > 0), jnp.zeros_like(args[0][1]))
-- 
2.43.0


From 74cfa71a61086b2055355ebb6b4bf86966cd58d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 02/14] fix: partitioned checkpoints with zero-size arrays can
 be restored

---
 vmoe/checkpoints/partitioned.py   | 4 ++--
 vmoe/checkpoints/serialization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmoe/checkpoints/partitioned.py b/vmoe/checkpoints/partitioned.py
index a7d0402..9911ee0 100644
--- a/vmoe/checkpoints/partitioned.py
+++ b/vmoe/checkpoints/partitioned.py
@@ -528,8 +528,8 @@ def _restore_local_buffers(
         ckpt_chunks.chunks[i], ckpt_chunks.global_slices[i]):
       for global_slice, buffer in local_buffers[i].items():
         intersect_slice = _intersect_slicend(global_slice, ckpt_slice)
-        if (global_slice == ckpt_slice or  # account for scalars with shape ().
-            intersect_slice):
+        # Note: the intersection of scalars, with shape (), is empty but not None.
+        if intersect_slice is not None:
           local_intersect_slice = tuple(
               slice(a.start - b.start, a.stop - b.start)
               for a, b in safe_zip(intersect_slice, global_slice))
diff --git a/vmoe/checkpoints/serialization.py b/vmoe/checkpoints/serialization.py
index 2c0bbe3..62e6c65 100644
--- a/vmoe/checkpoints/serialization.py
+++ b/vmoe/checkpoints/serialization.py
@@ -216,7 +216,7 @@ def _lazy_array_chunks_encode(
     subchunk_size = max(1, int(_MAX_CHUNK_SIZE / chunk.dtype.itemsize))
     subchunks = [
         chunk[i:i + subchunk_size]
-        for i in range(0, chunk.size, subchunk_size)
+        for i in range(0, max(1, chunk.size), subchunk_size)
     ]
     return [subchunks, global_slice]
 
-- 
2.43.0


From 0faa18cee1d25d6a5059ec32ccfc077ebcacf32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:24 +0000
Subject: [PATCH 03/14] fix: checkpoint discovery skips steps with temp files,
 missing shards or another prefix

A step whose index and some data shards were written, while other shards were
not even started or still temporary under another suffix, was reported as
complete. Files of a longer prefix (ckpt_best_3 for ckpt) were attributed to the
prefix, and a step with both unsuffixed and suffixed files raised a TypeError.
---
 vmoe/checkpoints/base.py | 60 +++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 01ff717..52d4085 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -13,8 +13,8 @@
 # limitations under the License.
 
 """Base functions for checkpointing."""
+import collections
 import functools
-import itertools
 import multiprocessing.pool
 import os
 import re
@@ -73,7 +73,7 @@ def iterate_complete_steps_for_prefix(
   """Iterates over steps with complete checkpoints from a given prefix.
 
   Complete steps are those for which there are not incomplete (temp) checkpoint
-  shards and for which all suffixes are present.
+  shards, no shard is missing, and for which all suffixes are present.
 
   E.g. If the prefix is '/dir/ckpt', the suffixes are ('.index', '.data') and
   the files in '/dir/' are: '/dir/ckpt_1.index', '/dir/ckpt_1.data',
@@ -94,31 +94,39 @@ def iterate_complete_steps_for_prefix(
     suffixes = (None,)
   suffixes = set(suffixes)
 
-  def _parse_step_and_suffix_or_error(filepath):
-    m = CHECKPOINT_REGEX.fullmatch(filepath)
-    assert m is not None, (
-        f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
-        f'This should not happen.')
-    if m.group(2) is None:
-      raise ValueError(f'Filepath {filepath!r} does not contain a step number.')
-    step = int(m.group(2)[1:])
-    suffix = m.group(3)
-    return step, suffix
-
-  # Find set of (step, suffix) from the given prefix.
-  steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(prefix + '*')))
-  # Remove any steps where there is an associated temp file.
+  def _parse_files(file_prefix):
+    """Yields (step, suffix, shard, shard_count) of the files with the prefix."""
+    for filepath in gfile.glob(file_prefix + '*'):
+      m = CHECKPOINT_REGEX.fullmatch(filepath)
+      assert m is not None, (
+          f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
+          f'This should not happen.')
+      if m.group(1) != file_prefix:
+        continue  # E.g. 'ckpt_best_1' is not a checkpoint of the prefix 'ckpt'.
+      if m.group(2) is None:
+        raise ValueError(
+            f'Filepath {filepath!r} does not contain a step number.')
+      shard, shard_count = 0, 1
+      if m.group(4) is not None:
+        shard, shard_count = map(int, m.group(4)[1:].split('-of-'))
+      yield int(m.group(2)[1:]), m.group(3), shard, shard_count
+
+  # Find the shards present for each (step, suffix, shard_count).
+  shards = collections.defaultdict(set)
+  for step, suffix, shard, shard_count in _parse_files(prefix):
+    shards[(step, suffix, shard_count)].add(shard)
+  # Steps where there is an associated temp file, or some missing shard.
   workdir = os.path.dirname(prefix)
-  pattern_tmp = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}') + '*'
-  incomplete_steps_and_suffixes = set(
-      map(_parse_step_and_suffix_or_error, gfile.glob(pattern_tmp)))
-
-  for step, group in itertools.groupby(
-      sorted(steps_and_suffixes - incomplete_steps_and_suffixes,
-             reverse=decreasing),
-      lambda x: x[0]):
-    if not suffixes.difference(set(x[1] for x in group)):
+  tmp_prefix = os.path.join(workdir, f'.tmp.{os.path.basename(prefix)}')
+  incomplete_steps = set(step for step, *_ in _parse_files(tmp_prefix))
+  step_to_suffixes = collections.defaultdict(set)
+  for (step, suffix, shard_count), present in shards.items():
+    step_to_suffixes[step].add(suffix)
+    if len(present) < shard_count:
+      incomplete_steps.add(step)
+
+  for step in sorted(step_to_suffixes, reverse=decreasing):
+    if step not in incomplete_steps and suffixes <= step_to_suffixes[step]:
       yield step
 
 
-- 
2.43.0


From 527c0a4105f7973949bb8e69c318341118b64490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:12 +0000
Subject: [PATCH 04/14] fix: meshes tiled by process give each process a
 contiguous slice

The axes were split as if the devices of a process were consecutive partitions
(or replicas) even when both the number of partitions and of replicas in the axis
are larger than one, so the promised contiguity did not hold, or valid
topologies were rejected.
---
 vmoe/partitioning.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vmoe/partitioning.py b/vmoe/partitioning.py
index 6a0a087..a32b857 100644
--- a/vmoe/partitioning.py
+++ b/vmoe/partitioning.py
@@ -282,13 +282,14 @@ def get_logical_mesh_tile_by_process(
   def fn(p, r, l):
     # (p, r) are the number of (partitions, replicas) across a given axis.
     # l is the number of devices per process across a given axis.
-    if p % l == 0:
-      return p // l, l, r, 1
-    elif r % l == 0:
-      return 1, p, r // l, l
+    # The devices of a process are l consecutive (partition, replica) pairs.
+    if r % l == 0:
+      return p, 1, r // l, l
+    elif l % r == 0 and p % (l // r) == 0:
+      return p // (l // r), l // r, 1, r
     else:
       raise ValueError(
-          f'Neither p = {p}, nor r = {r} are multiples of l = {l}')
+          f'l = {l} is neither a divisor nor a multiple of r = {r} with p = {p}')
   shape = functools.reduce(
       lambda a, b: a + b,
       map(fn, partitions, replicas, hardware_mesh_local_shape))
-- 
2.43.0


From f93fee948947f0e85a001e756e7001af20d04792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:08 +0000
Subject: [PATCH 05/14] fix: match params and updates by name when adding
 decayed weights

The flattened updates and params were paired by position, so with dicts
whose keys are in a different order (e.g. updates coming out of a jax
transformation and params in insertion order) a parameter was decayed using
the value of another one.
---
 vmoe/train/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vmoe/train/optimizer.py b/vmoe/train/optimizer.py
index f90ff58..655fd0c 100644
--- a/vmoe/train/optimizer.py
+++ b/vmoe/train/optimizer.py
@@ -75,11 +75,12 @@ def add_decayed_weights(
         flax.serialization.to_state_dict(updates), sep='/')
     flatparams = flax.traverse_util.flatten_dict(
         flax.serialization.to_state_dict(params), sep='/')
+    # Note: updates and params are matched by name, since the order of their
+    # keys may differ.
     flatupdates = dict(utils.safe_map(
-        lambda k, g, p: (k, g + weight_decay_fn(k) * p),
+        lambda k, g: (k, g + weight_decay_fn(k) * flatparams[k]),
         flatupdates.keys(),
-        flatupdates.values(),
-        flatparams.values()))
+        flatupdates.values()))
     updates = flax.serialization.from_state_dict(
         updates, flax.traverse_util.unflatten_dict(flatupdates, sep='/'))
     return updates, state
-- 
2.43.0


From 07fe019b1b7c7a7fb76d5db1595c73b25694a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:12 +0000
Subject: [PATCH 06/14] fix: big_vision_rsqrt learning rate stays at zero after
 the cooldown

Beyond decay_steps the linear cooldown continued with negative learning
rates.
---
 vmoe/train/schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmoe/train/schedule.py b/vmoe/train/schedule.py
index 91b8460..719d642 100644
--- a/vmoe/train/schedule.py
+++ b/vmoe/train/schedule.py
@@ -101,8 +101,9 @@ def big_vision_rsqrt_schedule(
 
   def _cooldown(count):
     # Note: count starts from 0, optax.join_schedules subtracts
-    # decay_steps - cooldown_steps.
-    return cooldown_peak_value * (1 - count / cooldown_steps)
+    # decay_steps - cooldown_steps. After decay_steps, the value stays at 0.
+    return cooldown_peak_value * jax.numpy.maximum(
+        0., 1 - count / cooldown_steps)
 
   schedules, boundaries = [], []
   # Warmup phase.
-- 
2.43.0


From d5fc7c1a1d027222c602f75586c5878a53b130b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:56 +0000
Subject: [PATCH 07/14] fix: mixup train step does not remove the mixup rng
 from the given state

When not jitted, wrap_train_step_with_mixup popped the 'mixup' key out of
the rngs dict of the caller's state, which could not be used again.
---
 vmoe/train/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmoe/train/trainer.py b/vmoe/train/trainer.py
index 3c5e581..cb4ebd2 100644
--- a/vmoe/train/trainer.py
+++ b/vmoe/train/trainer.py
@@ -934,7 +934,8 @@ def wrap_train_step_with_mixup(
       raise ValueError(f'Mixup requires a PRNGKey with the name "mixup", but '
                        f'only these were given: {sorted(state.rngs.keys())}')
     frozen_rngs = isinstance(state.rngs, flax.core.FrozenDict)
-    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else state.rngs
+    # Note: the rngs are copied, the given state must not be modified.
+    rngs = flax.core.unfreeze(state.rngs) if frozen_rngs else dict(state.rngs)
     # Apply mixup on images and labels.
     mixup_rng = rngs.pop('mixup')
     mixup_rng, next_mixup_rng = jax.random.split(mixup_rng)
-- 
2.43.0


From 3fe754e0b741d54a1ec70bf8241dde84a7e8085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:18 +0000
Subject: [PATCH 08/14] fix: regexes of a list are matched independently of
 each other

---
 vmoe/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vmoe/utils.py b/vmoe/utils.py
index ca89f12..543516a 100644
--- a/vmoe/utils.py
+++ b/vmoe/utils.py
@@ -181,9 +181,10 @@ def make_match_fn_from_regex_list(
     return None
   if isinstance(regexes, str):
     regexes = [regexes]
-  joined_regex = re.compile(
-      '(?:' + '|'.join([f'(?:{r})' for r in regexes]) + ')')
+  # Note: These cannot be joined in a single regex, since that would change the
+  # meaning of group numbers, group names and inline flags.
+  patterns = [re.compile(r) for r in regexes]
 
   def fn(string: str) -> bool:
-    return joined_regex.search(string) is not None
+    return any(pattern.search(string) is not None for pattern in patterns)
   return fn
-- 
2.43.0


From 609b65a78db018fe577a58b80ab243f5045cc183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:07 +0000
Subject: [PATCH 09/14] fix: models restored for adversarial attacks have
 variables of the same type as their axis resources

---
 vmoe/projects/adversarial_attacks/restore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmoe/projects/adversarial_attacks/restore.py b/vmoe/projects/adversarial_attacks/restore.py
index 6d9b7fc..0f39d2a 100644
--- a/vmoe/projects/adversarial_attacks/restore.py
+++ b/vmoe/projects/adversarial_attacks/restore.py
@@ -150,6 +150,8 @@ def restore_from_config(
       intermediates = {}
     return variables, intermediates
   variables_shape, intermediates_shape = jax.eval_shape(_init)
+  # Use plain dicts for the variables, their axis resources and their shapes.
+  variables_shape = flax.core.unfreeze(variables_shape)
   router_keys = set(intermediates_shape.keys())
   # Find how the variables are partitioned.
   variables_axis_resources = partitioning.tree_axis_resources_from_regexes(
@@ -161,12 +163,12 @@ def restore_from_config(
       lambda x, s: jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=s),
       variables_shape, variables_axis_resources)
   # TODO(jpuigcerver): Generalize this to models with other vars than params.
-  variables = flax.core.freeze({
+  variables = {
       'params':
           checkpoints.restore_checkpoint_partitioned(
               prefix=checkpoint_prefix,
               tree=variables_shape['params']),
-  })
+  }
   loss_fn = get_loss_including_auxiliary_fn(**config.get('loss'))
   return (flax_module, variables, variables_axis_resources, loss_fn,
           router_keys, extra_rng_keys)
-- 
2.43.0


From 845452ef2582a2c1f99ae60082f52014dc63886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 10/14] fix: the ImageNet-21k pre-training config names the
 mixup size as the trainer expects it

---
 vmoe/configs/vmoe_paper/pretrain_imagenet21k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py b/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
index cb6d3a2..d2c3ebd 100644
--- a/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
+++ b/vmoe/configs/vmoe_paper/pretrain_imagenet21k.py
@@ -73,7 +73,7 @@ def get_config():
   config.train_epochs = get_num_epochs(config.description)
   config.mixup = ml_collections.ConfigDict()
   config.mixup.concentration = 0.5
-  config.mixup.mixup_size = 2
+  config.mixup.size = 2
 
   # These control how the model parameters are partitioned across the device
   # mesh for running the models efficiently.
-- 
2.43.0


From a8b65e165b07343ca58686ea681a6c4f05d382e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 11/14] fix: the Soft MoE configs name the router with its
 module

---
 vmoe/projects/soft_moe/configs/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmoe/projects/soft_moe/configs/common.py b/vmoe/projects/soft_moe/configs/common.py
index db589c0..f066970 100644
--- a/vmoe/projects/soft_moe/configs/common.py
+++ b/vmoe/projects/soft_moe/configs/common.py
@@ -254,7 +254,7 @@ def get_vmoe_soft_router_config(
       'group_size': (image_size // patch_size)**2,
       'split_rngs': False,
       'router': {
-          'name': 'SoftRouter',
+          'name': 'vmoe.projects.soft_moe.router.SoftRouter',
           'capacity_factor': capacity_factor,
           'num_slots': num_slots,
           'partition_spec': (('expert', 'replica'),),
-- 
2.43.0


From 9d6fab6a67e39f1392df8b49b85fc13724a477a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:53 +0000
Subject: [PATCH 12/14] fix: parse_call rejects keyword arguments unpacked with
 "**"

---
 vmoe/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vmoe/utils.py b/vmoe/utils.py
index 543516a..0e44be9 100644
--- a/vmoe/utils.py
+++ b/vmoe/utils.py
@@ -80,6 +80,8 @@ def parse_call(string: str, default_module: Union[str, Any]):
     # Parses the positional and keyword arguments in strings like:
     # "foo.bar.baz(a, b=c)".
     args = tuple([ast.literal_eval(arg) for arg in expr.args])
+    if any(kwarg.arg is None for kwarg in expr.keywords):
+      raise ValueError(f'{string=!r} unpacks keyword arguments with "**".')
     kwargs = {
         kwarg.arg: ast.literal_eval(kwarg.value) for kwarg in expr.keywords
     }
-- 
2.43.0


From d1d9917c08abf7d2a2ff0fe8740205de76b5797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 13/14] fix: the attack program stores the examples of each
 process of several

---
 vmoe/projects/adversarial_attacks/lib.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vmoe/projects/adversarial_attacks/lib.py b/vmoe/projects/adversarial_attacks/lib.py
index 916771f..d45b19a 100644
--- a/vmoe/projects/adversarial_attacks/lib.py
+++ b/vmoe/projects/adversarial_attacks/lib.py
@@ -53,7 +53,7 @@ class ExampleStorage:
 
   def _transfer(self):
     for key, values in self._temp.items():
-      self._data[key].extend(jax.tree_util.tree_map(np.asarray, values))
+      self._data[key].extend(jax.tree_util.tree_map(_local_examples, values))
       self._temp[key] = []
 
   @property
@@ -76,6 +76,16 @@ class ExampleStorage:
           })
 
 
+def _local_examples(x) -> np.ndarray:
+  """Returns a Numpy array with the examples held by the current process."""
+  if not isinstance(x, jax.Array) or x.is_fully_addressable:
+    return np.asarray(x)
+  # The examples are sharded (only) along the first axis of the array. Shards
+  # held by several devices are only stored once.
+  shards = {s.index[0].start or 0: s.data for s in x.addressable_shards}
+  return np.concatenate([np.asarray(shards[i]) for i in sorted(shards)], axis=0)
+
+
 def get_dataset(config: ml_collections.ConfigDict) -> DatasetIterator:
   config = config.to_dict()
   _ = config.pop('prefetch_device', None)
-- 
2.43.0


From 39d1934af0369192cbe7043263240e3b05b1c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 14/14] fix: checkpoints are found in directories whose name
 has special characters

The prefix was taken as part of the glob pattern, so that no checkpoint was
found in e.g. '/runs/exp[1]', or those of another directory were.
---
 vmoe/checkpoints/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vmoe/checkpoints/base.py b/vmoe/checkpoints/base.py
index 52d4085..682b5da 100644
--- a/vmoe/checkpoints/base.py
+++ b/vmoe/checkpoints/base.py
@@ -15,6 +15,7 @@
 """Base functions for checkpointing."""
 import collections
 import functools
+import glob
 import multiprocessing.pool
 import os
 import re
@@ -96,7 +97,8 @@ def iterate_complete_steps_for_prefix(
 
   def _parse_files(file_prefix):
     """Yields (step, suffix, shard, shard_count) of the files with the prefix."""
-    for filepath in gfile.glob(file_prefix + '*'):
+    # Special characters in the prefix, e.g. '[', are not part of the pattern.
+    for filepath in gfile.glob(glob.escape(file_prefix) + '*'):
       m = CHECKPOINT_REGEX.fullmatch(filepath)
       assert m is not None, (
           f'Filepath {filepath!r} does not match CHECKPOINT_REGEX. '
-- 
2.43.0

