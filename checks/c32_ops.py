"""What the processes of a real cluster run for C32 (and the single-process references)."""
import os
from unittest import mock

import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
from vmoe import multihost_utils
from vmoe import partitioning
from vmoe.checkpoints import partitioned
from vmoe.data import input_pipeline
from vmoe.data import pjit_utils
from vmoe.evaluate import evaluator
from vmoe.evaluate import fewshot
from vmoe.train import periodic_actions
from checks import c09
from checks import c27

VALID = input_pipeline.VALID_KEY
c27.BATCH = 12
P = jax.sharding.PartitionSpec


def mesh_shapes(n):
  return [(n,), (1, n), (n, 1)] + [(a, n // a) for a in range(2, n) if n % a == 0]


def devices(n):
  """The first n devices (all, on a cluster) in the canonical order."""
  return jax.devices()[:n]


def make_mesh(m, n, names=None):
  devs = devices(n)
  order = np.random.default_rng(m['perm']).permutation(n) if m['perm'] else np.arange(n)
  shapes = [s for s in mesh_shapes(n) if names is None or len(s) == len(names)]
  shape = shapes[m['mesh'] % len(shapes)]
  return jax.sharding.Mesh(np.asarray([devs[i] for i in order], dtype=object).reshape(shape), names or tuple('xyz'[:len(shape)]))


def sharding(lay, shape, n):
  mesh = make_mesh(lay, n)
  spec, used = [], set()
  for i, size in enumerate(shape):
    a = lay['axes'][i]
    names = mesh.axis_names
    ax = names[a] if 0 <= a < len(names) else None
    if ax is not None and ax not in used and size % mesh.shape[ax] == 0:
      used.add(ax)
      b = names[(a + 1) % len(names)]
      if lay['perm'] % 2 and b not in used and size % (mesh.shape[ax] * mesh.shape[b]) == 0:
        used.add(b)
        spec.append((ax, b))
      else:
        spec.append(ax)
    else:
      spec.append(None)
  return jax.sharding.NamedSharding(mesh, P(*spec))


def global_array(v, s):
  return jax.make_array_from_callback(v.shape, s, lambda idx: v[idx])


# ------------------------------------------------------------- checkpoints
def save(prefix, spec, key, n, shards, chunk):
  kw = {} if chunk is None else {'max_chunk_bytes': chunk}
  tree = c09.build(spec, lambda s: global_array(c09.value(s), sharding(s[key], s['shape'], n)))
  partitioned.save_checkpoint(prefix, tree, num_shards=shards, **kw).get()
  multihost_utils.sync_devices('saved:' + prefix)
  return sorted(os.listdir(os.path.dirname(prefix)))


def restore(prefix, spec, key, n, conc):
  """Restores and compares each shard held here with what was saved; returns the number of shards."""
  tmpl = c09.build(spec, lambda s: jax.ShapeDtypeStruct(tuple(s['shape']), c09.np_dtype(s['dtype']), sharding=sharding(s[key], s['shape'], n)))
  got = partitioned.restore_checkpoint(prefix, tmpl, max_concurrent_bytes=conc)
  want = c09.build(spec, c09.Box)
  if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(c09.build(spec, lambda s: 0)):
    return f'structure {jax.tree_util.tree_structure(got)}'
  count = 0
  for g, s in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
    s = s.v
    v = c09.value(s)
    if g.shape != v.shape or g.dtype != v.dtype:
      return f'shape or dtype: {g.shape} {g.dtype} for {v.shape} {v.dtype}'
    w = sharding(s[key], s['shape'], n)
    if not g.sharding.is_equivalent_to(w, v.ndim):
      return f'sharding {g.sharding} instead of {w}'
    mine = w.addressable_devices_indices_map(v.shape)
    if {x.device for x in g.addressable_shards} != set(mine):
      return f'shards on {[x.device for x in g.addressable_shards]}'
    for x in g.addressable_shards:
      count += 1
      if np.asarray(x.data).tobytes() != np.ascontiguousarray(v[mine[x.device]]).tobytes():
        return f'content of the shard {x.index} of an array {v.shape} {v.dtype} on {x.device} differs'
  return count


# --------------------------------------------------------------------- mesh
def meshes(parts):
  """For each number of partitions: axis names, the canonical device positions, the processes (or the error)."""
  pos = {d: i for i, d in enumerate(jax.devices())}
  out = []
  for p in parts:
    try:
      m = partitioning.get_auto_logical_mesh(p, jax.devices())
    except ValueError as e:
      out.append(('error', str(e)[:200], None))
      continue
    partitioning.log_logical_mesh(m)
    out.append((tuple(m.axis_names), np.vectorize(lambda d: pos[d], otypes=[int])(m.devices).tolist(), np.vectorize(lambda d: d.process_index, otypes=[int])(m.devices).tolist()))
  return out


def barriers(names, mains):
  """For each barrier: did it raise?"""
  out = []
  for n, m in zip(names, mains):
    try:
      multihost_utils.sync_devices(n, main_process=m)
      out.append(False)
    except ValueError:
      out.append(True)
  return out


# --------------------------------------------------------------------- data
def rows(x, mesh, n):
  """The rows of a global batch that this process has to feed (in the order of its devices in the mesh)."""
  parts = np.split(x, n, axis=0)
  flat = list(mesh.devices.flatten())
  return np.concatenate([parts[i] for i, d in enumerate(flat) if d.process_index == jax.process_index()], axis=0)


class Data:
  """A dataset of which each process sees its own rows."""

  def __init__(self, batches, mesh, n, cut=True):
    self.batches = [{k: rows(v, mesh, n) if cut else v for k, v in b.items()} for b in batches]
    self.pos, self.resets = 0, 0
    self.element_spec = {k: jax.ShapeDtypeStruct(v.shape, v.dtype) for k, v in self.batches[0].items()} if batches else {}

  def __iter__(self):
    return self

  def __next__(self):
    if self.pos == len(self.batches):
      raise StopIteration
    self.pos += 1
    return self.batches[self.pos - 1]

  def reset(self):
    self.pos, self.resets = 0, self.resets + 1


def random_batches(case, n):
  rng = np.random.default_rng(case['seed'])
  size = n * case['mult']
  out = []
  for i, kind in enumerate(case['valid']):
    v = {'all': np.ones(size, bool), 'none': np.zeros(size, bool), 'tail': np.arange(size) < 1 + case['seed'] % size, 'random': rng.integers(0, 2, size).astype(bool),
         'head': np.arange(size) >= size - 1}[kind]
    x = rng.normal(size=(size, 3, 2)).astype(np.float32)
    y = np.eye(case['C'], dtype=np.float32)[rng.integers(0, case['C'], size)]
    x[~v] = 1e3  # Junk.
    out.append({'image': x, 'labels': y, VALID: v, 'label': y.argmax(-1).astype(np.int32)})
  if not any(b[VALID].any() for b in out):
    out[0][VALID][0] = True
    out[0]['image'][0] = 0.5
  return out


def prefetched(case, n):
  """The shards of the batches that this process holds after prefetching: (canonical device, first row, image, labels)."""
  mesh = make_mesh(case['mesh'], n)
  data = Data(random_batches(case, n), mesh, n)
  pos = {d: i for i, d in enumerate(devices(n))}
  struct = pjit_utils.get_dataset_shape_dtype_struct(data, mesh)
  out = []
  for b in pjit_utils.prefetch_to_device(iter(data), size=case['prefetch'], mesh=mesh):
    shards = {}
    for k, a in b.items():
      if a.shape != struct[k].shape or a.dtype != struct[k].dtype or not a.sharding.is_equivalent_to(struct[k].sharding, a.ndim):
        raise AssertionError(f'announced {struct[k]}, got {a.shape} {a.dtype} {a.sharding}')
      for s in a.addressable_shards:
        shards.setdefault(pos[s.device], {})[k] = (s.index[0].start or 0, np.asarray(s.data))
    out.append(shards)
  return out


def apply_fn(variables, images, rngs=None):
  x = images.reshape(images.shape[0], -1)
  return x @ variables['params']['w'], {}


def eval_params(case):
  rng = np.random.default_rng(case['seed'] + 1)
  return rng.normal(size=(6, case['C'])).astype(np.float32)


def loss_fn(logits, labels):
  return -jnp.sum(labels * jax.nn.log_softmax(logits), axis=-1)


def evaluate(case, n):
  """EvaluateMultipleDatasets on this process's share; returns the metrics per step."""
  mesh = make_mesh(case['mesh'], n)
  data = Data(random_batches(case, n), mesh, n)
  writer = c27.Writer()
  w = eval_params(case)
  with mesh:
    action = evaluator.EvaluateMultipleDatasets(apply_fn=apply_fn, loss_fn=loss_fn, label_pred_fn=lambda z: jnp.argmax(z, -1), datasets={'d': data}, metric_writer=writer, rng_keys=(), every_steps=1)
    spec = P(None, 'x') if case['C'] % mesh.shape['x'] == 0 and case['seed'] % 2 else P()
    params = {'w': global_array(w, jax.sharding.NamedSharding(mesh, spec))}
    for step in (1, 2):
      action(step, params=params)
  return {s: {k: float(v) for k, v in m.items() if k in ('d/prec@1', 'd/loss')} for s, m in writer.scalars.items()}


def few(case, n):
  mesh = make_mesh(case['mesh'], n)
  tr, te = [Data(random_batches(dict(case, seed=case['seed'] + i), n), mesh, n) for i in range(2)]
  writer = c27.Writer()
  w = np.random.default_rng(case['seed'] + 1).normal(size=(6, 4)).astype(np.float32)
  builder = mock.MagicMock()
  builder.info.features = {'label': mock.MagicMock(num_classes=case['C'])}
  with mesh, mock.patch.object(input_pipeline, 'get_dataset', lambda *, split, **kw: {'b': tr, 'c': te}[split]), mock.patch.object(fewshot.tfds, 'builder', lambda name: builder):
    action = fewshot.FewShotPeriodicAction(shots=[1, 3], l2_regs=[1.0], metric_writer=writer, datasets={'d': ('a', 'b', 'c')}, apply_fn=apply_fn, rng_keys=('dropout',), every_steps=1, prefetch_to_device=case['prefetch'])
    params = {'w': global_array(w, jax.sharding.NamedSharding(mesh, P()))}
    for step in (1, 2):
      action(step, variables={'params': params})
  return {s: {k: float(v) for k, v in m.items() if k.endswith('shot')} for s, m in writer.scalars.items()}


def actions(which, steps):
  """Which steps ran on this process."""
  ran = []

  class Act:

    def __call__(self, step, t=None, **kw):
      ran.append(step)
      return True
  writer = c27.Writer()
  single = periodic_actions.SingleProcessPeriodicAction(periodic_action=Act(), process_index=which)
  progress = periodic_actions.ReportProgress(process_index=which, num_train_steps=10, every_steps=1, writer=writer)
  everywhere = c27.Writer()
  progress_all = periodic_actions.ReportProgress(process_index=None, num_train_steps=10, every_steps=1, writer=everywhere)
  rets = []
  for s in steps:
    rets.append(bool(single(s)))
    progress(s, scalar_metrics={'a': s})
    progress_all(s, scalar_metrics={'a': s})
  key = lambda w: sorted(s for s, v in w.scalars.items() if 'a' in v)
  return ran, rets, key(writer), key(everywhere)


# ----------------------------------------------------------------- training
class TrainData(c27.TrainData):

  def __init__(self, seed, start, fail_at, mesh, n):
    self.mesh, self.n = mesh, n
    super().__init__(seed, start, fail_at)

  def batch(self, t):
    return {k: rows(v, self.mesh, self.n) for k, v in super().batch(t).items()}


class EvalData(c27.EvalData):

  def __init__(self, mesh, n):
    self.mesh, self.n = mesh, n
    super().__init__()

  def batch(self, i):
    return {k: rows(v, self.mesh, self.n) for k, v in super().batch(i).items()}


def train_config(case, n, tmp):
  cfg, _ = c27.make_config(dict(case, init=None, contrastive=False, epochs=False), tmp)
  mesh = make_mesh(case['mesh'], n, ('expert', 'replica'))
  e = mesh.shape['expert']
  cfg['params_axis_resources'] = [('body/kernel', ('expert',)) if 4 % e == 0 else ('body/kernel', ()), ('opt_state/.*/kernel', ())]
  return cfg, mesh


def train(case, n, workdir, start, fail_at):
  """Runs the training program; returns (crashed, metrics)."""
  cfg, mesh = train_config(case, n, workdir)
  writer = c27.Writer()
  crashed = False
  # The reference must not see more devices than the cluster has.
  try:
    with mock.patch.object(jax, 'device_count', lambda *a: n):
      c27.train(cfg, workdir, mesh, TrainData(case['seed'], start, fail_at, mesh, n), writer, EvalData(mesh, n))
  except c27.Crash:
    crashed = True
  keep = lambda k: k.startswith(('train/', 'val/')) and not k.endswith('secs') and 'per_device' not in k
  return crashed, {s: {k: float(v) for k, v in m.items() if keep(k)} for s, m in writer.scalars.items()}


# ------------------------------------------------------------------ attacks
def attack(case, n, workdir, prefix):
  """The attack program on a pixel-wise linear model; returns the files written and the metrics."""
  from vmoe.projects.adversarial_attacks import lib  # pylint: disable=g-import-not-at-top
  from vmoe.projects.adversarial_attacks import restore as rest  # pylint: disable=g-import-not-at-top
  mesh = rest.create_mesh(case['parts'])
  if n != jax.device_count():
    mesh = jax.sharding.Mesh(np.asarray(devices(n)).reshape(case['parts'], -1), ('expert', 'replica'))
  batches = random_batches(case, n)
  data = Data(batches, mesh, n)
  writer = c27.Writer()
  w = eval_params(case)

  class Model:

    def apply(self, variables, images, rngs=None, capture_intermediates=None):
      z, m = apply_fn(variables, images)
      return ((z, m), {}) if capture_intermediates is not None else (z, m)
  repl = jax.sharding.NamedSharding(mesh, P())
  variables = {'params': {'w': global_array(w, repl)}}
  config = ml_collections.ConfigDict(dict(
      dataset=dict(name='fake', split='x', process='', batch_size=len(batches[0]['image']), prefetch_device=case['prefetch']), restore={'from': 'checkpoint', 'prefix': prefix}, num_updates=case['updates'], max_epsilon=0.25,
      store_examples=dict(transfer_every_steps=case['every'])))
  loss = lambda logits, labels, metrics: loss_fn(logits, labels)
  restored = (Model(), variables, jax.tree_util.tree_map(lambda _: P(), variables), loss, (), ())
  with mock.patch.object(input_pipeline, 'get_dataset', lambda **kw: data), mock.patch.object(input_pipeline, 'get_data_num_examples', lambda *a, **kw: int(sum(b[VALID].sum() for b in batches))), \
      mock.patch.object(rest, 'restore_from_config', lambda *a, **kw: restored), mock.patch.object(rest, 'create_mesh', lambda *a: mesh):
    lib.run_pgd_attack(config, workdir, mesh, writer)
  return {s: {k: float(v) for k, v in m.items()} for s, m in writer.scalars.items()}, [[p for p, d in enumerate(mesh.devices.flatten()) if d.process_index == q] for q in range(jax.process_count())]

