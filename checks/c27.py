"""C27: interrupted training resumes from the last saved step."""
import fractions
import math
import functools
import os
import shutil
import tempfile
import time
import unittest.mock as mock

import flax.linen as nn
import flax.serialization
import flax.traverse_util
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import orbax.checkpoint as ocp
from vmoe.checkpoints import partitioned
from vmoe.data import input_pipeline
from vmoe.train import train_state as train_state_module
from vmoe.train import trainer
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 3600}
BATCH = 8


class Crash(Exception):
  pass


class Tiny(nn.Module):
  """Small model with dropout and an auxiliary loss."""
  num_classes: int
  hidden: int = 5
  dropout: float = 0.0
  deterministic: bool = False

  @nn.compact
  def __call__(self, images):
    x = images.reshape(images.shape[0], -1)
    x = nn.tanh(nn.Dense(self.hidden, name='body')(x))
    x = nn.Dropout(self.dropout, deterministic=self.deterministic)(x)
    return nn.Dense(self.num_classes, name='head')(x), {'auxiliary_loss': jnp.mean(x**2)}


class TwoInputs(nn.Module):
  """Two-tower stand-in for contrastive training."""
  hidden: int = 5
  dropout: float = 0.0
  deterministic: bool = False

  @nn.compact
  def __call__(self, images, texts):
    x = nn.Dense(self.hidden, name='body')(images.reshape(images.shape[0], -1))
    x = nn.Dropout(self.dropout, deterministic=self.deterministic)(x)
    y = nn.Embed(7, self.hidden, name='head')(texts).mean(1)
    return x @ y.T, {}


class TrainData:
  """Endless training data: batch t is a function of t only."""

  def __init__(self, seed, start, fail_at=None, text=False):
    self.seed, self.t, self.fail_at, self.text = seed, start, fail_at, text
    self.element_spec = {k: jax.ShapeDtypeStruct(v.shape, v.dtype) for k, v in self.batch(0).items()}

  def batch(self, t):
    rng = np.random.default_rng([self.seed, t])
    out = {'image': rng.normal(size=(BATCH, 2, 2, 1)).astype(np.float32)}
    if self.text:
      out['text'] = rng.integers(0, 7, size=(BATCH, 3)).astype(np.int32)
    else:
      out['labels'] = np.eye(3, dtype=np.float32)[rng.integers(0, 3, size=BATCH)]
    return out

  def __iter__(self):
    return self

  def __next__(self):
    self.t += 1
    if self.t == self.fail_at:
      raise Crash(f'data of step {self.t}')
    return self.batch(self.t)

  def reset(self):
    raise HarnessError('training data is not reset')


class EvalData:
  """Two batches of validation data; can fail at its n-th pass."""

  def __init__(self, fail_pass=None):
    self.fail_pass, self.passes, self.pos = fail_pass, 0, 0
    self.element_spec = {k: jax.ShapeDtypeStruct(v.shape, v.dtype) for k, v in self.batch(0).items()}

  def batch(self, i):
    rng = np.random.default_rng(i)
    return {'image': rng.normal(size=(BATCH, 2, 2, 1)).astype(np.float32), 'labels': np.eye(3, dtype=np.float32)[rng.integers(0, 3, size=BATCH)],
            '__valid__': np.ones(BATCH, bool)}

  def __iter__(self):
    return self

  def reset(self):
    self.pos = 0

  def __next__(self):
    if self.pos == 0:
      self.passes += 1
      if self.passes == self.fail_pass:
        raise Crash('evaluation')
    if self.pos == 2:
      raise StopIteration
    self.pos += 1
    return self.batch(self.pos)


class Writer:

  def __init__(self, fail_at=None):
    self.scalars, self.fail_at = {}, fail_at

  def write_scalars(self, step, scalars):
    if step == self.fail_at and 'train/total_loss' in scalars:
      raise Crash('writer')
    self.scalars.setdefault(int(step), {}).update(scalars)

  def flush(self):
    pass


def make_mesh(shape):
  n = int(np.prod(shape))
  return jax.sharding.Mesh(np.asarray(jax.devices()[:n]).reshape(shape), ('expert', 'replica'))


def full_mesh(kind):
  n = len(jax.devices())
  return make_mesh([(n, 1), (1, n), (2, n // 2)][kind])


def flat(tree):
  return {k: v for k, v in flax.traverse_util.flatten_dict(flax.serialization.to_state_dict(tree), sep='/', keep_empty_nodes=True).items()
          if v is not flax.traverse_util.empty_node and v is not None}


def steps_on_disk(workdir):
  d = os.path.join(workdir, 'ckpt')
  return sorted(int(n) for n in os.listdir(d) if n.isdigit()) if os.path.isdir(d) else []


def load_step(workdir, step):
  with ocp.Checkpointer(ocp.PyTreeCheckpointHandler()) as c:
    path = os.path.join(workdir, 'ckpt', str(step), 'state')
    tree = c.metadata(path)
    tree = getattr(tree, 'item_metadata', tree)
    tree = getattr(tree, 'tree', tree)
    state = c.restore(path, restore_args=jax.tree_util.tree_map(lambda _: ocp.RestoreArgs(restore_type=np.ndarray), tree))
  with ocp.Checkpointer(ocp.JsonCheckpointHandler()) as c:
    it = c.restore(os.path.join(workdir, 'ckpt', str(step), 'dataset_iterator'))
  return {k: np.asarray(v) for k, v in flat(state).items()}, it


def same_state(got, want, what, exact):
  require(set(got) == set(want), f'{what}: leaves of the state', missing=sorted(set(want) - set(got))[:3], extra=sorted(set(got) - set(want))[:3])
  for k in want:
    if exact:
      npu.exact(got[k], want[k], f'{what}: {k}')
    else:
      npu.close(got[k], want[k], f'{what}: {k}', rtol=1e-4, atol=1e-6)


class Managers:
  """Records the checkpoint managers to wait for their background saves."""

  def __init__(self):
    self.real = ocp.CheckpointManager
    self.made = []

  def __call__(self, *a, **k):
    m = self.real(*a, **k)
    self.made.append(m)
    return m

  def close(self):
    for m in self.made:
      m.wait_until_finished()
      m.close()
    self.made = []


def train(cfg, workdir, mesh, data, writer, evals, contrastive=False):
  mod = trainer
  if contrastive:
    from vmoe.projects.contrastive import trainer as mod  # pylint: disable=g-import-not-at-top
  datasets = {'train': data}
  if evals is not None:
    datasets['val'] = evals
  mgr = Managers()
  try:
    with mock.patch.object(input_pipeline, 'get_datasets', lambda c: datasets), \
        mock.patch.object(input_pipeline, 'get_data_num_examples', lambda c: cfg['examples']), \
        mock.patch.object(ocp, 'CheckpointManager', mgr), mesh:
      config = ml_collections.ConfigDict({k: v for k, v in cfg.items() if k != 'examples'})
      mod.train_and_evaluate(config, workdir, mesh, writer)
  finally:
    mgr.close()


@st.composite
def history(draw):
  total = draw(st.integers(1, 7))
  every = draw(st.sampled_from([1, 2, 3, 4, 10]))
  crashes = []
  for _ in range(draw(st.integers(0, 3))):
    crashes.append(dict(kind=draw(st.sampled_from(['data', 'writer', 'eval', 'writer'])), at=draw(st.integers(1, 6)), litter=draw(st.booleans())))
  return dict(total=total, every=every, crashes=crashes, keep=draw(st.sampled_from([None, None, 1, 2])), multiple=draw(st.sampled_from([None, None, 2])),
              dropout=draw(st.sampled_from([0.0, 0.3])), opt=draw(st.sampled_from(['adam', 'sgd'])), mesh=draw(st.integers(0, 2)),
              init=draw(st.sampled_from([None, None, 'vmoe'])), mixup=draw(st.booleans()), seed=draw(st.integers(0, 1000)), prefetch=draw(st.sampled_from([1, 1, 2])),
              epochs=draw(st.booleans()), microsteps=draw(st.sampled_from([None, None, 2])), contrastive=draw(st.integers(0, 3)) == 0)


def make_config(case, tmp):
  con = case['contrastive']
  rngs = ['dropout']
  cfg = dict(
      examples=BATCH * 4 - 3,
      dataset={'train': {'batch_size': BATCH, 'prefetch_device': case['prefetch']}},
      model={'name': 'checks.c27.TwoInputs', 'dropout': case['dropout']} if con else {'name': 'checks.c27.Tiny', 'num_classes': 3, 'dropout': case['dropout']},
      optimizer=dict(name=case['opt'], learning_rate=dict(schedule='warmup_linear_decay', peak_value=0.3, end_value=0.0, warmup_steps=2), **({'momentum': 0.9} if case['opt'] == 'sgd' else {})),
      params_axis_resources=[('body/kernel', (None, None)), ('opt_state/.*/bias', ())],
      seed=case['seed'], save_checkpoint=dict(every_steps=case['every'], keep_last=case['keep'], keep_steps_multiple_of=case['multiple']),
      profile=dict(first_profile=10**6), report_progress=dict(every_steps=1), microsteps=case['microsteps'])
  if not con:
    cfg['loss'] = dict(name='softmax_xent')
    cfg['evaluate'] = dict(every_steps=1)
    if case['mixup']:
      cfg['mixup'] = dict(concentration=1.0)
      rngs.append('mixup')
  cfg['extra_rng_keys'] = tuple(rngs)
  total = case['total']
  if case['epochs']:
    # The smallest number of epochs that needs that many steps.
    cfg['train_epochs'] = ((total - 1) * BATCH + 1) / cfg['examples']
  else:
    cfg['train_steps'] = total
  source = None
  if case['init']:
    rng = np.random.default_rng(case['seed'] + 5)
    source = rng.normal(size=(4, 5)).astype(np.float32)
    cfg['initialization'] = dict(name='initialize_from_vmoe', prefix=os.path.join(tmp, 'source'), rules=[('old/w', 'params/body/kernel')],
                                 raise_if_target_unmatched=False)
  return cfg, source


def check_training(case, cfg, source, mesh, ref):
  """The uninterrupted run is the configured step on batch t at step t, from the seeded initialisation."""
  con, total = case['contrastive'], case['total']
  data = TrainData(case['seed'], 0, text=con)
  keys = ('image', 'text') if con else ('image', 'labels')
  sharding = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(('expert', 'replica')))
  first = data.batch(1)
  structs = tuple(jax.ShapeDtypeStruct(first[k].shape, first[k].dtype, sharding=sharding) for k in (keys if con else keys[:1]))
  model = TwoInputs(dropout=case['dropout'], deterministic=False) if con else Tiny(num_classes=3, dropout=case['dropout'], deterministic=False)
  if con:
    from vmoe.projects.contrastive import trainer as con_trainer  # pylint: disable=g-import-not-at-top
    step_fn = functools.partial(con_trainer.train_step, loss_fn=con_trainer.sigmoid_loss, microsteps=case['microsteps'])
  else:
    loss_fn = lambda x, y: -jnp.sum(y * jax.nn.log_softmax(x), axis=-1)
    step_fn = functools.partial(trainer.train_step, loss_fn=loss_fn, microsteps=case['microsteps'])
    if case['mixup']:
      step_fn = trainer.wrap_train_step_with_mixup(step_fn, partition_spec=jax.sharding.PartitionSpec(mesh.axis_names,), concentration=1.0)
  with mesh:
    create = trainer.make_create_train_state_fn(model=model, optimizer_config=cfg['optimizer'], input_shape_dtypes=structs, train_steps=total,
                                                extra_rng_keys=tuple(cfg['extra_rng_keys']), seed=case['seed'])
    state = jax.jit(create)()
    if source is not None:
      params = flax.core.unfreeze(state.params)
      params['body']['kernel'] = jnp.asarray(source)
      state = state.replace(params=flax.core.freeze(params) if isinstance(state.params, flax.core.FrozenDict) else params)
    same_state({k: np.asarray(v) for k, v in flat(state).items()}, ref[0], 'initial state', exact=False)
    step = jax.jit(step_fn)
    for t in range(1, total + 1):
      batch = data.batch(t)
      state, _ = step(state, *(jax.device_put(batch[k], sharding) for k in keys))
      got = {k: np.asarray(v) for k, v in flat(state).items()}
      require(set(got) == set(ref[t]), 'leaves of the state after a step', got=sorted(got)[:5], want=sorted(ref[t])[:5])
      for k in got:
        npu.close(ref[t][k], got[k], f'state of the uninterrupted run at step {t}: {k}', rtol=2e-3, atol=2e-4)


def run_history(case, ctx):
  tmp = tempfile.mkdtemp(prefix='c27_')
  try:
    _run_history(case, ctx, tmp)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def _run_history(case, ctx, tmp):
  cfg, source = make_config(case, tmp)
  con = case['contrastive']
  mesh = full_mesh(case['mesh'])
  total, every = case['total'], case['every']
  if source is not None:
    partitioned.save_checkpoint(os.path.join(tmp, 'source'), {'old': {'w': jnp.asarray(source)}}).get()
  new_eval = (lambda *a: None) if con else EvalData
  # The uninterrupted run, with every step saved.
  ref_dir = os.path.join(tmp, 'ref')
  ref_cfg = dict(cfg, save_checkpoint=dict(every_steps=1))
  writer = Writer()
  train(ref_cfg, ref_dir, mesh, TrainData(case['seed'], 0, text=con), writer, new_eval(), con)
  require(steps_on_disk(ref_dir) == list(range(total + 1)), 'steps saved by an uninterrupted run', got=steps_on_disk(ref_dir), total=total)
  ref, prev = {}, None
  for s in range(total + 1):
    ref[s], it = load_step(ref_dir, s)
    require(int(ref[s]['step']) == s, 'step of a saved state', got=int(ref[s]['step']), want=s)
    require(it == {'last_seen_index': s * BATCH}, 'last seen index', got=it, step=s)
    if prev is not None:
      require(not np.array_equal(prev['rngs/dropout'], ref[s]['rngs/dropout']), 'rngs advance with every step', step=s)
    prev = ref[s]
  if source is not None:
    npu.exact(ref[0]['params/body/kernel'], source, 'initialised parameter')
  check_training(case, cfg, source, mesh, ref)
  # The history of interrupted runs.
  work = os.path.join(tmp, 'work')
  saved, history_saved, nruns = -1, set(), 0
  for c in case['crashes'] + [None]:
    start = max(saved, 0)
    bound, data_fail, w_fail, e_fail = total, None, None, None
    if c is not None:
      at = start + c['at']
      if c['kind'] == 'data':
        data_fail = at
        # With prefetching the error surfaces while an earlier step is fetched.
        bound = max(at - (case['prefetch'] if case['prefetch'] > 1 else 1), start)
        if start + case['prefetch'] >= at:
          bound = start  # Fails when filling the prefetch buffer.
        if at > total and bound >= total:
          data_fail, bound = None, total
        ctx.event('crash_data')
      elif c['kind'] == 'writer' or con:
        w_fail, bound = at + 1, at  # The first step of a run is not reported.
        ctx.event('crash_writer')
      else:
        e_fail, bound = c['at'], at
        ctx.event('crash_eval')
      crashes = (data_fail or w_fail or e_fail) and (bound < total or (e_fail and bound <= total))
      if not crashes:
        data_fail = w_fail = e_fail = None
        bound = total
    data = TrainData(case['seed'], start, data_fail, text=con)
    writer = Writer(w_fail)
    crashed = False
    try:
      train(cfg, work, mesh, data, writer, new_eval(e_fail), con)
    except Crash:
      crashed = True
    nruns += 1
    should = bool(data_fail or w_fail or e_fail)
    if crashed != should:
      if c is not None and c['kind'] == 'data':
        raise HarnessError(f'crash {crashed} but expected {should}: {case} {c}')
      require(False, 'training swallowed an error' if should else 'training failed', case=c)
    if not crashed:
      require(max(writer.scalars, default=0) <= max(total, start + 1), 'steps reported', got=max(writer.scalars, default=0), total=total)
      done = {s for s, v in writer.scalars.items() if 'train/total_loss' in v}
      require(done | {start + 1} == set(range(start + 1, max(total, start + 1) + 1)), 'steps trained after a restart', got=sorted(done), start=start, total=total)
    # What must be on disk now.
    last = bound if crashed else total
    if last >= 0 and not history_saved:
      history_saved.add(0)
    history_saved |= {s for s in range(start + 1, last + 1) if s % every == 0}
    if not crashed:
      history_saved.add(total)
    on_disk = steps_on_disk(work)
    require(set(on_disk) <= history_saved, 'a step was saved that should not be', got=on_disk, want=sorted(history_saved))
    newest = max(history_saved)
    require(on_disk and on_disk[-1] == newest, 'the latest step to save is not there', got=on_disk, want=newest, every=every)
    if case['keep'] is None:
      require(set(on_disk) == history_saved, 'steps kept', got=on_disk, want=sorted(history_saved))
    else:
      recent = sorted(history_saved)[-case['keep']:]
      require(set(recent) <= set(on_disk), 'the most recent steps are kept', got=on_disk, want=recent)
      if case['multiple']:
        require({s for s in history_saved if s % case['multiple'] == 0} <= set(on_disk), 'multiples are kept', got=on_disk)
      elif not any(x and x['litter'] for x in case['crashes'][:nruns - 1]):
        # (How the library counts what a killed process left behind is its own business.)
        require(len(on_disk) <= case['keep'], 'too many steps kept', got=on_disk, keep=case['keep'])
    for s in on_disk:
      got, it = load_step(work, s)
      same_state(got, ref[s], f'state of step {s} after {nruns} runs', exact=False)
      require(it == {'last_seen_index': s * BATCH}, 'last seen index', got=it, step=s)
    saved = newest
    if c is not None and c['litter']:
      # What a process killed while saving the next step leaves behind.
      d = os.path.join(work, 'ckpt', f'{newest + every}.orbax-checkpoint-tmp-{int(time.time() * 1e6)}')
      shutil.copytree(os.path.join(work, 'ckpt', str(newest), 'state'), os.path.join(d, 'state.orbax-checkpoint-tmp-1'))
    if source is not None:
      # Resuming must not read the initialisation source again.
      for f in os.listdir(tmp):
        if f.startswith('source'):
          os.remove(os.path.join(tmp, f))
    if not crashed and c is not None:
      ctx.event('finished_early')
  ctx.nontriv('history', total, every, case['keep'], case['opt'], case['init'], con, *(f"{c['kind']}{c['at']}" for c in case['crashes']))


# ---------------------------------------------------------------- restoring
@st.composite
def restore_case(draw):
  return dict(steps=draw(st.lists(st.integers(0, 30), min_size=0, max_size=3, unique=True)), save_mesh=draw(st.integers(0, 2)), mesh=draw(st.integers(0, 2)),
              shard=draw(st.sampled_from([None, 'expert', 'replica', 'both'])), save_shard=draw(st.sampled_from([None, 'expert', 'replica'])), seed=draw(seeds),
              opt=draw(st.sampled_from(['sgd', 'adam'])), init=draw(st.sampled_from([None, None, 'body', 'all'])), active=draw(st.booleans()))


def regexes(shard):
  spec = {None: (), 'expert': ('expert',), 'replica': ('replica',), 'both': (('expert', 'replica'),)}[shard]
  return [('params/body/kernel', spec)] + ([('opt_state/.*body/kernel', spec)] if shard != 'expert' else [])


def expected_spec(key, shard):
  spec = {None: (), 'expert': ('expert',), 'replica': ('replica',), 'both': (('expert', 'replica'),)}[shard]
  if key == 'params/body/kernel' or (shard != 'expert' and key.startswith('opt_state/') and key.endswith('body/kernel')):
    return jax.sharding.PartitionSpec(*spec)
  return jax.sharding.PartitionSpec()


def run_restore(case, ctx):
  tmp = tempfile.mkdtemp(prefix='c27_')
  try:
    _run_restore(case, ctx, tmp)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def _run_restore(case, ctx, tmp):
  rng = np.random.default_rng(case['seed'])
  mesh0, mesh1 = full_mesh(case['save_mesh']), full_mesh(case['mesh'])
  n = len(jax.devices())
  shape = (n, 2, 2, 2)

  def init_fn(mesh):
    sharding = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(('expert', 'replica')))
    return trainer.make_create_train_state_fn(
        model=Tiny(num_classes=3, hidden=2), optimizer_config=dict(name=case['opt'], learning_rate=0.1),
        input_shape_dtypes=(jax.ShapeDtypeStruct(shape, jnp.float32, sharding=sharding),), train_steps=10, seed=case['seed'] % 1000, extra_rng_keys=('dropout', 'gating'))

  mgr = Managers()
  try:
    with mock.patch.object(ocp, 'CheckpointManager', mgr):
      manager = trainer.create_checkpoint_manager(workdir=os.path.join(tmp, 'w'), every_steps=1)
      states = {}
      with mesh0:
        scratch, none = trainer.restore_or_create_train_state(ckpt_manager=manager, initialize_fn=init_fn(mesh0), axis_resources_regexes=regexes(case['save_shard']), mesh=mesh0)
      require(none is None, 'no last seen index without checkpoint', got=none)
      fs = flat(scratch)
      require(int(fs['step']) == 0, 'first step', got=int(fs['step']))
      # The same seed gives the same initialisation, another one another.
      for s in sorted(case['steps']):
        new = {}
        for k, v in fs.items():
          a = np.asarray(v)
          if k == 'step':
            a = np.asarray(s, a.dtype)
          elif a.dtype.kind == 'f':
            a = rng.normal(size=a.shape).astype(a.dtype)
          else:
            a = rng.integers(0, 1000, size=a.shape).astype(a.dtype)
          new[k] = jax.device_put(a, v.sharding)
        states[s] = {k: np.asarray(v) for k, v in new.items()}
        full = dict(flax.traverse_util.flatten_dict(flax.serialization.to_state_dict(scratch), sep='/', keep_empty_nodes=True), **new)
        tree = flax.serialization.from_state_dict(scratch, flax.traverse_util.unflatten_dict(full, sep='/'))
        manager.save(s, items={'state': tree, 'dataset_iterator': {'last_seen_index': 7 * s + 1}}, force=True)
        manager.wait_until_finished()
      manager2 = trainer.create_checkpoint_manager(workdir=os.path.join(tmp, 'w'), every_steps=1)
      kw, src = {}, {}
      if case['init']:
        names = ['body/kernel'] if case['init'] == 'body' else ['body/kernel', 'body/bias', 'head/kernel', 'head/bias']
        src = {k: rng.normal(size=np.shape(fs['params/' + k])).astype(np.float32) for k in names}
        if not case['steps']:
          partitioned.save_checkpoint(os.path.join(tmp, 'src'), {'p': flax.traverse_util.unflatten_dict({k: jnp.asarray(v) for k, v in src.items()}, sep='/')}).get()
        kw['initialization_kwargs'] = dict(name='initialize_from_vmoe', prefix=os.path.join(tmp, 'src'), rules=[('p/(.*)', r'params/\1')], raise_if_target_unmatched=False)
      call = lambda: trainer.restore_or_create_train_state(
          ckpt_manager=manager2, initialize_fn=init_fn(mesh1), axis_resources_regexes=regexes(case['shard']), **({} if case['active'] else {'mesh': mesh1}), **kw)
      with mesh1:
        state, last = call()
  finally:
    mgr.close()
  require(isinstance(state, train_state_module.TrainState), 'type of the train state', got=type(state))
  got = flat(state)
  if case['steps']:
    s = max(case['steps'])
    want = states[s]
    require(last == 7 * s + 1, 'last seen index', got=last, want=7 * s + 1)
    require(int(state.step) == s, 'step restored', got=int(state.step), want=s)
  else:
    want = {k: np.asarray(v) for k, v in fs.items()}
    want.update({'params/' + k: v for k, v in src.items()})
    require(last is None, 'no last seen index without checkpoint', got=last)
  same_state({k: np.asarray(v) for k, v in got.items()}, want, 'restored state' if case['steps'] else 'created state', exact=bool(case['steps']))
  for k, v in got.items():
    require(isinstance(v, jax.Array), 'leaves are jax arrays', key=k, got=type(v))
    require(v.dtype == fs[k].dtype, 'dtype of a leaf', key=k, got=v.dtype, want=fs[k].dtype)
    w = jax.sharding.NamedSharding(mesh1, expected_spec(k, case['shard']))
    require(v.sharding.is_equivalent_to(w, v.ndim), 'sharding of a leaf', key=k, got=v.sharding, want=w)
  ctx.nontriv('restore', len(case['steps']), case['save_mesh'], case['mesh'], case['shard'], case['save_shard'], case['opt'], case['init'])


# -------------------------------------------- reusing parts of a train state
@st.composite
def reuse_case(draw):
  return dict(keep=draw(st.lists(st.booleans(), min_size=12, max_size=12)), seed=draw(seeds), opt=draw(st.sampled_from(['sgd', 'adam'])), mesh=draw(st.integers(0, 2)))


def run_reuse(case, ctx):
  mesh = full_mesh(case['mesh'])
  rng = np.random.default_rng(case['seed'])
  repl = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec())
  init = trainer.make_create_train_state_fn(
      model=Tiny(num_classes=3), optimizer_config=dict(name=case['opt'], learning_rate=0.1), input_shape_dtypes=(jax.ShapeDtypeStruct((4, 2, 2, 1), jnp.float32, sharding=repl),),
      train_steps=10, seed=case['seed'] % 1000, extra_rng_keys=('dropout',))
  with mesh:
    scratch = jax.jit(init)()
    shapes = jax.eval_shape(init)
  keys = sorted(flat(shapes))
  given = {k: rng.integers(-50, 50, size=np.shape(flat(shapes)[k])).astype(flat(shapes)[k].dtype) for i, k in enumerate(keys) if case['keep'][i % 12]}
  full = flax.traverse_util.flatten_dict(flax.serialization.to_state_dict(shapes), sep='/', keep_empty_nodes=True)
  for k in keys:
    full[k] = jax.device_put(given[k], repl) if k in given else jax.ShapeDtypeStruct(full[k].shape, full[k].dtype, sharding=repl)
  state = flax.serialization.from_state_dict(shapes, flax.traverse_util.unflatten_dict(full, sep='/'))
  out = trainer.create_or_reuse_train_state(train_state=state, initialize_fn=init, mesh=mesh)
  got = flat(out)
  want = {k: given.get(k, np.asarray(v)) for k, v in flat(scratch).items()}
  same_state({k: np.asarray(v) for k, v in got.items()}, want, 'partly reused state', exact=False)
  for k in given:
    npu.exact(np.asarray(got[k]), given[k], f'reused leaf {k}')
  if 0 < len(given) < len(keys):
    ctx.nontriv('reuse', tuple(case['keep']), case['opt'])


# ------------------------------------------------------------ steps, configs
@st.composite
def steps_case(draw):
  return dict(batch=draw(st.integers(1, 5000)), examples=draw(st.integers(1, 2_000_000)), steps=draw(st.sampled_from([None, None, None, 0, 1, 7, 10**6])),
              epochs=draw(st.one_of(st.none(), st.integers(0, 400), st.sampled_from([0.5, 0.25, 1.5, 7.0, 0.1, 0.001, 90.75]))))


def run_steps(case, ctx):
  kw = dict(train_batch_size=case['batch'], train_examples=case['examples'], train_steps=case['steps'], train_epochs=case['epochs'])
  st_, ep = case['steps'], case['epochs']
  bad = (not st_ and not ep) or (st_ is not None and ep is not None)
  try:
    steps, epochs = trainer.get_train_steps_and_epochs(**kw)
  except ValueError:
    require(bad, 'valid training length rejected', **kw)
    return
  require(not bad, 'contradictory or missing training length accepted', **kw)
  if st_:
    require(steps == st_, 'number of steps', got=steps, want=st_)
  else:
    exact = fractions.Fraction(ep) * case['examples'] / case['batch']
    want = {math.ceil(exact)}
    if abs(exact - round(exact)) < fractions.Fraction(1, 10**9) * max(1, abs(exact)):
      want |= {round(exact), math.ceil(ep * case['examples'] / case['batch'])}
    require(steps in want and isinstance(steps, (int, np.integer)), 'number of steps', got=steps, want=sorted(want), **{k: v for k, v in kw.items() if v})
  npu.close(epochs, steps * case['batch'] / case['examples'], 'number of epochs', rtol=1e-9)
  ctx.nontriv('steps', case['batch'], case['examples'], st_, ep)


SUBS = [
    Sub('steps', steps_case(), run_steps, quick=800, thorough=20000, max_shards=1),
    Sub('reuse', reuse_case(), run_reuse, quick=24, thorough=400),
    Sub('restore', restore_case(), run_restore, quick=40, thorough=800),
    Sub('history', history(), run_history, quick=24, thorough=600),
]
