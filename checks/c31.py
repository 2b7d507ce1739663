"""C31: hooks of the main trainer: schedules, reports, processes, model overrides, costs and the entry point."""
import importlib.util
import shutil
import sys
import tempfile
import types
import unittest.mock as mock

import absl.app
from clu import metric_writers
from clu import periodic_actions as clu_actions
import flax.linen as nn
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
from vmoe import multihost_utils
from vmoe import partitioning
from vmoe.evaluate import fewshot
from vmoe.train import periodic_actions
from vmoe.train import trainer
from checks.c15 import Dataset
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 2400}
VALID = '__valid__'


class Writer:

  def __init__(self):
    self.calls = []
    self.flushed = 0

  def write_scalars(self, step, scalars):
    self.calls.append((int(step), dict(scalars)))

  def flush(self):
    self.flushed += 1

  def close(self):
    self.flush()

  def at(self, step, key):
    return [s[key] for t, s in self.calls if t == step and key in s]


# ------------------------------------------------------------------ progress
names = st.sampled_from(['a', 'b', 'total_loss', 'train/x', 'c'])


def metric_tree(depth=2):
  leaf = st.tuples(st.sampled_from(['py', 'np', 'jax', 'int', 'bf16']), st.sampled_from([0.0, 1.0, -2.5, 0.125, 3.0, 1024.0])).map(list)
  return st.recursive(leaf, lambda c: st.dictionaries(names, c, min_size=1, max_size=3), max_leaves=5)


@st.composite
def progress_case(draw):
  n = draw(st.integers(1, 12))
  first = draw(st.sampled_from([1, 1, 2, 7, 10]))
  return dict(first=first, n=n, every=draw(st.sampled_from([None, 1, 2, 3, 5])), secs=draw(st.sampled_from([None, None, 2.5, 10.0])),
              on=sorted(draw(st.sets(st.integers(1, 20), max_size=3))), total=draw(st.sampled_from([None, first + n - 1, first + n - 1, first + n + 3])),
              dts=[draw(st.sampled_from([0.5, 1.0, 3.0])) for _ in range(n)], pidx=draw(st.sampled_from([0, 0, 0, 1, None])), here=draw(st.sampled_from([0, 0, 1])),
              metrics=[draw(st.one_of(st.none(), st.dictionaries(names, metric_tree(), max_size=3))) for _ in range(n)], default=draw(st.booleans()), hook=draw(st.booleans()),
              mem=draw(st.booleans()), timed=draw(st.booleans()), writer=draw(st.integers(0, 5)) > 0)


def build(m):
  if m is None:
    return None
  if isinstance(m, dict):
    return {k: build(v) for k, v in m.items()}
  kind, v = m
  return {'py': float(v), 'np': np.float32(v), 'jax': jnp.asarray(v, jnp.float32), 'int': int(v), 'bf16': jnp.asarray(v, jnp.bfloat16)}[kind]


def flatten(m, prefix=''):
  out = {}
  for k, v in (m or {}).items():
    if isinstance(v, dict):
      out.update(flatten(v, prefix + k + '/'))
    else:
      out[prefix + k] = float(int(v[1])) if v[0] == 'int' else float(v[1])
  return out


def unambiguous(m):
  """Two leaves may not get the same name (a key 'train/x' and nested train -> x)."""
  seen = []
  def walk(m, prefix):
    for k, v in (m or {}).items():
      if isinstance(v, dict):
        walk(v, prefix + k + '/')
      else:
        seen.append(prefix + k)
  walk(m, '')
  return len(seen) == len(set(seen))


def run_progress(case, ctx):
  if not all(unambiguous(m) for m in case['metrics']):
    return
  writer = Writer() if case['writer'] else None
  kw = dict(every_steps=case['every'], every_secs=case['secs'])
  if not case['default']:
    kw['process_index'] = case['pidx']
  pidx = 0 if case['default'] else case['pidx']
  last = case['first'] + case['n'] - 1
  fake_mem = types.SimpleNamespace(memory_usage=lambda max_usage=True: 12.0)
  with mock.patch.object(jax, 'process_index', lambda *a, **k: case['here']), \
      mock.patch.object(periodic_actions, 'memory_profiler', fake_mem if case['mem'] else None):
    if case['hook']:
      total = case['total'] or last
      action = trainer.create_progress_hook(writer=writer, first_step=case['first'], train_steps=total, on_steps=list(case['on']), **kw)
      on = set(case['on']) | {case['first'], total}
    else:
      total = case['total']
      action = periodic_actions.ReportProgress(writer=writer, num_train_steps=total, on_steps=list(case['on']), **kw)
      on = set(case['on']) | ({total} if total is not None else set())
    t, prev_t = 100.0, None
    fired = []
    for i in range(case['n']):
      step = case['first'] + i
      t += case['dts'][i]
      before = len(writer.calls) if writer else 0
      if case['timed'] and i == 0:
        with action.timed('part', wait_jax_async_dispatch=False):
          pass
      m = build(case['metrics'][i])
      args = {} if m is None else {'scalar_metrics': m}
      got = action(step, t, **args)
      # The first call never triggers; the period restarts with every report.
      want = False
      if prev_t is None:
        prev_t = t
      else:
        want = bool((case['every'] and step % case['every'] == 0) or (case['secs'] is not None and t - prev_t > case['secs']) or step in on)
      if pidx is not None and pidx != case['here']:
        want = False
      require(bool(got) == want, 'progress is reported at the wrong steps', step=step, got=got, want=want)
      if not want:
        require(not writer or len(writer.calls) == before, 'metrics written without a report', step=step)
        continue
      prev_t = t
      fired.append(step)
      if writer is None:
        continue
      new = writer.calls[before:]
      require(all(s == step for s, _ in new), 'metrics are written for another step', got=[s for s, _ in new], want=step)
      scal = {}
      for _, s in new:
        require(not set(s) & set(scal), 'a metric is written twice', got=sorted(set(s) & set(scal)))
        scal.update(s)
      expected = flatten(case['metrics'][i])
      extra = {'steps_per_sec', 'uptime'} | ({'host_memory_mb'} if case['mem'] else set()) | ({'uptime_part'} if case['timed'] else set())
      require(set(scal) == set(expected) | extra, 'metrics reported', got=sorted(scal), want=sorted(set(expected) | extra))
      for k, v in expected.items():
        require(isinstance(scal[k], float) and scal[k] == v, 'value of a reported metric', key=k, got=scal[k], want=v)
      ctx.more(1)
  if fired:
    ctx.nontriv(case['first'], case['n'], case['every'], case['secs'], tuple(fired), len(flatten(case['metrics'][fired[0] - case['first']])))


# ------------------------------------------------------------- single process
@st.composite
def single_case(draw):
  return dict(pidx=draw(st.sampled_from([None, 0, 1, 2])), here=[draw(st.integers(0, 2)) for _ in range(draw(st.integers(1, 8)))], ret=draw(st.booleans()), profile=draw(st.booleans()),
              all=draw(st.booleans()), first=draw(st.integers(1, 6)), steps=draw(st.integers(1, 3)))


def run_single(case, ctx):
  calls = []

  def inner(*a, **k):
    calls.append((a, k))
    return case['ret']
  kw = {} if case['pidx'] is None else {'process_index': case['pidx']}
  action = periodic_actions.SingleProcessPeriodicAction(periodic_action=inner, **kw)
  owner = case['pidx'] or 0
  n = 0
  for i, here in enumerate(case['here']):
    with mock.patch.object(jax, 'process_index', lambda *a, here=here, **k: here):
      got = action(i, extra=i)
    if here == owner:
      n += 1
      require(got is case['ret'] and len(calls) == n and calls[-1] == ((i,), {'extra': i}), 'the action runs once, with the given arguments, on its process', got=got, calls=calls[-1:])
    else:
      require(got is False and len(calls) == n, 'the action runs only on its process', got=got)
  if case['profile']:
    started, stopped = [], []
    tmp = tempfile.mkdtemp(prefix='c31_')
    try:
      prof = types.SimpleNamespace(start=lambda logdir, **kw: started.append((cur[0], str(logdir))), stop=lambda *a, **k: stopped.append(cur[0]) or 'url', collect=lambda **kw: started.append((cur[0], str(kw.get('logdir')))))
      cur = [0]
      with mock.patch.object(clu_actions, 'profiler', prof):
        opts = dict(first_profile=case['first'], every_secs=None)
        if not case['all']:
          opts.update(num_profile_steps=case['steps'], profile_duration_ms=0)
        here = case['here'][0]
        with mock.patch.object(jax, 'process_index', lambda *a, **k: here):
          hook = trainer.create_profile_hook(workdir=tmp, **({'all_processes': True} if case['all'] else {}), **opts)
          for s in range(1, 12):
            cur[0] = s
            hook(s)
      if case['all'] or here == 0:
        require([s for s, _ in started] == [case['first']] and started[0][1] == tmp, 'profiling starts at the configured step', got=started, want=case['first'])
        if not case['all']:
          require(stopped == [case['first'] + case['steps']], 'profiling ends after the configured steps', got=stopped, want=case['first'] + case['steps'])
      else:
        require(not started and not stopped, 'profiling only runs on the first process', got=started)
    finally:
      shutil.rmtree(tmp, ignore_errors=True)
  ctx.nontriv(case['pidx'], tuple(case['here']), case['profile'], case['all'])


# --------------------------------------------------------------------- models
class Recorded(nn.Module):
  """Model that returns its options through its outputs."""
  num_classes: int = 3
  scale: float = 1.0
  nested: dict = None
  deterministic: bool = False

  @nn.compact
  def __call__(self, images):
    w = self.param('w', nn.initializers.ones, (1,))
    x = images.reshape(images.shape[0], -1).sum(-1, keepdims=True) * w * self.scale
    flag = 0.0 if self.deterministic else 1000.0
    extra = (self.nested or {}).get('deep', {}).get('value', 0.0)
    k = self.num_classes or 2
    return x * jnp.arange(1, k + 1, dtype=jnp.float32)[None] + flag + extra, {}


options = st.fixed_dictionaries({}, optional={'scale': st.sampled_from([0.5, 2.0, 3.0]), 'num_classes': st.sampled_from([3, 4, 5, None]),
                                               'nested': st.fixed_dictionaries({}, optional={'deep': st.fixed_dictionaries({}, optional={'value': st.sampled_from([1.0, 4.0]), 'other': st.integers(0, 3)}), 'x': st.integers(0, 2)})})


@st.composite
def model_case(draw):
  return dict(base=draw(options), over=draw(st.one_of(st.none(), options)), det=draw(st.booleans()), plain=draw(st.booleans()), call=draw(st.integers(0, 3)) == 0, noname=draw(st.integers(0, 6)) == 0, locked=draw(st.booleans()))


def merge(a, b):
  out = dict(a)
  for k, v in (b or {}).items():
    out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
  return out


def outputs(opts, det, images):
  x = np.asarray(images, np.float64).reshape(images.shape[0], -1).sum(-1, keepdims=True) * opts.get('scale', 1.0)
  return x * np.arange(1, (opts.get('num_classes', 3) or 2) + 1)[None] + (0.0 if det else 1000.0) + (opts.get('nested') or {}).get('deep', {}).get('value', 0.0)


def run_model(case, ctx):
  base = {k: v for k, v in case['base'].items()}
  if case['noname']:
    try:
      trainer.create_flax_model(config=ml_collections.ConfigDict(base), deterministic=True)
    except KeyError:
      ctx.nontriv('noname')
      return
    require(False, 'a model without name is accepted')
  name = 'checks.c31.Recorded'
  want = base
  if case['call'] and 'scale' not in base and 'scale' not in (case['over'] or {}):
    name += '(scale=7.0)'
    want = dict(base, scale=7.0)
  config = ml_collections.ConfigDict(dict(base, name=name))
  over = None if case['over'] is None else ml_collections.ConfigDict(case['over'])
  if case['locked']:
    config.lock()
  before, over_before = config.to_json(), over.to_json() if over is not None else None
  merged = trainer.override_base_config(config, over)
  require(config.to_json() == before and (over is None or over.to_json() == over_before), 'overriding changed the given configurations')
  require(merged.to_dict() == merge(dict(base, name=name), case['over'] or {}), 'overridden configuration', got=merged.to_dict(), want=merge(dict(base, name=name), case['over'] or {}))
  want = merge(want, case['over'])
  given = merged if not case['plain'] else merged.to_dict()
  net = trainer.create_flax_model(config=given, deterministic=case['det'])
  if not case['plain']:
    require(given.get('name') == name, 'building a model changed its configuration')
  images = np.arange(12, dtype=np.float32).reshape(2, 2, 3)
  v = net.init(jax.random.PRNGKey(0), images)
  got, _ = net.apply(v, images)
  npu.close(np.asarray(got), outputs(want, case['det'], images), 'model built from its configuration', rtol=1e-5, atol=1e-4)
  # What is done to the result does not reach the base.
  with merged.unlocked():
    merged.scale = 99.0
    if 'nested' in merged:
      merged.nested.deep = ml_collections.ConfigDict({'value': 55.0})
  require(config.to_json() == before, 'the overridden configuration shares parts with the given one')
  ctx.nontriv(str(sorted(base)), str(case['over']), case['det'], case['plain'])


# ------------------------------------------------------------------ evaluation
@st.composite
def eval_case(draw):
  first = draw(st.sampled_from([1, 1, 3, 6]))
  total = first + draw(st.integers(0, 8))
  return dict(first=first, total=total, every=draw(st.sampled_from([None, 1, 2, 3, 4])), on=draw(st.one_of(st.none(), st.lists(st.integers(1, 14), max_size=3))), base=draw(options), over=draw(st.one_of(st.none(), options)),
              fover=draw(st.one_of(st.none(), options)), seed=draw(seeds), fevery=draw(st.sampled_from([None, 1, 2, 5])), fewshot=draw(st.booleans()), cost=draw(st.booleans()), keys=draw(st.sampled_from([[], ['gating'], ['dropout', 'gating']])),
              names=draw(st.lists(st.sampled_from(['val', 'test', 'v2']), min_size=1, max_size=2, unique=True)))


def softmax_xent(z, y):
  z = np.asarray(z, np.float64)
  m = z.max(-1, keepdims=True)
  return -(y * (z - m - np.log(np.exp(z - m).sum(-1, keepdims=True)))).sum(-1)


def run_eval(case, ctx):
  rng = np.random.default_rng(case['seed'])
  base = dict(case['base'], name='checks.c31.Recorded')
  merged = merge(case['base'], case['over'])
  K = merged.get('num_classes', 3) or 2
  n = len(jax.devices())
  B = 2 * n
  data, raw = {}, {}
  for name in case['names']:
    bs = []
    for _ in range(int(rng.integers(1, 3))):
      bs.append({'image': rng.normal(size=(B, 2, 2, 1)).astype(np.float32) * 0.1, 'labels': np.eye(K, dtype=np.float32)[rng.integers(0, K, size=B)], VALID: rng.random(B) < 0.8})
    bs[0][VALID][0] = True
    raw[name], data[name] = bs, Dataset(bs)
  writer = Writer()
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(-1, 1), ('expert', 'replica'))
  cfg = ml_collections.ConfigDict(base)
  before = cfg.to_json()
  seen = []
  with mesh:
    progress = periodic_actions.ReportProgress(every_steps=None, every_secs=None)
    loss, eval_loss, pred = trainer.get_loss_fn(name='softmax_xent')
    kw = {} if case['on'] is None else {'on_steps': list(case['on'])}
    hook, eval_cfg = trainer.create_evaluation_hook(
        base_model_config=cfg, writer=writer, progress_hook=progress, datasets=data, loss_fn=eval_loss, label_pred_fn=pred, first_step=case['first'], train_steps=case['total'], extra_rng_keys=list(case['keys']),
        model_overrides=None if case['over'] is None else ml_collections.ConfigDict(case['over']), every_steps=case['every'], **kw)
    require(cfg.to_json() == before, 'the evaluation hook changed the configuration of the model')
    require(eval_cfg.to_dict() == merge(base, case['over']), 'configuration of the evaluated model', got=eval_cfg.to_dict())
    fkw = {}
    if case['fewshot']:
      fkw = dict(shots=[1], l2_regs=[1.0], datasets={'t': ('n', 'a', 'b')}, every_steps=case['fevery'], batch_size=4, process='x', **kw)
      class FakeAction:  # Records the construction and the calls; the action itself is C17's.
        def __init__(self, *, apply_fn, rng_keys, on_steps, every_steps, metric_writer, **k):
          self.apply_fn, self.on, self.every, self.kw = apply_fn, set(on_steps), every_steps, k
          require(list(rng_keys) == case['keys'] and metric_writer is writer, 'options of the few-shot hook')
        def __call__(self, step, **k):
          seen.append((step, k))
      patch = mock.patch.object(fewshot, 'FewShotPeriodicAction', FakeAction)
    else:
      patch = mock.patch.object(fewshot, 'FewShotPeriodicAction', None)
    with patch:
      fhook, fcfg = trainer.create_fewshot_hook(base_model_config=eval_cfg, writer=writer, progress_hook=progress, first_step=case['first'], train_steps=case['total'], extra_rng_keys=list(case['keys']),
                                                model_overrides=None if case['fover'] is None else ml_collections.ConfigDict(case['fover']), **fkw)
    require(fcfg.to_dict() == merge(merge(base, case['over']), case['fover']), 'configuration of the few-shot model', got=fcfg.to_dict())
    require(eval_cfg.to_dict() == merge(base, case['over']), 'the few-shot hook changed the configuration of the evaluated model')
    on = set(case['on'] or []) | {case['first'], case['total']}
    if case['fewshot']:
      require(fhook.on == on and fhook.every == case['fevery'], 'few-shot steps', got=(sorted(fhook.on), fhook.every), want=(sorted(on), case['fevery']))
      require(fhook.kw['shots'] == [1] and fhook.kw['l2_regs'] == [1.0] and fhook.kw['process'] == 'x', 'options of the few-shot hook', got=fhook.kw)
      img = rng.normal(size=(2, 2, 2, 1)).astype(np.float32)
      fo = merge(merged, case['fover'])
      z, _ = fhook.apply_fn({'params': {'w': jnp.full((1,), 2.0)}}, img, rngs={k: jax.random.PRNGKey(0) for k in case['keys']})
      npu.close(np.asarray(z), outputs(dict(fo, scale=fo.get('scale', 1.0) * 2.0), True, img), 'model of the few-shot hook', rtol=1e-5, atol=1e-4)
    else:
      require(fhook(3, variables={}) is None, 'without options there is no few-shot evaluation')
    for step in range(case['first'], case['total'] + 1):
      w = float(step)
      cost = {'flops': 10.0 * step} if case['cost'] else {}
      cost['nothing'] = None
      count = len(writer.calls)
      hook(step, params={'w': jnp.full((1,), w)}, **cost)
      new = writer.calls[count:]
      want_fire = bool((case['every'] and step % case['every'] == 0) or step in on)
      fired = any(f'{n}/loss' in s for _, s in new for n in case['names'])
      require(fired == want_fire, 'steps at which the model is evaluated', step=step, got=fired, want=want_fire)
      if not fired:
        require(not new, 'metrics written without evaluation')
        continue
      scal = {}
      for t, s in new:
        require(t == step, 'step of the evaluation metrics', got=t, want=step)
        scal.update(s)
      if case['cost']:
        require(scal.get('flops') == 10.0 * step, 'training cost in the evaluation metrics', got=scal.get('flops'))
      require('nothing' not in scal, 'unknown costs are not reported')
      for name in case['names']:
        num = correct = total = 0.0
        for b in raw[name]:
          z = outputs(dict(merged, scale=merged.get('scale', 1.0) * w), True, b['image'])
          l = softmax_xent(z, b['labels'])
          num += b[VALID].sum()
          total += (l * b[VALID]).sum()
          correct += ((z.argmax(-1) == b['labels'].argmax(-1)) * b[VALID]).sum()
        npu.close(scal[f'{name}/loss'], total / num, f'evaluation loss of {name}', rtol=1e-4, atol=1e-5)
        npu.close(scal[f'{name}/prec@1'], correct / num, f'evaluation precision of {name}', rtol=1e-5, atol=1e-6)
      ctx.more(1)
  ctx.nontriv(case['first'], case['total'], case['every'], str(case['over']), case['fewshot'], len(case['names']))


# --------------------------------------------------------------------- costs
def run_cost(case, ctx):
  ana = {}
  if case['flops'] is not None:
    ana['flops'] = case['flops']
  if case['secs'] is not None:
    ana['optimal_seconds'] = case['secs']
  compiled = types.SimpleNamespace(cost_analysis=lambda: ana)
  with mock.patch.object(jax, 'device_count', lambda *a, **k: case['devices']):
    fn = trainer.make_train_cost_fn(compiled)
    for step in case['steps']:
      got = fn(step)
      want = {}
      if case['flops'] is not None and case['flops'] > 0:
        want['flops'] = case['flops'] * step * case['devices']
      if case['secs'] is not None and case['secs'] > 0:
        want['device_seconds'] = case['secs'] * step * case['devices']
      require(set(got) == set(want), 'costs reported', got=got, want=want)
      for k in want:
        require(abs(got[k] - want[k]) <= 1e-9 * abs(want[k]), 'training cost up to a step', key=k, got=got[k], want=want[k])
  ctx.nontriv(case['flops'], case['secs'], case['devices'], tuple(case['steps']))


@st.composite
def cost_case(draw):
  v = st.sampled_from([None, -1.0, 0.0, 1e-3, 1.0, 3.5e12, 7.0])
  return dict(flops=draw(v), secs=draw(v), devices=draw(st.sampled_from([1, 2, 8, 32])), steps=draw(st.lists(st.sampled_from([0, 1, 2, 7, 1000, 123457]), min_size=1, max_size=4)))


# --------------------------------------------------------------------- barrier
@st.composite
def barrier_case(draw):
  part = st.one_of(st.text(max_size=6), st.sampled_from(['training', 'ckpt', 'first', 'last', 'completed', 'é', '1', '2']))
  parts = draw(st.lists(part, min_size=1, max_size=3))
  other = list(parts)
  if draw(st.booleans()):
    # A barrier with a similar name.
    kind = draw(st.sampled_from(['replace', 'append', 'drop', 'case', 'swap']))
    i = draw(st.integers(0, len(parts) - 1))
    if kind == 'replace':
      other[i] = draw(part)
    elif kind == 'append':
      other.append(draw(part))
    elif kind == 'drop' and len(other) > 1:
      del other[i]
    elif kind == 'case':
      other[i] = other[i].swapcase()
    else:
      other = other[::-1]
  sep = draw(st.sampled_from([':', ':', '-', '/', ' ', '']))
  return dict(name=sep.join(parts), other=sep.join(other), main=draw(st.integers(0, 2)), here=draw(st.integers(0, 2)), devices=draw(st.integers(1, 3)))


class World:
  """Stands for the sum over the devices of all processes."""

  def __init__(self):
    self.seen, self.announced = [], None

  def pmap(self, fun=None, *a, **k):
    def call(x):
      x = np.asarray(x)
      self.seen.append(x)
      total = x.sum(0) + (0 if self.announced is None else self.announced.sum(0))
      return np.broadcast_to(total, x.shape).astype(x.dtype)
    return call


def fresh_multihost(world):
  """The module with the collective sum replaced."""
  spec = importlib.util.spec_from_file_location('verif_multihost', multihost_utils.__file__)
  mod = importlib.util.module_from_spec(spec)
  with mock.patch.object(jax, 'pmap', world.pmap):
    spec.loader.exec_module(mod)
  return mod


def run_barrier(case, ctx):
  """Only this process exists: if it is not the main one, nobody announces the barrier, which has to be noticed."""
  kw = {'main_process': case['main']} if case['main'] else {}
  with mock.patch.object(jax, 'process_index', lambda *a, **k: case['here']):
    try:
      multihost_utils.sync_devices(case['name'], **kw)
      failed = False
    except ValueError:
      failed = True
  should = case['here'] != case['main'] and case['name'] != ''   # (The empty name has the checksum 0.)
  require(failed == should, 'barrier', failed=failed, should=should, name=case['name'])
  # Two processes: the main one announces `name`, this one waits at `other`.
  world = World()
  mod = fresh_multihost(world)
  outcome = []
  for index, name in ((case['main'], case['name']), (case['main'] + 1, case['other'])):
    with mock.patch.object(jax, 'process_index', lambda *a, **k: index), mock.patch.object(jax, 'local_device_count', lambda *a, **k: case['devices']):
      try:
        mod.sync_devices(name, **kw)
        outcome.append(True)
      except ValueError:
        outcome.append(False)
    if len(world.seen) != len(outcome):
      # The sum over the devices is not done with a pmap any more.
      ctx.event('other_collective')
      return
    world.announced = world.seen[0]
  require(outcome[0], 'the main process failed at its own barrier', name=case['name'])
  require(outcome[1] == (case['name'] == case['other']), 'processes at different barriers', name=case['name'], other=case['other'], passed=outcome[1])
  ctx.nontriv(case['name'], case['other'], case['main'], case['here'])


# ------------------------------------------------------------------ entry point
@st.composite
def app_case(draw):
  return dict(parts=draw(st.sampled_from([1, 2, 4, 4, 8, 128])), crash=draw(st.booleans()), here=draw(st.sampled_from([0, 0, 1])), contrastive=draw(st.booleans()))


class Boom(Exception):
  pass


_FLAGS = {}


def app_module():
  if 'app' not in _FLAGS:
    try:
      import imp  # pylint: disable=g-import-not-at-top,unused-import
    except ImportError:
      # The installed ml_collections imports it for config_flags; it is not used here.
      sys.modules['imp'] = types.ModuleType('imp')
    from vmoe import app  # pylint: disable=g-import-not-at-top
    _FLAGS['app'] = app
  return _FLAGS['app']


def run_app(case, ctx):
  app = app_module()
  tmp = tempfile.mkdtemp(prefix='c31_')
  config = ml_collections.ConfigDict({'num_expert_partitions': case['parts'], 'x': 3})
  made, seen = [], []

  def create(logdir=None, just_logging=False, **kw):
    w = Writer()
    made.append((logdir, bool(just_logging), w))
    return w

  def main(cfg, workdir, mesh, writer):
    env = jax.interpreters.pxla.thread_resources.env.physical_mesh
    seen.append((cfg, workdir, mesh, writer, env))
    writer.write_scalars(1, {'a': 1.0})
    if case['crash']:
      raise Boom()
  fl = types.SimpleNamespace(workdir=tmp, config=config, jax_xla_backend=None)
  devices = jax.devices()
  prng = jax.config.jax_default_prng_impl
  logc = jax.config.jax_log_compiles
  try:
    with mock.patch.object(app, 'FLAGS', fl), mock.patch.object(metric_writers, 'create_default_writer', create), mock.patch.object(jax, 'process_index', lambda *a, **k: case['here']), \
        mock.patch.object(partitioning, 'log_logical_mesh', lambda *a, **k: None), mock.patch.object(jax, 'local_devices', lambda *a, **k: devices[:2]), mock.patch.object(jax.config, 'config_with_absl', lambda *a, **k: None), \
        mock.patch.object(absl.app, 'run', lambda f, *a, **k: f([])):
      try:
        app.run(main)
        crashed = False
      except Boom:
        crashed = True
  finally:
    jax.config.update('jax_default_prng_impl', prng)
    jax.config.update('jax_log_compiles', logc)
    shutil.rmtree(tmp, ignore_errors=True)
  require(crashed == case['crash'], 'errors of the program reach the caller', got=crashed)
  require(len(seen) == 1, 'the program runs once')
  cfg, workdir, mesh, writer, env = seen[0]
  require(cfg is config and workdir == tmp, 'configuration and folder given to the program')
  require(len(made) == 1 and writer is made[0][2] and made[0][0] == tmp, 'metric writer given to the program')
  require(made[0][1] == (case['here'] > 0), 'only the first process writes metrics to disk', got=made[0][1], process=case['here'])
  require(made[0][2].flushed >= 1, 'metrics are flushed at the end, also after errors', crashed=crashed)
  n = len(jax.devices())
  require(mesh.axis_names == ('expert', 'replica') and mesh.devices.shape == (min(case['parts'], n), n // min(case['parts'], n)), 'mesh given to the program', got=mesh.devices.shape, parts=case['parts'])
  require(sorted(d.id for d in mesh.devices.flatten()) == sorted(d.id for d in jax.devices()), 'the mesh has all devices')
  require(env == mesh, 'the program runs inside of the mesh')
  ctx.nontriv(case['parts'], case['crash'], case['here'])


SUBS = [
    Sub('evaluation', eval_case(), run_eval, quick=60, thorough=800),
    Sub('progress', progress_case(), run_progress, quick=500, thorough=8000),
    Sub('single', single_case(), run_single, quick=150, thorough=2000),
    Sub('model', model_case(), run_model, quick=150, thorough=2000),
    Sub('cost', cost_case(), run_cost, quick=150, thorough=2000),
    Sub('barrier', barrier_case(), run_barrier, quick=100, thorough=1000),
    Sub('app', app_case(), run_app, quick=40, thorough=300),
]
