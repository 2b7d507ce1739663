"""C15: evaluation metrics."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.evaluate import evaluator
from vlib.core import Sub, require, seeds
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 2700}
DEVICES = jax.devices()


class Dataset:
  """Iterator over a list of batches with the interface of clu's DatasetIterator."""

  def __init__(self, batches):
    self.batches, self.pos = batches, 0
    self.element_spec = {k: jax.ShapeDtypeStruct(v.shape, v.dtype) for k, v in batches[0].items()}

  def __iter__(self):
    return self

  def __next__(self):
    if self.pos >= len(self.batches):
      raise StopIteration
    self.pos += 1
    return {k: v.copy() for k, v in self.batches[self.pos - 1].items()}

  def reset(self):
    self.pos = 0


class Writer:
  def __init__(self):
    self.scalars = {}

  def write_scalars(self, step, scalars):
    self.scalars.setdefault(step, {}).update(scalars)


def apply_fn(variables, images, rngs=None, scale=1.0):
  p = variables['params']
  z = images.reshape(images.shape[0], -1) @ p['w'] + p['inner']['b']
  return z * scale, {'auxiliary_loss': 17.0}


def apply_ens(variables, images, rngs=None):
  """Two members: plain and negated logits, shifted."""
  z, m = apply_fn(variables, images)
  return jnp.stack([z, 1.0 - 0.5 * z], 1).reshape(2 * z.shape[0], -1), m


def z_ref(p, images):
  return images.reshape(len(images), 6).astype(np.float64) @ p['w'] + p['inner']['b']


LOSSES = {
    'row': lambda z, y: jnp.sum((z - y) ** 2, axis=-1),
    'class': lambda z, y: (z - y) ** 2,
    'deep': lambda z, y: jnp.stack([z * y, z + y, -y], -1),
    'signed': lambda z, y: z[:, 0] - y[:, -1],
    'xent': lambda z, y: -jnp.sum(y * jax.nn.log_softmax(z), -1),
    'ens': lambda z, y: jnp.sum((z.reshape(y.shape[0], 2, -1).mean(1) - y) ** 2, -1),
}


def loss_ref(kind, z, y):
  if kind in ('row', 'class', 'ens'):
    return ((z - y) ** 2).sum(-1)
  if kind == 'deep':
    return (z * y + z + y - y).sum(-1)
  if kind == 'signed':
    return z[:, 0] - y[:, -1]
  m = z.max(-1, keepdims=True)
  return -(y * (z - m - np.log(np.exp(z - m).sum(-1, keepdims=True)))).sum(-1)


@st.composite
def cases(draw):
  mesh = draw(st.sampled_from([[1, 1], [2, 1], [1, 2], [2, 2], [4, 1], [4, 2], [8, 1]]))
  nd = mesh[0] * mesh[1]
  ds = draw(st.lists(st.fixed_dictionaries(dict(
      mult=st.one_of(st.integers(1, 4), st.sampled_from([1, 2, 3, 4, 70, 300])), batches=st.integers(1, 5), pad=st.sampled_from(['none', 'tail', 'tail', 'random', 'random', 'most']), junk=st.sampled_from(['zero', 'big', 'big']), labels=st.sampled_from(['onehot', 'multi', 'none_some', 'mass']),
      vtype=st.sampled_from(['bool', 'bool', 'float32', 'int32']))), min_size=1, max_size=3))
  kind = draw(st.sampled_from(list(LOSSES)))
  calls = draw(st.lists(st.sampled_from(['same', 'new', 'extra']), min_size=1, max_size=3))
  return dict(mesh=mesh, nd=nd, ds=ds, loss=kind, calls=calls, C=draw(st.integers(1, 5)), perm=draw(st.booleans()), rngs=draw(st.sampled_from([[], ['dropout'], ['a', 'b']])), seed=draw(seeds), pred=draw(st.sampled_from(['argmax', 'argmin', 'const'])))


def batches_of(rng, d, nd, C):
  B = d['mult'] * nd
  out = []
  for i in range(d['batches']):
    img = rng.integers(-4, 5, (B, 2, 1, 3)).astype(np.float32)
    if d['labels'] == 'onehot':
      lab = np.eye(C, dtype=np.float32)[rng.integers(0, C, B)]
    else:
      lab = rng.integers(0, 2, (B, C)).astype(np.float32)
      if d['labels'] == 'mass':
        lab = rng.integers(0, 9, (B, C)).astype(np.float32) / 4
      if d['labels'] == 'none_some':
        lab *= rng.integers(0, 2, (B, 1))
    last = i == d['batches'] - 1
    if d['pad'] == 'none':
      v = np.ones(B, bool)
    elif d['pad'] == 'tail':
      v = np.arange(B) < (rng.integers(1, B + 1) if last else B)
    elif d['pad'] == 'random':
      v = rng.random(B) < 0.6
    else:
      v = rng.random(B) < 0.1
    junk = 0 if d['junk'] == 'zero' else 1000
    img[~v] = junk * rng.integers(1, 5, img[~v].shape)
    lab[~v] = (junk > 0) * 1.0
    out.append({'image': img, 'labels': lab, '__valid__': v.astype(d['vtype'])})
  if not any(b['__valid__'].any() for b in out):
    b = out[rng.integers(len(out))]
    b['__valid__'][rng.integers(B)] = 1
  return out


def params_of(rng, C):
  return {'w': rng.integers(-2, 3, (6, C)).astype(np.float32), 'inner': {'b': rng.integers(-8, 9, (C,)).astype(np.float32) / 8}}


PREDS = {'argmax': lambda z: jnp.argmax(z, -1), 'argmin': lambda z: jnp.argmin(z, -1), 'const': lambda z: jnp.zeros(z.shape[0], jnp.int32)}


def reference(case, batches, p):
  num = correct = loss = 0.0
  mass = 0.0
  for b in batches:
    v = b['__valid__'].astype(bool)
    z, y = z_ref(p, b['image'][v]), b['labels'][v].astype(np.float64)
    if case['loss'] == 'ens':
      z = (z + 1.0 - 0.5 * z) / 2
    l = loss_ref(case['loss'], z, y)
    pred = {'argmax': z.argmax(-1), 'argmin': z.argmin(-1), 'const': np.zeros(len(z), int)}[case['pred']] if len(z) else np.zeros(0, int)
    num += len(z)
    correct += y[np.arange(len(z)), pred].sum()
    loss += l.sum()
    mass += np.abs(l).sum()
  return correct / num, loss / num, num, mass / num


def run_datasets(case, ctx):
  rng = np.random.default_rng(case['seed'])
  devs = np.array(DEVICES)[rng.permutation(len(DEVICES))[:case['nd']]] if case['perm'] else np.array(DEVICES[:case['nd']])
  mesh = jax.sharding.Mesh(devs.reshape(case['mesh']), ('expert', 'replica'))
  data = {f'ds{i}' if i else 'val': batches_of(rng, d, case['nd'], case['C']) for i, d in enumerate(case['ds'])}
  ens = case['loss'] == 'ens'
  pred = (lambda z: PREDS[case['pred']](z.reshape(z.shape[0] // 2, 2, -1).mean(1))) if ens else PREDS[case['pred']]
  writer = Writer()
  datasets = {k: Dataset(v) for k, v in data.items()}
  on = [3 * i + 2 for i in range(len(case['calls']))]
  with mesh:
    action = evaluator.EvaluateMultipleDatasets(apply_fn=apply_ens if ens else apply_fn, loss_fn=LOSSES[case['loss']], label_pred_fn=pred, datasets=datasets, metric_writer=writer, rng_keys=case['rngs'], seed=case['seed'] % 1000, on_steps=on)
    p = params_of(rng, case['C'])
    for step in range(1, on[-1] + 1):
      kw = {}
      if step in on:
        how = case['calls'][on.index(step)]
        if how == 'new':
          p = params_of(rng, case['C'])
        if how == 'extra':
          kw = {'lr': 0.5, 'nothing': None}
      dp = jax.device_put(p, jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec()))
      action(step, params=dp, **kw)
      if step not in on:
        require(step not in writer.scalars, 'evaluation at a step not asked for', step=step)
        continue
      got = writer.scalars.get(step, {})
      for name, bs in data.items():
        acc, loss, num, mass = reference(case, bs, p)
        require(f'{name}/prec@1' in got and f'{name}/loss' in got, 'metrics of a dataset missing', dataset=name, got=sorted(got))
        npu.close(got[f'{name}/prec@1'], acc, f'accuracy of {name} at evaluation {on.index(step)}', rtol=2e-6, atol=1e-7)
        # Junk in padded examples must not be felt beyond rounding of valid ones.
        npu.close(got[f'{name}/loss'], loss, f'loss of {name} at evaluation {on.index(step)}', rtol=1e-5, atol=1e-5 * mass + 1e-6)
        ctx.more(1)
        if num < sum(len(b['labels']) for b in bs) or len(data) > 1 or on.index(step):
          ctx.nontriv(name, step)
      other = {k for k in got if k.endswith(('/prec@1', '/loss'))} - {f'{n}/{m}' for n in data for m in ('prec@1', 'loss')}
      require(not other, 'metrics of an unknown dataset', got=other)
      if kw:
        require(float(got.get('lr', -1)) == 0.5 and 'nothing' not in got, 'extra metrics', got=sorted(got))
      jax.tree_util.tree_map(lambda a, b: npu.exact(a, b, 'parameters after evaluation'), dp, p)


@st.composite
def step_cases(draw):
  return dict(B=draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.sampled_from([129, 257, 2049, 2051, 4097, 4099, 5003]))), pad=draw(st.sampled_from(['random', 'random', 'none', 'tail'])), C=draw(st.integers(1, 4)), steps=draw(st.integers(1, 5)), rngs=draw(st.sampled_from([['dropout'], ['a', 'b'], ['a', 'b', 'gating']])), seed=draw(seeds), loss=draw(st.sampled_from(['row', 'class', 'deep', 'xent'])), start=draw(st.sampled_from([0, 0, 5, 2049, 65537, 1000003])))


def run_step(case, ctx):
  """evaluate_step by itself: state accumulates from any start; randomness is never reused."""
  from vmoe import utils
  rng = np.random.default_rng(case['seed'])
  p = params_of(rng, case['C'])
  seen = []

  def fn(variables, images, rngs=None):
    require(set(rngs) == set(case['rngs']), 'rngs given to the model', got=sorted(rngs), want=case['rngs'])
    seen.append({k: tuple(np.asarray(jax.random.key_data(v) if jnp.issubdtype(v.dtype, jax.dtypes.prng_key) else v).ravel().tolist()) for k, v in rngs.items()})
    return apply_fn(variables, images)

  s0 = float(case['start'])
  state = evaluator.EvalState(num=jnp.float32(s0), sum_correct=jnp.float32(s0 / 2), sum_loss=jnp.float32(-s0), rngs=utils.make_rngs(tuple(case['rngs']), case['seed'] % 1000))
  bs = batches_of(rng, dict(mult=case['B'], batches=case['steps'], pad=case['pad'], junk='big', labels='multi', vtype='bool'), 1, case['C'])
  init = [tuple(np.asarray(v).ravel().tolist()) for v in state.rngs.values()]
  for b in bs:
    state = evaluator.evaluate_step(state, p, b['image'], b['labels'], b['__valid__'], fn, LOSSES[case['loss']], PREDS['argmax'])
  acc, loss, num, mass = reference(dict(loss=case['loss'], pred='argmax'), bs, p)
  npu.close(state.num, s0 + num, 'number of examples', rtol=1e-8)
  npu.close(state.sum_correct, s0 / 2 + acc * num, 'number of correct', rtol=1e-6)
  npu.close(state.sum_loss, -s0 + loss * num, 'sum of losses', rtol=1e-5, atol=1e-5 * mass * num + 1e-6 + 1e-6 * s0 * case['steps'])
  keys = [k for s in seen for k in s.values()]
  final = [tuple(np.asarray(v).ravel().tolist()) for v in state.rngs.values()]
  require(len(set(keys + final)) == len(keys) + len(final), 'randomness reused between evaluation steps', keys=keys, final=final)
  require(not set(final) & set(init), 'rngs of the state not advanced')
  if case['steps'] > 1:
    ctx.nontriv()


SUBS = [
    Sub('datasets', cases(), run_datasets, quick=110, thorough=3000),
    Sub('step', step_cases(), run_step, quick=60, thorough=2500),
]
