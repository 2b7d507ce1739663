"""C21: training step, microsteps, mixup."""
import functools

import flax.core
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax
from vmoe.train import train_state
from vmoe.train import trainer
from vmoe.train import tree_summarizer
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 2700}
DEVICES = jax.devices()
ND = len(DEVICES)
P = jax.sharding.PartitionSpec


def key_tuple(v):
  return tuple(np.asarray(v).ravel().tolist())


# ---------------------------------------------------------------- train_step
@st.composite
def step_cases(draw):
  micro = draw(st.sampled_from([None, 0, -1, 1, 2, 3, 4]))
  m = micro if micro and micro > 0 else 1
  return dict(micro=micro, per=draw(st.integers(1, 3)), m=m, mesh=draw(st.sampled_from([[ND, 1], [2, ND // 2], [1, ND]])), steps=draw(st.integers(1, 3)), loss=draw(st.sampled_from(['softmax', 'square', 'ens'])), aux=draw(st.sampled_from([None, 'scalar', 'vector', 'matrix'])),
              opt=draw(st.sampled_from(['sgd', 'mom'])), rngs=draw(st.sampled_from([['dropout'], ['dropout', 'gating'], ['z']])), frozen=draw(st.booleans()), seed=draw(seeds), summ=draw(st.booleans()), jit=draw(st.sampled_from([True, True, False])), D=draw(st.integers(1, 4)), C=draw(st.integers(1, 4)))


def run_step(case, ctx):
  rng = np.random.default_rng(case['seed'])
  B, D, C = case['per'] * case['m'] * ND, case['D'], case['C']
  mesh = jax.sharding.Mesh(np.array(DEVICES).reshape(case['mesh']), ('expert', 'replica'))
  w = {'w': rng.normal(size=(D, C)), 'sub': {'b': rng.normal(size=(C,)), 'v': rng.normal(size=(D,))}}
  params = jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32), w)
  seen = []

  def apply_fn(variables, images, rngs=None):
    p = variables['params']
    require(set(rngs) == set(case['rngs']), 'rngs given to the model', got=sorted(rngs))
    for k in sorted(rngs):
      jax.debug.callback(lambda v, k=k: seen.append((k, key_tuple(v))), rngs[k])
    x = images.reshape(images.shape[0], -1)
    z = x @ p['w'] + p['sub']['b']
    metrics = {'layer': {'act': x @ p['sub']['v']}, 'flag': jnp.float32(3)}
    if case['aux']:
      a = 0.3 * (x @ p['sub']['v']) ** 2
      metrics['auxiliary_loss'] = jnp.mean(a) if case['aux'] == 'scalar' else a.reshape(-1, 1) if case['aux'] == 'vector' else jnp.stack([0.5 * a, 2.0 * a, 0.5 * a], axis=-1)
    if case['loss'] == 'ens':
      z = jnp.repeat(z, 2, axis=0) * jnp.tile(jnp.array([[1.0], [-2.0]]), (z.shape[0], 1))
    return z, metrics

  def loss_fn(z, y):
    if case['loss'] == 'softmax':
      return optax.softmax_cross_entropy(z, y)
    if case['loss'] == 'ens':
      return jnp.sum((z - jnp.repeat(y, 2, axis=0)) ** 2, -1)
    return (z - y) ** 2  # 2-D losses are averaged over everything.

  def grad_ref(p, x, y):
    z = x @ p['w'] + p['sub']['b']
    s = x @ p['sub']['v']
    if case['loss'] == 'softmax':
      e = np.exp(z - z.max(-1, keepdims=True))
      q = e / e.sum(-1, keepdims=True)
      main = -(y * np.log(q)).sum(-1).mean()
      dz = (y.sum(-1, keepdims=True) * q - y) / len(x)
    elif case['loss'] == 'ens':
      main = (((z - y) ** 2).sum(-1) + ((-2 * z - y) ** 2).sum(-1)).mean() / 2
      dz = (2 * (z - y) - 4 * (-2 * z - y)) / (2 * len(x))
    else:
      main = ((z - y) ** 2).mean()
      dz = 2 * (z - y) / y.size
    aux = 0.3 * (s ** 2).mean() if case['aux'] else 0.0
    dv = 0.6 * (x * s[:, None]).mean(0) if case['aux'] else np.zeros(D)
    return {'w': x.T @ dz, 'sub': {'b': dz.sum(0), 'v': dv}}, main, aux, s.mean()

  lr = 0.05
  tx = optax.sgd(lr) if case['opt'] == 'sgd' else optax.sgd(lr, momentum=0.5)
  rngs = {k: jax.random.PRNGKey(i + case['seed'] % 1000) for i, k in enumerate(case['rngs'])}
  first = {key_tuple(v) for v in rngs.values()}
  state = train_state.TrainState.create(apply_fn=apply_fn, params=flax.core.freeze(params) if case['frozen'] else params, tx=tx, rngs=rngs)
  summ = tree_summarizer.TreeSummarizer(rules=[('params_grads/sub/b$', 'norm'), ('^params/w$', 'sum')]) if case['summ'] and not case['frozen'] else None
  fn = functools.partial(trainer.train_step, loss_fn=loss_fn, microsteps=case['micro'], summarizer=summ)
  fn = jax.jit(fn) if case['jit'] else fn
  mom = jax.tree_util.tree_map(np.zeros_like, w)
  norm = lambda t: np.sqrt(sum((v ** 2).sum() for v in jax.tree_util.tree_leaves(t)))
  with mesh:
    for t in range(case['steps']):
      x = rng.normal(size=(B, D)).astype(np.float32)
      y = np.eye(C)[rng.integers(0, C, B)].astype(np.float32)
      if rng.random() < 0.5:
        y = rng.dirichlet(np.ones(C), B).astype(np.float32)
      sh = jax.sharding.NamedSharding(mesh, P(('expert', 'replica')))
      seen.clear()
      state, metrics = fn(state, jax.device_put(x[:, :, None], sh), jax.device_put(y, sh))
      jax.block_until_ready(state)
      jax.effects_barrier()
      g, main, aux, act = grad_ref(w, x.astype(np.float64), y.astype(np.float64))
      mom = jax.tree_util.tree_map(lambda m, d: d + (0.5 * m if case['opt'] == 'mom' else 0), mom, g)
      upd = jax.tree_util.tree_map(lambda m: -lr * m, mom)
      w = jax.tree_util.tree_map(lambda p, u: p + u, w, upd)
      what = f'step {t}'
      tol = dict(rtol=2e-4, atol=2e-5 * (1 + norm(w) + abs(main)))
      require(int(state.step) == t + 1, 'step counter', got=int(state.step), want=t + 1)
      jax.tree_util.tree_map(lambda a, b: npu.close(a, b, f'{what}: parameters', **tol), flax.core.unfreeze(state.params), w)
      want = {'main_loss': main, 'total_loss': main + aux, 'global_norm/grads': norm(g), 'global_norm/updates': norm(upd), 'global_norm/params': norm(w), 'flag': 3.0}
      if case['aux']:
        want['auxiliary_loss'] = aux
      for k, v in want.items():
        require(k in metrics, 'metric missing', metric=k, got=sorted(metrics))
        npu.close(metrics[k], v, f'{what}: metric {k}', **tol)
      npu.close(metrics['layer']['act'], act, f'{what}: metric of a layer', **tol)
      if summ:
        names = [k for k in metrics if k.startswith('params')]
        require(sorted(names) == ['params/w_sum', 'params_grads/sub/b_norm'], 'summaries', got=names)
        npu.close(metrics['params/w_sum'], w['w'].sum(), 'summary of the parameters', **tol)
        npu.close(metrics['params_grads/sub/b_norm'], norm(g['sub']['b']), 'summary of the gradients', **tol)
      # Randomness.
      used = set(seen)
      m = case['m']
      for k in case['rngs']:
        n = len({v for kk, v in used if kk == k})
        require(n == m, f'{what}: each microstep must get its own randomness', rng=k, distinct=n, microsteps=m)
      vals = {v for _, v in used}
      now = {key_tuple(v) for v in state.rngs.values()}
      require(len(vals) == m * len(case['rngs']), 'the same key under different names')
      require(set(state.rngs) == set(case['rngs']) and len(now) == len(case['rngs']), 'rngs of the new state', got=sorted(state.rngs))
      require(not now & (vals | first), f'{what}: rngs of the state not advanced')
      require(not vals & first or t == 0, f'{what}: randomness of a previous step reused')
      first |= vals | now
      ctx.more(1)
  if case['m'] > 1 or case['steps'] > 1 or case['aux']:
    ctx.nontriv()


# --------------------------------------------------------------------- mixup
@st.composite
def mixup_cases(draw):
  size = draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
  shape = draw(st.sampled_from([['b'], [1], ['d', 'b'], ['d', 1], [1, 1], [1, 'b']]))
  bad = draw(st.sampled_from([None] * 8 + ['conc', 'neg', 'axis', 'axisneg', 'short', 'batch', 'noncast']))
  nb = len(shape)
  return dict(size=size, shape=shape, d=draw(st.integers(1, 3)), b=draw(st.integers(1, 6)), axis=draw(st.integers(0, nb - 1)), conc=draw(st.sampled_from([0.05, 0.2, 1.0, 5.0, 100.0])), seed=draw(seeds), bad=bad, jit=draw(st.booleans()), tree=draw(st.sampled_from(['tuple', 'dict', 'nested'])))


def check_weights(W, n, size, what):
  """W[i]: weights of the n examples in output i; returns the (n, size) weights."""
  out = np.zeros((n, size))
  for i in range(n):
    rest = W[i].copy()
    if size <= n:
      out[i] = [W[i][(i + k) % n] for k in range(size)]
      for k in range(size):
        rest[(i + k) % n] = 0
      require(np.all(np.abs(rest) < 1e-6), f'{what}: mixed with other examples', row=W[i], i=i)
      require(np.all(np.diff(out[i]) <= 1e-6), f'{what}: the largest weight is not the one of the example itself', row=W[i], i=i)
    require(W[i].min() >= -1e-6 and abs(W[i].sum() - 1) < 1e-5, f'{what}: not a convex combination', row=W[i])
    require(W[i][i] >= 1 / size - 1e-5, f'{what}: own weight too small', row=W[i], i=i)
  return out


def run_mixup(case, ctx):
  rng = np.random.default_rng(case['seed'])
  sub = {'b': case['b'], 'd': case['d']}
  dims = [case['b']] if len(case['shape']) == 1 else [case['d'], case['b']]
  shape = [sub.get(s, s) for s in case['shape']] + [case['size']]
  axis = case['axis']
  n = dims[axis]
  N = int(np.prod(dims))
  ident = np.eye(N, dtype=np.float32).reshape(dims + [N])
  x = rng.normal(size=dims + [3, 2]).astype(np.float32)
  y = rng.normal(size=dims).astype(np.float32)
  tree = {'tuple': (ident, x, y), 'dict': {'i': ident, 'x': x, 'y': y}, 'nested': {'a': {'i': ident}, 'l': [x, y]}}[case['tree']]
  kw = dict(concentration=case['conc'], shape=tuple(shape), roll_axis=axis)
  bad = case['bad']
  if bad:
    if bad == 'conc':
      kw['concentration'] = 0.0
    elif bad == 'neg':
      kw['concentration'] = -case['conc']
    elif bad == 'axis':
      kw['roll_axis'] = len(dims)
    elif bad == 'axisneg':
      kw['roll_axis'] = -1
    elif bad == 'short':
      kw['shape'] = (case['size'],)
    elif bad == 'batch':
      tree = (ident, np.concatenate([x, x], axis=len(dims) - 1))
    elif bad == 'noncast':
      kw['shape'] = tuple([s + 7 for s in dims] + [case['size']])
      if min(dims) == 1:
        return  # Broadcastable.
    try:
      trainer.mixup(jax.random.PRNGKey(0), tree, **kw)
    except ValueError:
      ctx.event('rejected')
      return
    require(False, 'invalid mixup accepted', bad=bad, dims=dims, kw=kw)
  fn = lambda r, t: trainer.mixup(r, t, **kw)
  fn = jax.jit(fn) if case['jit'] else fn
  out = fn(jax.random.PRNGKey(case['seed']), tree)
  require(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(tree), 'structure of the mixed tree')
  oi, ox, oy = jax.tree_util.tree_leaves(out)
  W = npu.f64(oi).reshape(N, N)
  W4 = W.reshape(dims + dims)
  npu.close(npu.f64(ox).reshape(N, -1), W @ npu.f64(x).reshape(N, -1), 'arrays of the tree mixed with different weights', rtol=1e-4, atol=1e-5)
  npu.close(npu.f64(oy).reshape(N), W @ npu.f64(y).reshape(N), 'arrays of the tree mixed with different weights', rtol=1e-4, atol=1e-5)
  # Mixing is along the roll axis only, weights shared as the shape says.
  per = np.zeros(dims + [case['size']])
  for other in np.ndindex(*[d for i, d in enumerate(dims) if i != axis]):
    ix = list(other)
    ix.insert(axis, slice(None))
    block = W4[tuple(ix)]               # n x dims
    own = block[(slice(None),) + tuple(ix)]
    require(abs(own.sum() - n) < 1e-4, 'mixed across another axis', other=other)
    per[tuple(ix)] = check_weights(own, n, case['size'], 'mixup')
  if case['size'] <= n:
    for i, s in enumerate(shape[:-1]):
      if s == 1 and dims[i] > 1:
        npu.close(per, np.broadcast_to(np.take(per, [0], axis=i), per.shape), 'weights not shared along a broadcast axis', rtol=1e-5, atol=1e-6)
      elif s > 1 and case['conc'] < 10 and case['size'] > 1:
        require(np.ptp(per, axis=i).max() > 1e-6, 'weights not independent', axis=i)
  if case['size'] > 1 and n > 1:
    ctx.nontriv()


@st.composite
def dist_cases(draw):
  return dict(size=draw(st.sampled_from([2, 3])), conc=draw(st.sampled_from([0.1, 0.5, 1.0, 4.0])), seed=draw(seeds))


def run_dist(case, ctx):
  """The weights are Dirichlet(concentration) samples (sorted): second moment."""
  n, k, c = 3000, case['size'], case['conc']
  # Weights of the rolled examples read off digits: base 1, 0.., via k arrays.
  arr = [np.zeros(n, np.float32) for _ in range(k)]
  idx = np.arange(n) % k
  oh = np.eye(k, dtype=np.float32)[idx]
  out = trainer.mixup(jax.random.PRNGKey(case['seed']), (oh,), concentration=c, shape=(n, k))
  w = npu.f64(out[0])
  s2 = (w ** 2).sum(-1)[:n - k]  # sum of squared weights is invariant to their order
  want = (c + 1) / (k * c + 1)
  err = abs(s2.mean() - want)
  require(err < 6 * s2.std() / np.sqrt(len(s2)) + 1e-4, 'mixup weights are not distributed as asked', got=s2.mean(), want=want, concentration=c, size=k)
  ctx.nontriv()


@st.composite
def wrap_cases(draw):
  return dict(gran=draw(st.sampled_from(['batch', 'device', 'device', 'example', 'bogus'])), size=draw(st.sampled_from([2, 2, 3])), conc=draw(st.sampled_from([None, 0.0, 0.2, 1.0])), per=draw(st.integers(1, 4)), frozen=draw(st.booleans()), key=draw(st.sampled_from([True] * 6 + [False])), seed=draw(seeds), jit=draw(st.booleans()),
              spec=draw(st.booleans()))


def run_wrap(case, ctx):
  rng = np.random.default_rng(case['seed'])
  B = case['per'] * ND
  n = case['per']
  x = np.eye(B, dtype=np.float32)
  y = rng.normal(size=(B, 2)).astype(np.float32)
  rngs = {'dropout': jax.random.PRNGKey(1), 'gating': jax.random.PRNGKey(2)}
  if case['key']:
    rngs['mixup'] = jax.random.PRNGKey(case['seed'])
  rngs = flax.core.freeze(rngs) if case['frozen'] else rngs
  state = train_state.TrainState.create(apply_fn=None, params={'a': jnp.zeros(2)}, tx=optax.sgd(0.1), rngs=rngs)

  def inner(state, images, labels, tag=None):
    names = sorted(state.rngs)
    nr = {k: jax.random.fold_in(v, 7) for k, v in state.rngs.items()}
    nr = flax.core.freeze(nr) if isinstance(state.rngs, flax.core.FrozenDict) else nr
    return state.replace(step=state.step + 1, rngs=nr), {'images': images, 'labels': labels, 'n': len(names), 'tag': tag}

  mesh = jax.sharding.Mesh(np.array(DEVICES).reshape(ND, 1), ('expert', 'replica'))
  fn = trainer.wrap_train_step_with_mixup(inner, concentration=case['conc'], granularity=case['gran'], size=case['size'], partition_spec=P(('expert', 'replica')) if case['spec'] and case['gran'] != 'bogus' else None)
  on = bool(case['conc'])
  call = jax.jit(fn) if case['jit'] else fn
  mixkey = key_tuple(rngs['mixup']) if case['key'] else None
  seen = []
  with mesh:
    for t in range(2):
      try:
        new, m = call(state, x, y, tag=jnp.float32(5))
      except ValueError:
        require(on and (not case['key'] or case['gran'] == 'bogus'), 'a valid mixup step was rejected', case=case)
        ctx.event('rejected')
        return
      require(not (on and (not case['key'] or case['gran'] == 'bogus')), 'an invalid mixup step was accepted', case=case)
      require(float(m['tag']) == 5, 'other arguments')
      require(int(new.step) == 1 and int(state.step) == 0, 'state of the step')
      require(set(new.rngs) == set(rngs), 'rngs of the new state', got=sorted(new.rngs), want=sorted(rngs))
      require(set(state.rngs) == {'dropout', 'gating'} | ({'mixup'} if case['key'] else set()), 'rngs of the given state were modified', got=sorted(state.rngs))
      require(isinstance(new.rngs, flax.core.FrozenDict) == case['frozen'], 'type of the rngs')
      for k in ('dropout', 'gating'):
        npu.exact(new.rngs[k], jax.random.fold_in(rngs[k], 7), f'rng {k}')
      if not on:
        npu.exact(m['images'], x, 'images without mixup')
        npu.exact(m['labels'], y, 'labels without mixup')
        return
      npu.same_shape(m['images'], x.shape, 'mixed images')
      npu.same_shape(m['labels'], y.shape, 'mixed labels')
      W = npu.f64(m['images'])
      npu.close(m['labels'], W @ npu.f64(y), 'images and labels mixed differently', rtol=1e-4, atol=1e-5)
      require(key_tuple(new.rngs['mixup']) != mixkey, 'mixup rng not advanced')
      per = []
      for d in range(ND):
        blk = W[d * n:(d + 1) * n]
        own = blk[:, d * n:(d + 1) * n]
        require(abs(own.sum() - n) < 1e-4, 'examples of different devices are mixed', device=d)
        per.append(check_weights(own, n, case['size'], 'mixup step'))
      per = np.array(per)
      if case['size'] <= n:
        first = per[:1, :1] if case['gran'] == 'batch' else per[:, :1]
        if case['gran'] != 'example':
          npu.close(per, np.broadcast_to(first, per.shape), 'weights differ within the unit of mixing', rtol=1e-5, atol=1e-6)
        if case['gran'] != 'batch':
          require(np.ptp(per, axis=0).max() > 1e-6, 'devices do not draw their own weights')
        if case['gran'] == 'example' and n > 1:
          require(np.ptp(per, axis=1).max() > 1e-6, 'examples do not draw their own weights')
      seen.append(W)
      # Next step from the new state: other weights.
      if t == 0:
        npu.exact(call(state, x, y, tag=jnp.float32(5))[1]['images'], m['images'], 'the same state gives other weights')
        rngs = {k: v for k, v in new.rngs.items()}
        rngs = flax.core.freeze(rngs) if case['frozen'] else rngs
        mixkey = key_tuple(rngs['mixup'])
        state = state.replace(rngs=rngs)
  if case['size'] <= n and n > 1:
    require(np.abs(seen[0] - seen[1]).max() > 1e-7, 'two successive steps use the same mixing weights')
    ctx.nontriv()


# -------------------------------------------------------------------- losses
UNKNOWN_LOSSES = ['hinge', 'Softmax_xent', 'softmax', 'softmax_xent ', 'xent', '', 'ensemble_xent']


@st.composite
def loss_cases(draw):
  return dict(name=draw(st.sampled_from(['softmax_xent', 'sigmoid_xent', 'ensemble_softmax_xent', 'ensemble_sigmoid_xent'] * 2 + UNKNOWN_LOSSES)), M=draw(st.integers(1, 3)), B=draw(st.sampled_from([1, 3])), C=draw(st.sampled_from([2, 3])), seed=draw(seeds))


def run_losses(case, ctx):
  from checks import c18
  rng = np.random.default_rng(case['seed'])
  ens = case['name'].startswith('ensemble')
  M = case['M'] if ens else 1
  B, C = case['B'], case['C']
  try:
    train, ev, pred = trainer.get_loss_fn(case['name'], **({'ensemble_size': M} if ens else {}))
  except ValueError:
    require(case['name'] in UNKNOWN_LOSSES, 'known loss rejected', name=case['name'])
    return
  require(case['name'] not in UNKNOWN_LOSSES, 'unknown loss accepted', name=case['name'])
  z = rng.normal(size=(B, M, C)).astype(np.float32)
  y = np.eye(C)[rng.integers(0, C, B)].astype(np.float32)
  if 'sigmoid' in case['name']:
    y = (rng.random((B, C)) < 0.5).astype(np.float32)
  z64 = z.astype(np.float64)
  f = z.reshape(-1, C)
  if 'softmax' in case['name']:
    lp = c18.log_softmax(z64)
    ens_lp = c18.lse(lp, 1) - np.log(M)
    tr, te, pr = -(y[:, None] * lp).sum(-1).reshape(-1), -(y * ens_lp).sum(-1), ens_lp
  else:
    lp, ln = c18.log_sigmoid(z64), c18.log_sigmoid(-z64)
    ep, en = c18.lse(lp, 1) - np.log(M), c18.lse(ln, 1) - np.log(M)
    tr, te, pr = -(y[:, None] * lp + (1 - y[:, None]) * ln).sum(-1).reshape(-1), -(y * ep + (1 - y) * en).sum(-1), ep
  npu.close(train(f, y), tr, f'training loss {case["name"]}', rtol=1e-4, atol=1e-5)
  npu.close(ev(f, y), te, f'evaluation loss {case["name"]}', rtol=1e-4, atol=1e-5)
  c18.check_pred(pred(f), pr, B, 1e-5, f'predictions {case["name"]}')
  ctx.nontriv()


MIXUP_BAD = tuple(dict(size=2, shape=sh, d=2, b=3, axis=1, conc=1.0, seed=1, bad=b, jit=False, tree=t)
                  for b, t, sh in [(b, t, ['d', 'b']) for b, t in [('conc', 'tuple'), ('neg', 'dict'), ('axis', 'tuple'), ('axisneg', 'nested'), ('short', 'dict'), ('batch', 'tuple'), ('noncast', 'tuple')]]
                  + [('batch', t, ['d', 1]) for t in ('tuple', 'nested')])

SUBS = [
    Sub('step', step_cases(), run_step, quick=56, thorough=2500),
    Sub('mixup', mixup_cases(), run_mixup, quick=84, thorough=4000, examples=MIXUP_BAD),
    Sub('wrap', wrap_cases(), run_wrap, quick=56, thorough=2000),
    Sub('distribution', dist_cases(), run_dist, quick=7, thorough=60),
    Sub('losses', loss_cases(), run_losses, quick=40, thorough=400, max_shards=2),
]
