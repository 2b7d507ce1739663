"""C19: optimizers."""
import re

import flax.core
import flax.traverse_util
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
import optax
from vmoe.train import optimizer
from vmoe.train import train_state
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 2700}
KEYS = ['Moe', 'Mlp', 'kernel', 'bias', 'head', 'z', 'a']
SHAPES = [[], [3], [2, 3], [4, 4], [1, 5], [2, 4, 5], [5, 2, 4], [1], [2, 3, 4, 3]]


@st.composite
def trees(draw, depth=0):
  n = draw(st.integers(1, 4))
  keys = draw(st.permutations(KEYS))[:n]
  out = {}
  for k in keys:
    if depth < 2 and draw(st.booleans()):
      out[k] = draw(trees(depth=depth + 1))
    else:
      out[k] = draw(st.sampled_from(SHAPES))
  return out


def patterns():
  k = st.sampled_from(KEYS)
  return st.one_of(k, k.map(lambda x: x + '$'), k.map(lambda x: '^' + x), st.just('.*'), st.tuples(k, k).map('/'.join), st.tuples(k, k).map('|'.join), k.map(lambda x: f'{x}/.*/'), st.just('^(?!.*bias)'), st.just('(?i:HEAD)'), st.just('nothing'))


def rules(values):
  return st.lists(st.tuples(patterns(), values).map(list), min_size=1, max_size=3)


@st.composite
def cases(draw):
  name = draw(st.sampled_from(['sgd', 'sgd', 'adam', 'big_vision_adafactor', 'big_vision_adafactor']))
  if name == 'sgd':
    kw = draw(st.sampled_from([{}, {'momentum': 0.9}, {'momentum': 0.5}, {'momentum': 0.9, 'nesterov': True}, {'momentum': 0.0}]))
  elif name == 'adam':
    kw = draw(st.sampled_from([{}, {'b1': 0.5}, {'b1': 0.9, 'b2': 0.9, 'eps': 1e-3}, {'b2': 0.95}]))
  else:
    kw = {'min_dim_size_to_factor': draw(st.sampled_from([1, 3, 4, 32, 32])), 'momentum': draw(st.sampled_from([0.9, 0.9, 0.5, 0.0])), 'decay_rate': draw(st.sampled_from([0.8, 0.5])), 'decay_rate_max': draw(st.sampled_from([0.999, 0.6])), 'decay_offset': draw(st.sampled_from([0, 0, -3, -40])), 'momentum_dtype': draw(st.sampled_from(['float32', 'float32', 'bfloat16']))}
    if draw(st.booleans()):
      kw = {k: kw[k] for k in ('min_dim_size_to_factor', 'momentum')}
  lr = draw(st.sampled_from([0.1, 1, {'schedule': 'constant', 'value': 0.25}, {'schedule': 'warmup_linear_decay', 'peak_value': 0.5, 'end_value': 0.125, 'warmup_steps': 2}, {'schedule': 'warmup_linear_decay', 'peak_value': 1.0, 'end_value': 0.0, 'warmup_steps': 1}]))
  clip = draw(st.sampled_from([None, {}, {'global_norm': 1.0}, {'global_norm': 1e6}, {'absolute_value': 0.5}, {'global_norm': 0.01}, {'absolute_value': 100.0}, {'global_norm': None, 'absolute_value': 0.25}]))
  decay = draw(st.one_of(st.none(), st.sampled_from([0.0, 0.1, 0.5]), rules(st.sampled_from([0.0, 0.1, 0.5, 1.0])), st.just([])))
  mode = draw(st.sampled_from([None, None, 'frozen', 'trainable']))
  patt = draw(st.one_of(patterns(), st.lists(patterns(), min_size=1, max_size=3))) if mode else None
  scale = draw(st.one_of(st.none(), rules(st.sampled_from([0.0, 0.5, 2.0, 8.0, -1.0]))))
  return dict(name=name, kw=kw, lr=lr, clip=clip, decay=decay, mode=mode, patt=patt, scale=scale, tree=draw(trees()), frozen_dict=draw(st.sampled_from([False, False, True])), jit=draw(st.booleans()), steps=draw(st.integers(1, 5)), gscale=draw(st.sampled_from([0.01, 1.0, 100.0])),
              order=draw(st.sampled_from(['same', 'sorted', 'reversed'])), state=draw(st.booleans()), seed=draw(seeds), gzero=draw(st.booleans()))


def make(spec, rng, scale):
  return {k: make(v, rng, scale) if isinstance(v, dict) else jnp.asarray(rng.normal(size=tuple(v)) * scale, jnp.float32) for k, v in spec.items()}


def reorder(tree, how):
  if not isinstance(tree, dict):
    return tree
  keys = {'same': list(tree), 'sorted': sorted(tree), 'reversed': list(reversed(list(tree)))}[how]
  return {k: reorder(tree[k], how) for k in keys}


def flat(tree):
  return {k: npu.f64(v) for k, v in flax.traverse_util.flatten_dict(flax.core.unfreeze(tree), sep='/').items()}


def first(rs, key, default):
  for p, v in rs:
    if re.search(p, key):
      return v
  return default


def matches(patt, key):
  return any(re.search(p, key) for p in ([patt] if isinstance(patt, str) else patt))


def lr_at(lr, t, total):
  if isinstance(lr, (int, float)):
    return float(lr)
  if lr['schedule'] == 'constant':
    return lr['value']
  w, peak, end = lr['warmup_steps'], lr['peak_value'], lr['end_value']
  if t < w:
    return peak * t / w
  return end + (peak - end) * (1 - min(t - w, total - w) / (total - w))


class Ref:
  """The documented recurrences, in float64, parameter by parameter."""

  def __init__(self, case, params, total):
    self.c, self.p, self.t, self.total = case, params, 0, total
    self.s = {k: {} for k in params}

  def opt(self, k, g):
    c, kw, s, t = self.c, self.c['kw'], self.s[k], self.t
    if c['name'] == 'sgd':
      m = kw.get('momentum')
      if not m:
        return g
      s['m'] = g + m * s.get('m', 0)
      return g + m * s['m'] if kw.get('nesterov') else s['m']
    if c['name'] == 'adam':
      b1, b2, eps = kw.get('b1', 0.9), kw.get('b2', 0.999), kw.get('eps', 1e-8)
      s['m'] = b1 * s.get('m', 0) + (1 - b1) * g
      s['v'] = b2 * s.get('v', 0) + (1 - b2) * g * g
      return (s['m'] / (1 - b1 ** (t + 1))) / (np.sqrt(s['v'] / (1 - b2 ** (t + 1))) + eps)
    decay = min(kw.get('decay_rate_max', 0.999), 1 - (t - kw.get('decay_offset', 0) + 1.0) ** -kw.get('decay_rate', 0.8))
    sq = g * g + 1e-30
    order = sorted(range(g.ndim), key=lambda i: g.shape[i])  # stable, like numpy argsort of small arrays
    if g.ndim >= 2 and g.shape[order[-2]] >= kw['min_dim_size_to_factor']:
      d1, d0 = order[-2], order[-1]
      s['r'] = decay * s.get('r', 0) + (1 - decay) * sq.mean(d0, keepdims=True)
      s['c'] = decay * s.get('c', 0) + (1 - decay) * sq.mean(d1, keepdims=True)
      u = g * (s['r'] / s['r'].mean(d1, keepdims=True)) ** -0.5 * s['c'] ** -0.5
    else:
      s['v'] = decay * s.get('v', 0) + (1 - decay) * sq
      u = g * s['v'] ** -0.5
    m = kw['momentum']
    if not m:
      return u
    u = m * s.get('u', 0) + (1 - m) * u
    s['u'] = np.asarray(u).astype(ml_dtypes.bfloat16).astype(np.float64) if kw.get('momentum_dtype') == 'bfloat16' else u
    return u

  def step(self, grads):
    c = self.c
    g = {k: v * first(c['scale'] or [], k, 1.0) for k, v in grads.items()}
    clip = c['clip'] or {}
    if clip.get('global_norm'):
      n = np.sqrt(sum((v ** 2).sum() for v in g.values()))
      if n >= clip['global_norm']:
        g = {k: v / n * clip['global_norm'] for k, v in g.items()}
    elif clip.get('absolute_value'):
      g = {k: np.clip(v, -clip['absolute_value'], clip['absolute_value']) for k, v in g.items()}
    u = {k: self.opt(k, v) for k, v in g.items()}
    d = c['decay'] or 0.0
    u = {k: v + (first(d, k, 0.0) if isinstance(d, list) else d) * self.p[k] for k, v in u.items()}
    lr = lr_at(c['lr'], self.t, self.total)
    u = {k: -lr * v for k, v in u.items()}
    if c['mode']:
      u = {k: v if matches(c['patt'], k) == (c['mode'] == 'trainable') else np.zeros_like(v) for k, v in u.items()}
    self.t += 1
    self.p = {k: self.p[k] + u[k] for k in u}
    return u


def run_history(case, ctx):
  rng = np.random.default_rng(case['seed'])
  params = make(case['tree'], rng, 1.0)
  params0 = flat(params)
  total = 6
  kw = dict(case['kw'])
  tx = optimizer.create_optimizer(name=case['name'], total_steps=total, learning_rate=case['lr'], gradient_clip=case['clip'], weight_decay=[tuple(r) for r in case['decay']] if isinstance(case['decay'], list) else case['decay'],
                                  frozen_pattern=case['patt'] if case['mode'] == 'frozen' else None, trainable_pattern=case['patt'] if case['mode'] == 'trainable' else None, gradient_scale=case['scale'] and [tuple(r) for r in case['scale']], **kw)
  # An accumulator in bfloat16 rounds, maybe in another direction than the reference.
  low = case['kw'].get('momentum_dtype') == 'bfloat16' and bool(case['kw'].get('momentum'))
  fz = flax.core.freeze if case['frozen_dict'] else (lambda x: x)
  params = fz(params)
  ref = Ref(case, dict(params0), total)
  if case['state']:
    ts = train_state.TrainState.create(apply_fn=None, params=params, tx=tx, rngs={'a': jnp.int32(0)})
    fn = lambda ts, g, r: ts.apply_gradients_and_compute_global_norms(g, rngs=r)
    fn = jax.jit(fn) if case['jit'] else fn
  else:
    opt_state = tx.init(params)
    update = jax.jit(tx.update) if case['jit'] else tx.update
  for t in range(case['steps']):
    grads = make(case['tree'], rng, case['gscale'])
    if case['gzero'] and t == 0:
      grads = jax.tree_util.tree_map(jnp.zeros_like, grads)
    g64 = flat(grads)
    grads = fz(reorder(grads, case['order']))
    before = dict(ref.p)
    u = ref.step(g64)
    if case['state']:
      ts, norms = fn(ts, grads, {'a': jnp.int32(t + 1)})
      require(int(ts.step) == t + 1, 'step counter', got=int(ts.step), want=t + 1)
      require(int(ts.rngs['a']) == t + 1, 'other fields of the state not replaced')
      params = ts.params
      norm = lambda d: np.sqrt(sum((v ** 2).sum() for v in d.values()))
      npu.close(norms['grads'], norm(g64), 'norm of the gradients', rtol=1e-5)
      npu.close(norms['updates'], norm(u), 'norm of the updates', rtol=2e-2 if low else 2e-4, atol=1e-6)
      npu.close(norms['params'], norm(ref.p), 'norm of the parameters', rtol=5e-2 if low else 2e-4, atol=1e-6)
      state_now = ts.opt_state
    else:
      upd, opt_state = update(grads, opt_state, params)
      fu = flat(upd)
      require(set(fu) == set(u), 'names of the updates', got=sorted(fu), want=sorted(u))
      for k in u:
        npu.close(fu[k], u[k], f'update of {k} at step {t}', rtol=2e-2 if low else 3e-4, atol=(1e-3 if low else 1e-5) * (1 + np.abs(u[k]).max()))
      params = optax.apply_updates(params, upd)
      state_now = opt_state
    if low:
      require(any(v.dtype == jnp.bfloat16 for v in jax.tree_util.tree_leaves(state_now) if hasattr(v, 'dtype')), 'the momentum is not kept in the requested type', got=sorted({str(getattr(v, 'dtype', type(v))) for v in jax.tree_util.tree_leaves(state_now)}))
    fp = flat(params)
    require(set(fp) == set(ref.p), 'names of the parameters', got=sorted(fp), want=sorted(ref.p))
    require(isinstance(params, flax.core.FrozenDict) == case['frozen_dict'], 'type of the parameter tree changed')
    for k in ref.p:
      if case['mode'] and matches(case['patt'], k) != (case['mode'] == 'trainable'):
        npu.exact(fp[k], params0[k], f'frozen parameter {k} changed at step {t}')
        ctx.event('frozen_leaf')
      else:
        npu.close(fp[k], ref.p[k], f'parameter {k} at step {t}', rtol=5e-4, atol=(2e-2 if low else 2e-5) * (t + 1) * (1 + np.abs(before[k]).max() + np.abs(u[k]).max()))
    ctx.more(len(ref.p))
  if len(params0) > 1 and (case['decay'] or case['mode'] or case['scale'] or case['clip'] or case['steps'] > 1):
    ctx.nontriv()


@st.composite
def error_cases(draw):
  return dict(what=draw(st.sampled_from(['name', 'clip', 'patterns', 'params'])), name=draw(st.sampled_from(['nadam', 'SGD', 'Adam', 'adamw', 'adafactor', 'big_vision', 'momentum', '', None])), a=draw(st.sampled_from([0.5, 2.0])), patt=draw(patterns()))


def run_errors(case, ctx):
  base = dict(name='sgd', total_steps=3, learning_rate=0.1)
  bad = {'name': lambda: optimizer.create_optimizer(**dict(base, name=case.get('name', 'nadam'))),
         'clip': lambda: optimizer.create_optimizer(**base, gradient_clip={'global_norm': case['a'], 'absolute_value': case['a']}),
         'patterns': lambda: optimizer.create_optimizer(**base, frozen_pattern=case['patt'], trainable_pattern=[case['patt']]),
         'params': lambda: optimizer.add_decayed_weights(0.1).update({'a': jnp.ones(2)}, None, None)}[case['what']]
  try:
    bad()
  except ValueError:
    ctx.nontriv()
    return
  require(False, 'an invalid configuration was accepted', what=case['what'])


SUBS = [
    Sub('history', cases(), run_history, quick=330, thorough=9000),
    Sub('errors', error_cases(), run_errors, quick=8, thorough=40, max_shards=1),
]
