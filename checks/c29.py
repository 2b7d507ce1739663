"""C29: contrastive two-tower models, loss, training step and evaluation hooks."""
import functools
import sys
import types
import unittest.mock as mock

import flax.linen as nn
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import optax
from vmoe.projects.contrastive import evaluators
from vmoe.projects.contrastive import models
from vmoe.projects.contrastive import trainer
from vmoe.train import periodic_actions
from vmoe.train import train_state
from checks import c28
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 3600}
P = jax.sharding.PartitionSpec


# ------------------------------------------------------------ text transformer
@st.composite
def text_cfg(draw, B):
  T = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 20)))
  L = draw(st.integers(1, 2))
  layers = sorted(draw(st.sets(st.integers(0, L - 1), max_size=L)))
  enc = dict(num_layers=L, mlp_dim=draw(st.sampled_from([4, 7])), num_heads=draw(st.sampled_from([1, 2])))
  if layers or draw(st.booleans()):
    enc['moe'] = dict(draw(c28.moe_cfg(B * T, None)), layers=layers)
  if draw(st.integers(0, 2)) == 0:
    enc['attention_qk_norm'] = True
  pe = draw(st.sampled_from([None, 'learned', 'none']))
  if pe:
    enc['position_emb'] = dict(name=pe)
  cfg = dict(vocab_size=draw(st.sampled_from([3, 11])), num_classes=draw(st.sampled_from([4, 6, None, 0])), hidden_size=draw(st.sampled_from([4, 8])), encoder=enc)
  pool = draw(st.sampled_from(['last', 'first', 'gap', 'gmp', 'map', None]))
  if pool:
    cfg['pool_type'] = pool
  return dict(cfg=cfg, T=T)


def text_reference(cfg, p, text):
  enc = dict(cfg['encoder'])
  if enc.get('moe'):
    enc['moe'] = c28.divide(enc['moe'])
  x = p['Embed_0']['embedding'][text]
  x, metrics = c28.encoder_ref(x, p['Encoder'], enc)
  pool = cfg.get('pool_type', 'last')
  if pool == 'last':
    x = x[:, -1]
  elif pool == 'first':
    x = x[:, 0]
  elif pool == 'gap':
    x = x.mean(1)
  elif pool == 'gmp':
    x = x.max(1)
  else:
    q = p['MapHead']
    probe = np.broadcast_to(q['probe'], (x.shape[0], 1, x.shape[-1]))
    a = c28.attention(probe, x, q['MultiHeadDotProductAttention'], enc.get('attention_qk_norm', False))
    x = (a + c28.mlp(c28.layer_norm(a, q['LayerNorm']), q['Mlp']))[:, 0]
  if cfg['num_classes']:
    x = x @ p['head']['kernel'] + p['head']['bias']
  return x, metrics


def is_soft(cfg):
  return ((cfg['encoder'].get('moe') or {}).get('router') or {}).get('name') == c28.SOFT


def compare_metrics(metrics, want_m, what):
  blocks = {k for k in metrics if k.startswith('encoderblock')}
  require(blocks == set(want_m), f'{what}: metrics are reported for exactly the MoE blocks', got=sorted(blocks), want=sorted(want_m))
  total = np.asarray(0.0)
  for b, m in want_m.items():
    for name, v in m.items():
      got = npu.f64(metrics[b][name])
      if v.any() or got.size == v.size:
        npu.close(got.reshape(v.shape) if got.size == v.size else got, v, f'{what}/{b}/{name}', rtol=2e-3, atol=1e-4)
    total = total + m['auxiliary_loss']
  if np.any(total):
    npu.close(metrics['auxiliary_loss'], total, f'{what}: auxiliary loss', rtol=2e-3, atol=1e-4)


@st.composite
def text_case(draw):
  B = draw(st.integers(1, 4))
  return dict(B=B, seed=draw(seeds), bias=draw(st.sampled_from([0.0, 2.0])), zero=draw(st.booleans()), bad=draw(st.sampled_from([None] * 8 + ['pool', 'pos'])), **draw(text_cfg(B)))


def run_text(case, ctx):
  cfg = case['cfg']
  rng = np.random.default_rng(case['seed'])
  text = rng.integers(0, cfg['vocab_size'], size=(case['B'], case['T'])).astype(np.int32)
  if case['bad']:
    bad = dict(cfg, pool_type='nope') if case['bad'] == 'pool' else dict(cfg, encoder=dict(cfg['encoder'], position_emb={'name': 'sincos2d'}))
    try:
      jax.eval_shape(models.TextTransformer(**bad, deterministic=True).init, jax.random.PRNGKey(0), text)
    except (NotImplementedError, ValueError):
      ctx.nontriv('text_rejected', case['bad'])
      return
    require(False, 'unsupported option accepted', what=case['bad'])
  model = models.TextTransformer(**cfg, deterministic=True, head_bias_init=case['bias'], head_kernel_zero_init=case['zero'])
  shapes = jax.eval_shape(model.init, jax.random.PRNGKey(0), text)
  if cfg['num_classes'] and case['seed'] % 4 == 0:
    head = jax.jit(model.init)(jax.random.PRNGKey(case['seed'] % 1000), text)['params']['head']
    npu.exact(head['bias'], np.full(cfg['num_classes'], case['bias'], np.float32), 'initial bias of the head')
    require(bool(np.any(head['kernel'])) != case['zero'], 'initial kernel of the head', zero=case['zero'])
  params = c28.random_params(shapes['params'], case['seed'] + 1, 1.0)
  try:
    want, want_m = c28.well_conditioned(lambda p: text_reference(cfg, p, text), c28.to64(params))
  except c28.NearTie:
    ctx.event('near_tie')
    return
  out, metrics = jax.jit(lambda p, x: model.apply({'params': p}, x))(params, text)
  npu.close(out, want, 'output of the text transformer', rtol=2e-3, atol=(8e-2 if is_soft(cfg) else 2e-4) * max(1, np.abs(want).max()))
  compare_metrics(metrics, want_m, 'text')
  ctx.event('pool_' + cfg.get('pool_type', 'default'))
  ctx.nontriv('text', case['B'], case['T'], cfg.get('pool_type'), cfg['num_classes'], len(want_m), (cfg['encoder'].get('position_emb') or {}).get('name'))


# ------------------------------------------------------------------ two towers
class Linear(nn.Module):
  """A tower with a metric, to be named in configurations."""
  dim: int
  vocab: int = 0
  deterministic: bool = False

  @nn.compact
  def __call__(self, x):
    if self.vocab:
      x = jax.nn.one_hot(x, self.vocab).sum(1)
    x = nn.Dense(self.dim, name='d')(x.reshape(x.shape[0], -1))
    if not self.deterministic:
      x = x + 1.0
    return x, {'mean': x.mean()}


@st.composite
def tower_case(draw):
  real = draw(st.integers(0, 2))  # 0: both towers stand-ins; 1: real text; 2: both real.
  image = draw(c28.model_case(ensemble=False)) if real == 2 else None
  B = draw(st.integers(1, 4)) if image is None else image['B']
  case = dict(image=image, B=B, BT=B, seed=draw(seeds), scale=draw(st.sampled_from([None, 1.0, 10.0, 0.1])), bias=draw(st.sampled_from([None, None, -10.0, 0.0])), D=draw(st.sampled_from([1, 3, 4])), text=None,
              det=True if real else draw(st.booleans()), zero=draw(st.booleans()) and real == 0)
  if real:
    t = case['text'] = draw(text_cfg(B))
    D = t['cfg']['num_classes'] or t['cfg']['hidden_size']
    if image is not None:
      image['cfg']['num_classes'] = D
    case['D'] = D
  else:
    case['BT'] = draw(st.integers(1, 4))
  case['how'] = draw(st.sampled_from(['name', 'call', 'default']))
  return case


def normalise(z):
  return z / (np.linalg.norm(z, axis=-1, keepdims=True) + 1e-8)


def run_tower(case, ctx):
  rng = np.random.default_rng(case['seed'])
  B, D = case['B'], case['D']
  tol = 2e-4
  linear = {'name': 'checks.c29.Linear', 'dim': D} if case['how'] != 'call' else {'name': f'checks.c29.Linear(dim={D})'}
  if case['image']:
    c = case['image']['cfg']
    image_cfg = dict(c, patch_size=tuple(c['patch_size']))
    if case['how'] == 'name':
      image_cfg['name'] = 'VisionTransformerMoe'
    elif case['how'] == 'call':
      image_cfg['name'] = 'vmoe.nn.vit_moe.VisionTransformerMoe()'
    images = rng.normal(size=(B, *case['image']['image'], 2)).astype(np.float32)
  else:
    image_cfg = linear
    images = rng.normal(size=(B, 2, 2, 1)).astype(np.float32)
    if case['zero']:
      images[0] = 0.0
  if case['text']:
    text_cfg_ = dict(case['text']['cfg'])
    if case['how'] == 'name':
      text_cfg_['name'] = 'TextTransformer'
    texts = rng.integers(0, text_cfg_['vocab_size'], size=(B, case['text']['T'])).astype(np.int32)
  else:
    text_cfg_ = dict(linear, vocab=5)
    texts = rng.integers(0, 5, size=(case['BT'], 3)).astype(np.int32)
  kw = {}
  if case['scale'] is not None:
    kw['scale_init'] = case['scale']
  if case['bias'] is not None:
    kw['bias_init'] = case['bias']
  model = models.TwoTower(image=image_cfg, text=text_cfg_, deterministic=case['det'], **kw)
  init = model.init(jax.random.PRNGKey(case['seed'] % 1000), images, texts)['params'] if not case['text'] else None
  if init is not None:
    npu.close(np.exp(npu.f64(init['s'])), case['scale'] or 1.0, 'initial scale', rtol=1e-5)
    require(('b' in init) == (case['bias'] is not None), 'there is a bias exactly if configured', got=sorted(init))
    if case['bias'] is not None:
      npu.close(init['b'], case['bias'], 'initial bias')
  shapes = jax.eval_shape(model.init, jax.random.PRNGKey(0), images, texts)['params']
  params = c28.random_params(shapes, case['seed'] + 1, 1.0)
  if case['zero']:
    params['img']['d']['bias'] = np.zeros_like(params['img']['d']['bias'])
  p64 = c28.to64(params)
  try:
    if case['image']:
      rcfg = dict(image_cfg, encoder=dict(image_cfg['encoder']))
      if rcfg['encoder'].get('moe'):
        rcfg['encoder']['moe'] = c28.divide(rcfg['encoder']['moe'])
      zi, mi = c28.well_conditioned(lambda p: c28.reference(rcfg, p, images.astype(np.float64)), p64['img'])
    else:
      zi, mi = images.reshape(B, -1).astype(np.float64) @ p64['img']['d']['kernel'] + p64['img']['d']['bias'], None
    if case['text']:
      zt, mt = c28.well_conditioned(lambda p: text_reference(text_cfg_, p, texts), p64['txt'])
    else:
      zt, mt = np.eye(5)[texts].sum(1) @ p64['txt']['d']['kernel'] + p64['txt']['d']['bias'], None
  except c28.NearTie:
    ctx.event('near_tie')
    return
  if not case['det']:
    zi, zt = zi + (mi is None), zt + (mt is None)
  raw = {'img': zi, 'txt': zt}
  small = min(np.linalg.norm(z, axis=-1).min() for z in (zi, zt))
  if small < 0.05 and not case['zero']:
    ctx.event('tiny_norm')
    return
  zi, zt = normalise(zi), normalise(zt)
  loose = any(is_soft(c) for c in (case['image'] or {}, case['text'] or {}) if c for c in [c['cfg']])
  tol = 0.15 / max(small, 0.1) if loose else 2e-4 * max(1.0, 1.0 / max(small, 1e-3)) if not case['zero'] else 2e-3
  apply = jax.jit(lambda p, i, t: model.apply({'params': p}, i, t, mutable=['intermediates']))
  (logits, metrics), inter = apply(params, images, texts)
  s = np.exp(p64['s'])
  want = s * zi @ zt.T + (p64['b'] if case['bias'] is not None else 0.0)
  npu.close(logits, want, 'logits of all pairs', rtol=2e-3, atol=tol * 2 * s)
  require(set(metrics) == {'img', 'txt', 'scale'}, 'metrics of the model', got=sorted(metrics))
  npu.close(metrics['scale'], s, 'reported scale', rtol=1e-4)
  for key, m, z in (('img', mi, zi), ('txt', mt, zt)):
    if m is not None:
      compare_metrics(metrics[key], m, key)
    else:
      npu.close(metrics[key]['mean'], raw[key].mean(), 'metrics of a tower', rtol=1e-3, atol=1e-3)
    sown = inter['intermediates']['z' + key]
    npu.close(sown[0], z, f'intermediate embedding {key}', rtol=2e-3, atol=tol)
  # Each tower alone gives the embeddings, of unit norm, and its metrics only.
  for key, args, z in (('img', (images, None), zi), ('txt', (None, texts), zt)):
    (emb, met), _ = apply(params, *args)
    npu.close(emb, z, f'embedding {key} alone', rtol=2e-3, atol=tol)
    n = np.linalg.norm(npu.f64(emb), axis=-1)
    ok = np.abs(n - 1) < 1e-3
    require(bool(np.all(ok | (n < 1e-6) if case['zero'] else ok)), f'norm of the embeddings {key}', got=n)
    require(set(met) == {key}, 'metrics of one tower', got=sorted(met), want=key)
    sub = {k: v for k, v in params.items() if k == key}
    (alone, _), _ = apply(sub, *args)  # Needs only its own parameters.
    npu.close(alone, z, f'embedding {key} with the parameters of this tower', rtol=2e-3, atol=tol)
  try:
    model.apply({'params': params}, None, None)
  except ValueError:
    pass
  else:
    require(False, 'no input at all accepted')
  ctx.nontriv('tower', bool(case['image']), bool(case['text']), B, case['BT'], D, case['scale'], case['bias'], case['how'])


# ------------------------------------------------------------------------ loss
@st.composite
def loss_case(draw):
  n = draw(st.integers(1, 6))
  shape = draw(st.sampled_from([[n, n], [n, n], [2, n, n], [n], [n, n + 1], [1, 2, n, n], [n + 1, n]]))
  return dict(shape=shape, scale=draw(st.sampled_from([1.0, 20.0, 300.0])), seed=draw(seeds), special=draw(st.booleans()))


def run_loss(case, ctx):
  rng = np.random.default_rng(case['seed'])
  x = (rng.normal(size=case['shape']) * case['scale']).astype(np.float32)
  if case['special'] and x.size:
    x.ravel()[rng.integers(0, x.size)] = rng.choice([1e4, -1e4, 0.0])
  bad = x.ndim < 2 or x.shape[-1] != x.shape[-2]
  try:
    got = trainer.sigmoid_loss(jnp.asarray(x))
  except ValueError:
    require(bad, 'square logits rejected', shape=case['shape'])
    ctx.nontriv('loss_rejected', len(case['shape']))
    return
  require(not bad, 'logits that are not square accepted', shape=case['shape'])
  x64 = x.astype(np.float64)
  n = x.shape[-1]
  want = np.zeros(x.shape[:-1])
  for i in range(n):
    for j in range(n):
      v = x64[..., i, j] if i == j else -x64[..., i, j]
      want[..., i] += np.logaddexp(0, -v)  # -log(sigmoid(v))
  npu.close(got, want, 'sigmoid loss', rtol=1e-4, atol=1e-5)
  if n > 1:
    ctx.nontriv('loss', tuple(case['shape']), case['scale'], case['special'])


# -------------------------------------------------------------- training step
DEVICES = jax.devices()


@st.composite
def step_case(draw):
  micro = draw(st.sampled_from([None, 1, 2, 3]))
  return dict(micro=micro, per=draw(st.integers(1, 3)), steps=draw(st.integers(1, 2)), aux=draw(st.booleans()), seed=draw(seeds), D=draw(st.integers(1, 3)), jit=draw(st.booleans()))


def run_step(case, ctx):
  rng = np.random.default_rng(case['seed'])
  m = case['micro'] or 1
  B, D = case['per'] * m * len(DEVICES), case['D']
  mesh = jax.sharding.Mesh(np.array(DEVICES).reshape(-1, 1), ('expert', 'replica'))
  w = {'a': rng.normal(size=(D, 2)), 'c': rng.normal(size=(3, 2)), 't': rng.normal()}
  params = jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32), w)
  seen = []

  def apply_fn(variables, images, texts, rngs=None):
    p = variables['params']
    require(set(rngs) == {'dropout'}, 'rngs given to the model', got=sorted(rngs))
    jax.debug.callback(lambda v: seen.append(tuple(np.asarray(v).ravel().tolist())), rngs['dropout'])
    logits = p['t'] * (images @ p['a']) @ (texts @ p['c']).T
    metrics = {'img': {'x': images.sum(1)}}
    if case['aux']:
      metrics['auxiliary_loss'] = (images @ p['a'])**2
    return logits, metrics

  def ref(p, x, y):
    u, v = x @ p['a'], y @ p['c']
    l = p['t'] * u @ v.T
    z = 2 * np.eye(len(x)) - 1
    main = np.logaddexp(0, -z * l).sum(-1).mean()
    dl = -z / (1 + np.exp(z * l)) / len(x)
    du, dv = p['t'] * dl @ v, p['t'] * dl.T @ u
    aux = (u**2).mean() if case['aux'] else 0.0
    if case['aux']:
      du = du + 2 * u / u.size
    return {'a': x.T @ du, 'c': y.T @ dv, 't': (dl * (u @ v.T)).sum()}, main, aux, x.sum(1).mean()

  lr = 0.02
  key0 = jax.random.PRNGKey(case['seed'] % 999)
  state = train_state.TrainState.create(apply_fn=apply_fn, params=params, tx=optax.sgd(lr), rngs={'dropout': key0})
  fn = functools.partial(trainer.train_step, loss_fn=trainer.sigmoid_loss, microsteps=case['micro'])
  fn = jax.jit(fn) if case['jit'] else fn
  norm = lambda t: np.sqrt(sum((np.asarray(v)**2).sum() for v in jax.tree_util.tree_leaves(t)))
  keys = {tuple(np.asarray(key0).ravel().tolist())}
  with mesh:
    for t in range(case['steps']):
      x, y = rng.normal(size=(B, D)).astype(np.float32), rng.normal(size=(B, 3)).astype(np.float32)
      seen.clear()
      sh = jax.sharding.NamedSharding(mesh, P(('expert', 'replica')))
      state, metrics = fn(state, jax.device_put(x, sh), jax.device_put(y, sh))
      jax.block_until_ready(state)
      jax.effects_barrier()
      parts = [ref(w, x[i::m].astype(np.float64), y[i::m].astype(np.float64)) for i in range(m)]
      g = jax.tree_util.tree_map(lambda *a: sum(a) / m, *[q[0] for q in parts])
      main, aux, act = (np.mean([q[i] for q in parts]) for i in (1, 2, 3))
      w = jax.tree_util.tree_map(lambda p, d: p - lr * d, w, g)
      tol = dict(rtol=5e-4, atol=5e-5 * (1 + norm(w) + norm(g)))
      jax.tree_util.tree_map(lambda a, b: npu.close(a, b, f'step {t}: parameters', **tol), dict(state.params), w)
      want = {'main_loss': main, 'total_loss': main + aux, 'global_norm/grads': norm(g), 'global_norm/params': norm(w)}
      for k, v in want.items():
        require(k in metrics, 'metric missing', metric=k, got=sorted(metrics))
        npu.close(metrics[k], v, f'step {t}: metric {k}', rtol=5e-4, atol=5e-5 * (1 + abs(main) + norm(g) + norm(w)))
      npu.close(metrics['img']['x'], act, f'step {t}: metric of a tower', rtol=1e-3, atol=1e-4)
      require(int(state.step) == t + 1, 'step counter', got=int(state.step), want=t + 1)
      used = set(seen)
      require(len(used) == m, 'each microstep uses its own rng', got=len(used), microsteps=m)
      require(not used & keys, 'an rng is used twice', step=t)
      nk = tuple(np.asarray(state.rngs['dropout']).ravel().tolist())
      require(nk not in used and nk not in keys, 'the next state keeps an rng already used', step=t)
      keys |= used | {nk}
  ctx.nontriv('step', case['micro'], B, D, case['aux'], case['jit'], case['steps'])


# ------------------------------------------------------------ evaluation hooks
class Writer:

  def __init__(self):
    self.calls = []

  def write_scalars(self, step, scalars):
    self.calls.append((int(step), dict(scalars)))


class Evaluators:
  """Stand-in for the two Big Vision evaluators, recording what they are given."""

  def __init__(self, images, texts):
    self.images, self.texts, self.made = images, texts, []
    outer = self

    class Retrieval:

      def __init__(self, predict_fn, devices, **kw):
        self.predict_fn, self.devices, self.kw = predict_fn, devices, kw
        outer.made.append(self)

      def evaluate(self, variables):
        zi, n1, e1 = self.predict_fn(variables, {'image': outer.images})
        n2, zt, e2 = self.predict_fn(variables, {'labels': outer.texts})
        require(n1 is None and n2 is None and e1 is None and e2 is None, 'outputs of the embedding of images or texts')
        sim = npu.f64(zi) @ npu.f64(zt).T
        k = self.kw.get('topk', 1)
        rank = lambda s: float(np.mean([np.sum(s[i] > s[i, i]) < k for i in range(len(s))]))
        return {'img2txt': {'Recall@1': rank(sim), 'mean': sim.mean() + 1}, 'txt2img': {'Recall@1': rank(sim.T), 'mean': sim.mean()}}

    class Discriminative:

      def __init__(self, predict_fn, devices, dataset_names, dataset_overrides, **kw):
        self.predict_fn, self.devices, self.kw, self.overrides = predict_fn, devices, kw, dataset_overrides
        self.datasets = dict.fromkeys(dataset_names)
        outer.made.append(self)

      def evaluate(self, variables, task):
        zi = npu.f64(self.predict_fn(variables, {'image': outer.images})[0])
        zt = npu.f64(self.predict_fn(variables, {'labels': outer.texts})[1])
        return {'accuracy': float((zi @ zt.T * self.overrides[task]['factor']).sum())}

    self.retrieval = types.SimpleNamespace(Evaluator=Retrieval)
    self.discriminative = types.SimpleNamespace(Evaluator=Discriminative)


@st.composite
def hook_case(draw):
  first = draw(st.sampled_from([1, 1, 3, 6]))
  last = first + draw(st.integers(0, 6))
  return dict(kind=draw(st.sampled_from(['retrieval', 'zeroshot', 'fewshot'])), first=first, last=last, every=draw(st.sampled_from([None, 2, 3])), on=draw(st.sampled_from([None, [2], [4, 5]])), seed=draw(seeds),
              tasks=draw(st.integers(0, 2)), config=draw(st.booleans()), progress=draw(st.booleans()), missing=draw(st.integers(0, 5)) == 0, override=draw(st.booleans()), cost=draw(st.booleans()), rng=draw(st.booleans()))


def run_hook(case, ctx):
  rng = np.random.default_rng(case['seed'])
  D = 3
  images, texts = rng.normal(size=(4, 2, 2, 1)).astype(np.float32), rng.integers(0, 5, size=(4, 3)).astype(np.int32)
  base = ml_collections.ConfigDict(dict(name='vmoe.projects.contrastive.models.TwoTower', image={'name': 'checks.c29.Linear', 'dim': D if not case['override'] else D + 2}, text={'name': 'checks.c29.Linear', 'dim': D, 'vocab': 5}))
  overrides = {'image': {'dim': D}} if case['override'] else None
  stub = Evaluators(images, texts)
  writer = Writer()
  notes = Writer()
  progress = periodic_actions.ReportProgress(writer=notes, every_steps=None, every_secs=None, num_train_steps=case['last']) if case['progress'] else None
  sharding = jax.sharding.NamedSharding(jax.sharding.Mesh(np.array(DEVICES[:1]), ('d',)), P())
  names = ['cifar', 'cifar_100', 'pets'][:case['tasks']]
  datasets = {n: {'factor': 1.5 + i} if case['kind'] == 'zeroshot' else {'topk': 1 + i, 'dataset': n} for i, n in enumerate(names)}
  kw = dict(base_model_config=base, writer=writer, progress_hook=progress, first_step=case['first'], train_steps=case['last'])
  if case['every']:
    kw['every_steps'] = case['every']
  if case['on']:
    kw['on_steps'] = tuple(case['on'])
  if overrides:
    kw['model_overrides'] = ml_collections.ConfigDict(overrides)
  before = base.to_dict()
  missing = case['missing'] and case['kind'] != 'fewshot'
  patches = [mock.patch.object(evaluators, 'bv_retrieval', None if missing else stub.retrieval), mock.patch.object(evaluators, 'bv_discriminative', None if missing else stub.discriminative)]
  probes = []
  if case['kind'] == 'fewshot':
    # The apply function given to the few-shot evaluation embeds images only.
    class FewShot:

      def __init__(self, **kw):
        probes.append(kw)

      def __call__(self, step, variables, **kwargs):
        probes.append((step, variables))
    with mock.patch.object(trainer.fewshot, 'FewShotPeriodicAction', FewShot):
      none = trainer.create_fewshot_hook(**{k: v for k, v in kw.items() if k in ('base_model_config', 'writer', 'progress_hook', 'first_step', 'train_steps')}, extra_rng_keys=['dropout'])
      require(none(1, variables={}) is None and not probes, 'no few-shot evaluation without configuration')
      hook = trainer.create_fewshot_hook(**kw, extra_rng_keys=('dropout',), datasets=datasets, shots=(1, 2))
    given = probes[0]
    require(set(given['on_steps']) == {case['first'], case['last']} | set(case['on'] or ()), 'steps of the few-shot evaluation', got=given['on_steps'])
    require(given.get('datasets') == datasets and given.get('shots') == (1, 2) and given.get('every_steps') == case['every'], 'few-shot options are passed on')
    require(given['metric_writer'] is writer and tuple(given['rng_keys']) == ('dropout',), 'few-shot writer and rngs')
    params = variables_of(rng, D)
    emb, _ = given['apply_fn']({'params': params}, images)
    npu.close(emb, embeds(params, images, texts)[0], 'few-shot embeddings', rtol=1e-3, atol=1e-4)
    require(base.to_dict() == before, 'the base configuration was changed', got=base.to_dict())
    ctx.nontriv('fewshot', case['first'], case['last'], case['every'], str(case['on']))
    return
  with patches[0], patches[1]:
    make = trainer.create_retrieval_hook if case['kind'] == 'retrieval' else trainer.create_zeroshot_hook
    hook = make(**kw, datasets=(ml_collections.ConfigDict(datasets) if case['config'] else datasets) if names or case['config'] else None, data_sharding=sharding)
    require(base.to_dict() == before, 'the base configuration was changed', got=base.to_dict())
    want_steps = [s for s in range(case['first'], case['last'] + 1) if s in (case['first'], case['last']) or s in (case['on'] or ()) or (case['every'] and s % case['every'] == 0)]
    got = []
    for s in range(case['first'], case['last'] + 1):
      n = len(writer.calls)
      params = variables_of(rng, D)
      zi, zt = embeds(params, images, texts)
      cost = {'train_exaflops': float(s), 'nothing': None} if case['cost'] else {}
      hook(s, variables={'params': params}, **cost)
      new = writer.calls[n:]
      if missing or not names:
        require(not new, 'evaluated although there is nothing to evaluate', got=new)
        continue
      if s not in want_steps:
        require(not new, 'evaluated at a step that is not due', step=s, want=want_steps)
        continue
      require(new and all(c[0] == s for c in new), 'not evaluated at a step that is due', step=s, want=want_steps, got=[c[0] for c in new])
      scalars = {}
      for _, c in new:
        scalars.update(c)
      sim = zi @ zt.T
      want = {}
      for i, name in enumerate(names):
        if case['kind'] == 'zeroshot':
          want[f'zeroshot/{name}/accuracy'] = (sim * (1.5 + i)).sum()
        else:
          rank = lambda m, k=i + 1: float(np.mean([np.sum(m[j] > m[j, j]) < k for j in range(4)]))
          want.update({f'retrieval/{name}/img2txt/mean': sim.mean() + 1, f'retrieval/{name}/txt2img/mean': sim.mean(), f'retrieval/{name}/img2txt/Recall@1': rank(sim), f'retrieval/{name}/txt2img/Recall@1': rank(sim.T)})
      if case['cost']:
        want['train_exaflops'] = float(s)
      times = {f'{case["kind"]}/{name}/duration_secs' for name in names}
      require(set(scalars) == set(want) | times, 'scalars written', got=sorted(scalars), want=sorted(set(want) | times))
      for k, v in want.items():
        npu.close(scalars[k], v, k, rtol=1e-3, atol=1e-3)
      for k in times:
        require(0 <= scalars[k] < 600, 'duration of the evaluation', got=scalars[k])
      got.append(s)
    if names and not missing:
      for e in stub.made:
        require(list(e.devices) == list(sharding.mesh.devices.flatten()), 'devices of the evaluator')
        for bad in ({}, {'image': images, 'labels': texts}):
          try:
            e.predict_fn({'params': params}, bad)
          except ValueError:
            continue
          require(False, 'both or none of images and texts accepted')
      ctx.nontriv(case['kind'], case['first'], case['last'], case['every'], str(case['on']), case['tasks'], case['progress'], case['override'])


def variables_of(rng, D):
  f = lambda *s: rng.normal(size=s).astype(np.float32)
  return {'img': {'d': {'kernel': f(4, D), 'bias': f(D)}}, 'txt': {'d': {'kernel': f(5, D), 'bias': f(D)}}, 's': f(), 'b': f()}


def embeds(params, images, texts):
  p = c28.to64(params)
  return (normalise(images.reshape(len(images), -1).astype(np.float64) @ p['img']['d']['kernel'] + p['img']['d']['bias']),
          normalise(np.eye(5)[texts].sum(1) @ p['txt']['d']['kernel'] + p['txt']['d']['bias']))


SUBS = [
    Sub('text', text_case(), run_text, quick=64, thorough=2000),
    Sub('tower', tower_case(), run_tower, quick=56, thorough=2000),
    Sub('loss', loss_case(), run_loss, quick=240, thorough=8000, max_shards=2),
    Sub('step', step_case(), run_step, quick=48, thorough=1200),
    Sub('hooks', hook_case(), run_hook, quick=80, thorough=2000),
]
