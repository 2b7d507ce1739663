"""C25: PGD attacks."""
import collections
import functools
import os
import shutil
import tempfile
from unittest import mock

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import optax
from vmoe import moe
from vmoe.checkpoints import partitioned
from vmoe.data import input_pipeline
from vmoe.nn import vit_moe
from vmoe.projects.adversarial_attacks import attacks
from vmoe.projects.adversarial_attacks import lib
from vmoe.projects.adversarial_attacks import restore
from vmoe.train import train_state as train_state_lib
from vmoe.train import trainer
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu
from checks.c15 import Dataset, Writer

TIME_GUARD = {'quick': 420, 'thorough': 2400}
VALID = '__valid__'


def key_bytes(k):
  return np.asarray(k).tobytes()


def softmax_loss(z, y):
  z = np.asarray(z, np.float64)
  m = z.max(-1, keepdims=True)
  return -(y * (z - m - np.log(np.exp(z - m).sum(-1, keepdims=True)))).sum(-1)


def sigmoid_loss(z, y):
  z = np.asarray(z, np.float64)
  return (np.logaddexp(0, z) - y * z).sum(-1)


# ---------------------------------------------------------------------------
# The attack itself.


@st.composite
def pgd_cases(draw):
  return dict(b=draw(st.integers(1, 5)), dims=draw(st.sampled_from([[4], [3, 2], [2, 2, 3]])), eps=draw(st.sampled_from([1e-3, 0.01, 0.1, 1.0, 4.0])), n=draw(st.integers(1, 7)), seed=draw(seeds),
              model=draw(st.sampled_from(['pixel', 'pixel', 'noisy', 'linear', 'mlp'])), aux=draw(st.booleans()), rngs=draw(st.sampled_from([None, 1, 2])), jit=draw(st.booleans()), wrapped=draw(st.booleans()), big=draw(st.booleans()))


def pixel_reference(x, dirs, delta, n):
  """n sign steps on the pixel-wise loss sum(w (x - c)^2 / 2) + aux; also which pixels are numerically safe."""
  safe = np.ones(x.shape, bool)
  x = x.astype(np.float64)
  for i in range(n):
    g, tol = dirs(x, i)
    safe &= (np.abs(g) > tol) | (g == 0)
    x = x + delta * np.sign(g)
  return x, safe


def run_pgd(case, ctx):
  rng = np.random.default_rng(case['seed'])
  shape = [case['b']] + case['dims']
  k = int(np.prod(case['dims']))
  x = rng.normal(size=shape).astype(np.float32) * (30.0 if case['big'] else 1.0)
  eps, n = case['eps'], case['n']
  keys = []
  names = ['dropout', 'gating'][:case['rngs']] if case['rngs'] else None
  rngs = {m: jax.random.PRNGKey(case['seed'] % 1000 + i) for i, m in enumerate(names)} if names else None
  c = rng.normal(size=k).astype(np.float32)
  a = rng.normal(size=k).astype(np.float32)
  W = rng.normal(size=(k, 3)).astype(np.float32)
  V = rng.normal(size=(k, 6)).astype(np.float32)
  U = rng.normal(size=(6, 3)).astype(np.float32)
  noisy = case['model'] == 'noisy' and rngs is not None

  def note(v):
    keys.append({m: key_bytes(v[m]) for m in v})

  def apply_fn(images, rngs=None):
    z = images.reshape(images.shape[0], -1)
    if rngs is not None:
      jax.debug.callback(note, rngs)
    if case['model'] in ('pixel', 'noisy'):
      if noisy:
        s = jnp.where(jax.random.bernoulli(rngs[names[0]], 0.5, z.shape), 1.0, -1.0)
        z = jax.lax.stop_gradient(z) + s * (z - jax.lax.stop_gradient(z))   # The gradient gets random signs.
      return z - c, {'auxiliary_loss': z @ a}
    if case['model'] == 'linear':
      return z @ W, {'auxiliary_loss': z @ a}
    return jnp.tanh(z @ V) @ U, {'auxiliary_loss': z @ a}

  pixel = case['model'] in ('pixel', 'noisy')
  labels = rng.choice([0.0, 1.0, 2.0, -1.0], size=(case['b'], k), p=[0.2, 0.3, 0.2, 0.3]).astype(np.float32) if pixel else np.eye(3, dtype=np.float32)[rng.integers(0, 3, case['b'])]

  def base_loss(z, y):
    if pixel:
      return jnp.sum(y * z ** 2, axis=-1) / 2
    return optax.softmax_cross_entropy(z, y)

  if case['wrapped']:
    seen = {}
    def train_step(state, images, labels, *args, **kwargs):
      seen.update(args=args, kwargs=kwargs)
      return state, {'images': images, 'labels': labels}
    step = trainer.wrap_train_step_with_adversarial_attack(train_step, base_loss, attack_auxiliary_loss=case['aux'], max_epsilon=eps, num_updates=n)
    # apply_fn of a state takes variables.
    state = train_state_lib.TrainState.create(apply_fn=lambda v, im, **kw: (apply_fn(im, **kw)[0] * v['params']['one'], {'auxiliary_loss': im.reshape(im.shape[0], -1) @ a}),
                                              params={'one': jnp.ones(())}, tx=optax.sgd(0.1), rngs=rngs if rngs is not None else None)
    fn = jax.jit(step) if case['jit'] else step
    new_state, out = fn(state, x, labels)
    adv, new_rngs = np.asarray(out['images']), new_state.rngs
    npu.exact(np.asarray(out['labels']), labels, 'labels given to the wrapped step')
    require(int(new_state.step) == 0, 'the attack advanced the step')
  else:
    def loss_fn(z, y, metrics):
      l = base_loss(z, y)
      return l + jnp.mean(metrics['auxiliary_loss']) if case['aux'] else l
    f = functools.partial(attacks.stateless_attack_pgd, max_epsilon=eps, num_updates=n, apply_fn=apply_fn, loss_fn=loss_fn)
    fn = jax.jit(f) if case['jit'] else f
    adv, new_rngs = fn(jnp.asarray(x), jnp.asarray(labels), rngs)
    adv = np.asarray(adv)
  jax.effects_barrier()
  npu.same_shape(adv, x.shape, 'adversarial images')
  require(adv.dtype == x.dtype, 'adversarial images: dtype', got=adv.dtype)
  scale = float(np.abs(x).max()) + eps
  diff = np.abs(adv.astype(np.float64) - x.astype(np.float64))
  require(diff.max() <= eps * (1 + 1e-5) + 4e-7 * scale * n, 'perturbation larger than allowed', got=float(diff.max()), eps=eps)
  # Random keys.
  if rngs is None:
    require(new_rngs is None, 'random keys appeared')
  else:
    require(sorted(new_rngs) == sorted(rngs), 'random keys: names', got=sorted(new_rngs))
    for m in names:
      used = [kk[m] for kk in keys]
      uniq = set(used)
      # The model may be traced/evaluated more than once per update, never fewer times.
      require(len(uniq) == n, 'the updates do not use one fresh key each', distinct=len(uniq), n=n)
      out_k = key_bytes(new_rngs[m])
      require(out_k not in uniq and out_k != key_bytes(rngs[m]) and key_bytes(rngs[m]) not in uniq, 'a random key is used twice')
    if len(names) == 2:
      require(not {kk[names[0]] for kk in keys} & {kk[names[1]] for kk in keys}, 'two streams share a key')
  if pixel and not noisy:
    cc = c.astype(np.float64)
    def dirs(v, i):
      z = v.reshape(case['b'], -1)
      g = labels * (z - cc)
      if case['aux']:
        # Mean over the batch of (loss_i + mean_j aux_j): each pixel gets a / b, as the loss term is divided by b.
        g = g + a
      tol = 1e-4 * (np.abs(labels) * (np.abs(z) + np.abs(cc)) + np.abs(a)) * (1 + i)
      return g.reshape(v.shape), tol.reshape(v.shape)
    want, safe = pixel_reference(x, dirs, eps / n, n)
    got = adv.astype(np.float64)
    err = np.abs(got - want)[safe]
    require(err.size == 0 or err.max() <= 1e-5 * eps + 4e-7 * scale * (n + 1), 'adversarial images differ from the sign steps along the gradient', err=float(err.max()) if err.size else 0, eps=eps, n=n)
    ctx.nontriv('pixel', n, eps, case['aux'], case['wrapped'], case['rngs'])
  elif noisy:
    steps = (adv.astype(np.float64) - x) / (eps / n)
    near = np.abs(steps - np.round(steps))
    require(near.max() <= 1e-2 + 4e-7 * scale * n / (eps / n), 'perturbation is no sum of sign steps', off=float(near.max()))
    ctx.nontriv('noisy', n)
  elif case['model'] == 'linear':
    # Convex loss: every sign step along the gradient increases it.
    z0, z1 = x.reshape(case['b'], -1).astype(np.float64), adv.reshape(case['b'], -1).astype(np.float64)
    def total(z):
      l = softmax_loss(z @ W, labels).mean()
      return l + (z @ a).mean() if case['aux'] else l
    require(total(z1) >= total(z0) - 1e-5 * (1 + abs(total(z0))), 'the attack decreased a convex loss', before=total(z0), after=total(z1))
    if not case['aux']:
      # And by at least the first-order bound of the first step.
      z = z0 @ W
      p = np.exp(z - z.max(-1, keepdims=True))
      p /= p.sum(-1, keepdims=True)
      g = (p - labels) @ W.T
      bound = (np.abs(g).sum(-1)).mean() * eps / n
      require(total(z1) - total(z0) >= bound * 0.999 - 1e-4 * (1 + abs(total(z0))), 'the attack gains less than one gradient step', gain=total(z1) - total(z0), bound=bound)
    ctx.nontriv('linear', n, case['aux'])
  else:
    ctx.nontriv('mlp', n, case['aux'])


# ---------------------------------------------------------------------------
# Disabled attack in training.


@st.composite
def off_cases(draw):
  return dict(n=draw(st.sampled_from([0, -1, 0, 3])), eps=draw(st.sampled_from([0.0, -0.1, 0.0, 0.5])), seed=draw(seeds))


def run_off(case, ctx):
  if case['n'] > 0 and case['eps'] > 0:
    return
  x = np.random.default_rng(case['seed']).normal(size=(2, 3)).astype(np.float32)
  step = trainer.wrap_train_step_with_adversarial_attack(lambda s, im, y: (s, im), lambda z, y: z.sum(-1), attack_auxiliary_loss=False, max_epsilon=case['eps'], num_updates=case['n'])
  state, out = step('state', x, None)
  npu.exact(np.asarray(out), x, 'disabled attack: images')
  require(state == 'state', 'disabled attack: state')
  ctx.nontriv(case['n'], case['eps'])


# ---------------------------------------------------------------------------
# Accumulated statistics.


@st.composite
def stats_cases(draw):
  big = draw(st.integers(0, 7)) == 0
  b = draw(st.integers(130, 700)) if big else draw(st.integers(1, 6))
  steps = draw(st.integers(1, 4))
  return dict(b=b, steps=steps, vdtype=draw(st.sampled_from(['bool', 'float32', 'int32', None])), valid=[draw(st.integers(0, 2**30)) if big else draw(st.lists(st.integers(0, 1), min_size=b, max_size=b)) for _ in range(steps)], routers=draw(st.integers(0, 3)), t=draw(st.integers(1, 4)), e=draw(st.integers(1, 4)), classes=draw(st.integers(1, 3)),
              seed=draw(seeds), jit=draw(st.booleans()), rngs=draw(st.integers(0, 2)))


def iou_ref(a, b):
  """Mean over tokens of the intersection over union, per example."""
  a, b = a > 0, b > 0
  inter, union = (a & b).sum(-1), (a | b).sum(-1)
  return np.where(union > 0, inter / np.maximum(union, 1), 0.0).mean(-1)


def run_stats(case, ctx):
  rng = np.random.default_rng(case['seed'])
  b, total = case['b'], case['b'] * case['steps']
  names = [f'block_{i}/Router/__call__' for i in range(case['routers'])]
  # Tables of what the model says about each image before and after the attack.
  tab = {}
  for when in ('before', 'after'):
    tab[when] = dict(
        loss=rng.normal(size=total).astype(np.float32) * 3, pred=rng.integers(0, case['classes'], total).astype(np.int32), correct=rng.integers(0, 2, total).astype(np.float32),
        cw={m: np.where(rng.random((total, case['t'], case['e'])) < 0.5, rng.random((total, case['t'], case['e'])), 0).astype(np.float32) for m in names})
  j = jax.tree_util.tree_map(jnp.asarray, tab)
  calls = []

  def attack_fn(x, y, rngs):
    new = {m: jax.random.fold_in(v, 7) for m, v in rngs.items()}
    return x + 0.25, new

  def compute_fn(x, y, rngs):
    idx = jnp.round(x[:, 0] - 0.1).astype(jnp.int32)
    after = (x[0, 0] - jnp.floor(x[0, 0])) > 0.2
    pick = lambda p, q: jnp.where(after, q[idx], p[idx])
    o = jax.tree_util.tree_map(pick, j['before'], j['after'])
    for m, v in rngs.items():
      jax.debug.callback(lambda vv, aa, m=m: calls.append((m, key_bytes(vv), bool(aa))), v, after)
    return o['loss'], o['pred'], o['correct'], o['cw']

  rngs = {f'r{i}': jax.random.PRNGKey(case['seed'] % 999 + i) for i in range(case['rngs'])}
  state = attacks.AttackState.create(max_updates=3, router_keys=names, rngs=rngs)
  f = functools.partial(attacks.stateful_attack, stateless_attack_fn=attack_fn, compute_loss_predict_correct_cw_fn=compute_fn)
  if case['jit']:
    f = jax.jit(f)
  # Large batches: the mask by a seed.
  masks = [np.asarray(v) if isinstance(v, list) else (np.random.default_rng(v).random(b) < 0.9).astype(int) for v in case['valid']]
  want = dict(n=0, ch=0, cor=np.zeros(2), loss=np.zeros(2), iou=collections.Counter({m: 0.0 for m in names}))
  for s in range(case['steps']):
    ids = np.arange(s * b, (s + 1) * b)
    x = np.stack([ids + 0.0, rng.normal(size=b)], 1).astype(np.float32)
    y = np.zeros((b, 2), np.float32)
    mask = masks[s]
    valid = None if case['vdtype'] is None else jnp.asarray(mask.astype(case['vdtype']))
    m = np.ones(b) if valid is None else mask
    old = {kk: v for kk, v in state.rngs.items()}
    calls.clear()
    state, x_m, l0, lm, y0, ym, cw0, cwm = f(state, jnp.asarray(x), jnp.asarray(y), valid)
    jax.effects_barrier()
    bb, aa = {kk: v[ids] for kk, v in tab['before'].items() if kk != 'cw'}, {kk: v[ids] for kk, v in tab['after'].items() if kk != 'cw'}
    npu.close(x_m, x + 0.25, 'attacked images', 1e-6, 1e-6)
    for got, w, what in ((l0, bb['loss'] * m, 'loss before'), (lm, aa['loss'] * m, 'loss after')):
      npu.close(got, w, what, 1e-6, 1e-6)
    on = m > 0
    npu.exact(np.asarray(y0)[on], bb['pred'][on], 'prediction before')
    npu.exact(np.asarray(ym)[on], aa['pred'][on], 'prediction after')
    for nm in names:
      npu.close(np.asarray(cw0[nm])[on], tab['before']['cw'][nm][ids][on], 'combine weights before', 1e-6, 1e-7)
      npu.close(np.asarray(cwm[nm])[on], tab['after']['cw'][nm][ids][on], 'combine weights after', 1e-6, 1e-7)
      want['iou'][nm] += float((iou_ref(tab['before']['cw'][nm][ids], tab['after']['cw'][nm][ids]) * m).sum())
    want['n'] += int(m.sum())
    want['ch'] += int(((bb['pred'] != aa['pred']) * m).sum())
    want['cor'] += [(bb['correct'] * m).sum(), (aa['correct'] * m).sum()]
    want['loss'] += [(bb['loss'] * m).sum(), (aa['loss'] * m).sum()]
    for nm in old:
      got_before = {kb for q, kb, after in calls if q == nm and not after}
      got_after = {kb for q, kb, after in calls if q == nm and after}
      require(got_before == {key_bytes(old[nm])} and got_after == {key_bytes(jax.random.fold_in(old[nm], 7))}, 'the model is not evaluated with the keys before and after the attack')
      require(key_bytes(state.rngs[nm]) == key_bytes(jax.random.fold_in(old[nm], 7)), 'the keys in the state are not those after the attack')
    ctx.more(1)
  require(int(state.num_images) == want['n'], 'num_images', got=state.num_images, want=want['n'])
  require(int(state.num_changes) == want['ch'], 'num_changes', got=state.num_changes, want=want['ch'])
  npu.close(state.num_correct, want['cor'], 'num_correct', 1e-6, 1e-6)
  npu.close(state.sum_loss, want['loss'], 'sum_loss', 1e-5, 1e-4)
  require(sorted(state.sum_iou_experts) == sorted(names), 'routers')
  for nm in names:
    npu.close(state.sum_iou_experts[nm], want['iou'][nm], f'sum_iou_experts {nm}', 1e-5, 1e-5)
  require(state.max_updates == 3, 'max_updates')
  if case['vdtype'] and any(0 in v for v in masks) and want['n']:
    ctx.nontriv(b, case['steps'], case['vdtype'], case['routers'])


# ---------------------------------------------------------------------------
# What the model says.


@st.composite
def model_cases(draw):
  return dict(kind=draw(st.sampled_from(['cw', 'cw', 'predict', 'mesh'])), disp=draw(st.sampled_from(['einsum', 'indices', 'bf16_einsum', 'bf16_indices', 'none'])), b=draw(st.integers(1, 4)), t=draw(st.integers(1, 4)), e=draw(st.integers(1, 5)), k=draw(st.integers(1, 3)), c=draw(st.integers(1, 4)),
              g=draw(st.sampled_from([1, 2])), seed=draw(seeds), loss=draw(st.sampled_from(['softmax_xent', 'sigmoid_xent'])), aux=draw(st.booleans()), classes=draw(st.integers(1, 5)), parts=draw(st.sampled_from([1, 2, 4, 5, 100])), layers=draw(st.integers(1, 2)), multi=draw(st.booleans()))


def run_model(case, ctx):
  rng = np.random.default_rng(case['seed'])
  if case['kind'] == 'mesh':
    mesh = restore.create_mesh(case['parts'])
    nd = jax.device_count()
    require(mesh.axis_names == ('expert', 'replica') and mesh.devices.size == nd, 'create_mesh')
    want = min(case['parts'], nd)
    if nd % want == 0:
      require(mesh.devices.shape[0] <= want, 'create_mesh: too many expert partitions', got=mesh.devices.shape)
    require(len({d.id for d in mesh.devices.flat}) == nd, 'create_mesh: devices not used once')
    return
  b, t, e, k = case['b'], case['t'], case['e'], min(case['k'], case['e'])
  tokens = b * t
  g = case['g'] if tokens % case['g'] == 0 else 1
  s = tokens // g
  inter, wants = {}, {}
  for l in range(case['layers']):
    sel = np.stack([rng.permutation(e)[:k] for _ in range(tokens)]).reshape(g, s, k)
    w = rng.uniform(0.1, 1.0, size=(g, s, k)).astype(np.float32)
    dense = np.zeros((g, s, e))
    np.put_along_axis(dense, sel, w, axis=-1)
    if 'einsum' in case['disp']:
      c = case['c']
      cw = np.zeros((g, s, e, c), np.float32)
      slot = rng.integers(0, c, size=(g, s, e))
      np.put_along_axis(cw, slot[..., None], dense[..., None].astype(np.float32), axis=-1)
      # Some items got no place in the buffer.
      lost = rng.random((g, s, e)) < 0.2
      cw[lost] = 0
      dense[lost] = 0
      d = moe.EinsumDispatcher(combine_weights=jnp.asarray(cw))
    else:
      d = moe.ExpertIndicesDispatcher(indices=jnp.asarray(np.stack([sel, rng.integers(0, 3, sel.shape)], -1).astype(np.int32)), combine_weights=jnp.asarray(w), num_experts=e, capacity=3)
    if case['disp'].startswith('bf16'):
      d = moe.Bfloat16Dispatcher(dispatcher=d)
    inter[f'block_{l}'] = {'Router': {'__call__': ((d, {'m': 1}),)}}
    wants[f'block_{l}/Router/__call__'] = dense.reshape(b, t, e)
  nothing = case['disp'] == 'none'
  inter = {} if nothing else {'intermediates': inter}
  wants = {} if nothing else wants
  logits = rng.normal(size=(b, case['classes'])).astype(np.float32) * 3
  y = (rng.integers(0, 2, size=logits.shape).astype(np.float32) if case['multi'] else np.eye(case['classes'], dtype=np.float32)[rng.integers(0, case['classes'], b)])
  if case['kind'] == 'cw':
    got = restore.get_combine_weights(inter)
    require(sorted(got) == sorted(wants), 'combine weights: names', got=sorted(got))
    for m in wants:
      npu.close(got[m], wants[m].reshape(-1, e), 'combine weights', 1e-6, 1e-7)
    ctx.nontriv(case['disp'], case['layers'], k)
    return
  x = rng.normal(size=(b, 3)).astype(np.float32)
  aux = rng.normal(size=3).astype(np.float32)
  seen = {}

  def apply_fn(images, rngs, capture_intermediates):
    seen['filter'] = capture_intermediates
    seen['rngs'] = rngs
    return (jnp.asarray(logits) + 0 * images.sum(), {'auxiliary_loss': jnp.asarray(aux)}), inter

  loss_fn = restore.get_loss_including_auxiliary_fn(name=case['loss'], attack_auxiliary_loss=case['aux'])
  loss, pred, correct, cw = restore.compute_loss_predict_cw_fn(jnp.asarray(x), jnp.asarray(y), {'r': 1}, apply_fn=apply_fn, loss_fn=loss_fn)
  want = (softmax_loss if case['loss'] == 'softmax_xent' else sigmoid_loss)(logits, y) + (aux.astype(np.float64).mean() if case['aux'] else 0)
  npu.close(loss, want, 'loss per example', 1e-5, 1e-5)
  npu.exact(np.asarray(pred), logits.argmax(-1), 'prediction')
  npu.close(correct, y[np.arange(b), logits.argmax(-1)], 'correct', 1e-6, 1e-6)
  require(seen['rngs'] == {'r': 1}, 'rngs not passed')
  require(sorted(cw) == sorted(wants), 'combine weights: names')
  for m in wants:
    npu.close(cw[m], wants[m], 'combine weights by image', 1e-6, 1e-7)
  ctx.nontriv('predict', case['loss'], case['aux'], case['disp'], b)
  try:
    restore.get_loss_fn('nosuchloss')
  except ValueError:
    return
  require(False, 'an unknown loss was accepted')


# ---------------------------------------------------------------------------
# Stored examples.


@st.composite
def store_cases(draw):
  return dict(every=draw(st.integers(1, 5)), steps=draw(st.integers(0, 9)), names=draw(st.lists(st.sampled_from(['x_0', 'y', 'cw_0/a/b', 'valid', 'l_m']), min_size=1, max_size=4, unique=True)), sizes=draw(st.lists(st.integers(1, 4), min_size=9, max_size=9)), seed=draw(seeds), first=draw(st.integers(0, 2)))


def run_store(case, ctx):
  tmp = tempfile.mkdtemp(prefix='verif_c25_')
  try:
    path = os.path.join(tmp, 'sub', 'examples-000-of-001')
    st_ = lib.ExampleStorage(path, transfer_every_steps=case['every'])
    rng = np.random.default_rng(case['seed'])
    want = {n: [] for n in case['names']}
    for i in range(case['steps']):
      arrs = {n: rng.normal(size=(case['sizes'][i], 2)).astype(np.float32) for n in case['names']}
      st_.store(step=case['first'] + i, **{n: jnp.asarray(v) for n, v in arrs.items()})
      for n in arrs:
        want[n].append(arrs[n])
    st_.write()
    require(st_.filepath == path, 'filepath')
    if not case['steps']:
      return
    with np.load(path) as f:
      require(sorted(f.files) == sorted(case['names']), 'stored names', got=f.files)
      for n in case['names']:
        npu.exact(f[n], np.concatenate(want[n]), f'stored {n}')
    ctx.nontriv(case['every'], case['steps'], len(case['names']))
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------------------
# The whole program.


@st.composite
def e2e_cases(draw):
  b = draw(st.sampled_from([4, 8]))
  n = draw(st.integers(1, 3))
  return dict(b=b, batches=n, tail=draw(st.integers(0, b - 1)), moe=draw(st.booleans()), eps=draw(st.sampled_from([0.05, 0.5])), updates=draw(st.integers(1, 3)), loss=draw(st.sampled_from(['softmax_xent', 'sigmoid_xent'])), aux=draw(st.booleans()), seed=draw(seeds), every=draw(st.integers(1, 3)), parts=draw(st.sampled_from([1, 2])))


def run_e2e(case, ctx):
  rng = np.random.default_rng(case['seed'])
  b, classes = case['b'], 3
  model_kw = dict(num_classes=classes, patch_size=(2, 2), hidden_size=8, encoder=dict(num_layers=2, mlp_dim=8, num_heads=2, dropout_rate=0.0, attention_dropout_rate=0.0, moe=dict(
      layers=(1,) if case['moe'] else (), num_experts=2, group_size=b * 4 // 4, dropout_rate=0.0, router=dict(num_selected_experts=1, noise_std=0.0, dispatcher=dict(name='einsum', capacity_factor=2.0, batch_priority=False, bfloat16=False)))), classifier='gap')
  model = vit_moe.VisionTransformerMoe(**model_kw, deterministic=True)
  img = rng.normal(size=(case['batches'], b, 4, 4, 3)).astype(np.float32)
  params = jax.tree_util.tree_map(lambda v: np.asarray(rng.normal(size=v.shape) * 0.4, np.float32), jax.eval_shape(lambda: model.init(jax.random.PRNGKey(0), img[0]))['params'])
  labels = np.eye(classes, dtype=np.float32)[rng.integers(0, classes, (case['batches'], b))]
  valid = np.ones((case['batches'], b), bool)
  if case['tail']:
    valid[-1, case['tail']:] = False
  tmp = tempfile.mkdtemp(prefix='verif_c25_')
  try:
    prefix = os.path.join(tmp, 'ckpt_5')
    partitioned.save_checkpoint(prefix=prefix, tree=jax.tree_util.tree_map(jnp.asarray, params)).get()
    config = ml_collections.ConfigDict(dict(
        dataset=dict(name='fake', split='x', process='', batch_size=b), restore={'from': 'checkpoint', 'prefix': prefix}, model=dict(name='VisionTransformerMoe', **model_kw), loss=dict(name=case['loss'], attack_auxiliary_loss=case['aux'] and case['moe']),
        num_updates=case['updates'], max_epsilon=case['eps'], params_axis_resources=[('Moe/Mlp/.*', ('expert',))], store_examples=dict(transfer_every_steps=case['every']), num_expert_partitions=case['parts'], extra_rng_keys=()))
    ds = Dataset([{'image': img[i], 'labels': labels[i], VALID: valid[i]} for i in range(case['batches'])])
    writer = Writer()
    mesh = restore.create_mesh(1)
    with mock.patch.object(input_pipeline, 'get_dataset', lambda **kw: ds), mock.patch.object(input_pipeline, 'get_data_num_examples', lambda *a, **kw: int(valid.sum())):
      lib.run_pgd_attack(config, tmp, mesh, writer)
    with np.load(os.path.join(tmp, 'pgd_state.npz')) as f:
      state = {k: f[k] for k in f.files}
    with np.load(os.path.join(tmp, 'examples-000-of-001')) as f:
      ex = {k: f[k] for k in f.files}
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  v = valid.reshape(-1)
  npu.exact(ex['x_0'], img.reshape(-1, 4, 4, 3), 'stored original images')
  npu.exact(ex['y'], labels.reshape(-1, classes), 'stored labels')
  npu.exact(ex['valid'].astype(bool), v, 'stored valid mask')
  d = np.abs(ex['x_m'].astype(np.float64) - ex['x_0'])
  require(d.max() <= case['eps'] * (1 + 1e-5) + 1e-5, 'stored images: perturbation larger than allowed', got=float(d.max()), eps=case['eps'])
  require(d[v].max() > case['eps'] / case['updates'] * 0.5, 'the attack did nothing')
  def predict(images):
    out = []
    for i in range(case['batches']):
      z, m = model.apply({'params': params}, images[i * b:(i + 1) * b])
      l = (softmax_loss if case['loss'] == 'softmax_xent' else sigmoid_loss)(z, labels[i])
      if case['aux'] and case['moe']:
        l = l + np.asarray(m['auxiliary_loss'], np.float64).mean()
      out.append((np.asarray(z, np.float64), l))
    return np.concatenate([o[0] for o in out]), np.concatenate([o[1] for o in out])
  changed = {}
  tot = {}
  for tag, col in (('0', ex['x_0']), ('m', ex['x_m'])):
    z, l = predict(col)
    srt = np.sort(z, -1)
    gap = srt[:, -1] - srt[:, -2]
    ok = v & (gap > 1e-3)
    npu.exact(ex[f'y_{tag}'][ok], z.argmax(-1)[ok], f'stored predictions y_{tag}')
    npu.close(ex[f'l_{tag}'][v], l[v], f'stored losses l_{tag}', 1e-3, 1e-3)
    tot[tag] = (ex[f'l_{tag}'][v].astype(np.float64).sum(), labels.reshape(-1, classes)[np.arange(len(v)), ex[f'y_{tag}'].astype(int)][v].sum())
  n = int(v.sum())
  require(int(state['num_images']) == n, 'num_images', got=state['num_images'], want=n)
  ch = int((ex['y_0'] != ex['y_m'])[v].sum())
  require(int(state['num_changes']) == ch, 'num_changes', got=state['num_changes'], want=ch)
  npu.close(state['num_correct'], [tot['0'][1], tot['m'][1]], 'num_correct', 1e-6, 1e-6)
  npu.close(state['sum_loss'], [tot['0'][0], tot['m'][0]], 'sum_loss', 1e-4, 1e-4)
  routers = sorted(k[len('cw_0/'):] for k in ex if k.startswith('cw_0/'))
  require(bool(routers) == case['moe'], 'routers', got=routers)
  sc = writer.scalars
  require(sorted(sc) == [0, case['updates']], 'steps written', got=sorted(sc))
  npu.close(sc[0]['error'], 1 - tot['0'][1] / n, 'error before', 1e-5, 1e-6)
  npu.close(sc[0]['loss'], tot['0'][0] / n, 'loss before', 1e-4, 1e-5)
  a = sc[case['updates']]
  npu.close(a['error'], 1 - tot['m'][1] / n, 'error after', 1e-5, 1e-6)
  npu.close(a['loss'], tot['m'][0] / n, 'loss after', 1e-4, 1e-5)
  npu.close(a['prediction_changes'], ch / n, 'prediction changes', 1e-5, 1e-6)
  for r in routers:
    cw0, cwm = ex[f'cw_0/{r}'], ex[f'cw_m/{r}']
    iou = (iou_ref(cw0, cwm) * v).sum()
    npu.close(state[f'sum_iou_experts/{r}'], iou, 'sum_iou_experts', 1e-5, 1e-5)
    npu.close(a[f'routing_changes/{r}'], 1 - iou / n, 'routing changes', 1e-5, 1e-5)
  ctx.more(len(v))
  ctx.nontriv(case['b'], case['batches'], case['moe'], case['updates'], case['tail'] > 0)


SUBS = [
    Sub('pgd', pgd_cases(), run_pgd, quick=98, thorough=3000),
    Sub('off', off_cases(), run_off, quick=14, thorough=60, max_shards=1),
    Sub('stats', stats_cases(), run_stats, quick=56, thorough=2000),
    Sub('model', model_cases(), run_model, quick=210, thorough=4000),
    Sub('store', store_cases(), run_store, quick=70, thorough=1500),
    Sub('program', e2e_cases(), run_e2e, quick=21, thorough=140),
]
