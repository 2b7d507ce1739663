"""C28: ViT-MoE models against a float64 reference of the whole network."""
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.nn import models
from vmoe.nn import vit_moe
from vmoe.nn import vit_moe_ensemble
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu
from vlib import ref_routing
from vlib.ref_losses import softmax

TIME_GUARD = {'quick': 420, 'thorough': 3600}
SOFT = 'vmoe.projects.soft_moe.router.SoftRouter'
GAP = 2e-5


class NearTie(Exception):
  pass


# ---------------------------------------------------------------- reference
NOISE = []


def well_conditioned(fn, params):
  """fn(params), (output, metrics), unless rounding errors may change it visibly.

  Normalising few values close to each other amplifies any rounding error (up to
  a thousand times), and the float32 variance, computed as E[x^2] - E[x]^2, has an
  error relative to E[x^2]. The parameters are changed by 1e-6 of their value and
  the variances by 3e-7 of E[x^2], about what float32 rounds, and the results must
  remain within a part of the tolerances.
  """
  want, metrics = fn(params)
  for seed in (1, 2, 3):
    rng = np.random.default_rng(seed)
    NOISE.append(rng)
    try:
      out, m = fn(jax.tree_util.tree_map(lambda v: v * (1 + 1e-6 * rng.choice([-1.0, 1.0], size=v.shape)), params))
    finally:
      NOISE.pop()
    near = [np.abs(out - want) <= 5e-5 * max(1, np.abs(want).max())]
    for a, b in zip(jax.tree_util.tree_leaves(metrics), jax.tree_util.tree_leaves(m)):
      near.append(~(np.abs(a - b) > 5e-5 + 5e-4 * np.abs(a)))
    if not all(np.all(v) for v in near):
      raise NearTie()
  return want, metrics


def layer_norm(x, p):
  mu = x.mean(-1, keepdims=True)
  var = ((x - mu)**2).mean(-1, keepdims=True)
  if NOISE:
    var = np.maximum(0.0, var + 3e-7 * (x**2).mean(-1, keepdims=True) * NOISE[-1].choice([-1.0, 1.0], size=var.shape))
  y = (x - mu) / np.sqrt(var + 1e-6)
  y = y * p['scale']
  return y + p['bias'] if 'bias' in p else y


def gelu(x):
  return 0.5 * x * (1 + np.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x**3)))


def mlp(x, p):
  h = gelu(x @ p['Dense_0']['kernel'] + p['Dense_0']['bias'])
  return h @ p['Dense_1']['kernel'] + p['Dense_1']['bias']


def attention(q_in, kv, p, qk_norm):
  q = np.einsum('btd,dhk->bthk', q_in, p['query']['kernel']) + p['query']['bias']
  k = np.einsum('btd,dhk->bthk', kv, p['key']['kernel']) + p['key']['bias']
  v = np.einsum('btd,dhk->bthk', kv, p['value']['kernel']) + p['value']['bias']
  if qk_norm:
    q, k = layer_norm(q, p['query_ln']), layer_norm(k, p['key_ln'])
  else:
    require('query_ln' not in p and 'key_ln' not in p, 'queries and keys are normalised although not asked')
  w = softmax(np.einsum('bqhk,bthk->bhqt', q, k) / math.sqrt(q.shape[-1]))
  return np.einsum('bqhk,hkd->bqd', np.einsum('bhqt,bthk->bqhk', w, v), p['out']['kernel']) + p['out']['bias']


def cv2(x):
  return (x.std() / x.mean())**2


def capacity_of(n, e, d):
  if d.get('capacity'):
    return d['capacity']
  v = n * d['capacity_factor'] / e
  c = math.ceil(v - 1e-9)
  m = d.get('capacity_multiple_of', 4)
  if m:
    c += (-c) % m
  return c


def gaps_ok(values):
  v = np.sort(np.asarray(values))
  return np.all(np.diff(v) > GAP)


def experts_mlp(x, p, e):
  return mlp(x, jax.tree_util.tree_map(lambda a: a[e], p))


def moe_block(x, p, moe):
  """x: (B, T, H). Returns outputs and metrics (deterministic router)."""
  B, T, H = x.shape
  M = moe.get('ensemble_size') or 1
  S, E = moe['group_size'], moe['num_experts']
  router = moe['router']
  name = router.get('name', 'NoisyTopExpertsPerItemRouter')
  # Token (b*M+m, t) sits at position (b, t, m) of the interleaved order.
  ids = np.arange(B * T).reshape(B // M, M, T).transpose(0, 2, 1).reshape(-1, S)
  flat = x.reshape(B * T, H)
  out = np.zeros_like(flat)
  aux, imp, gsh = [], [], []
  metrics = {}
  for group in ids:
    xs = flat[group]
    if name == SOFT:
      mu = p['Router']['mu']
      unit = lambda a, ax: a / np.sqrt((a**2).sum(axis=ax, keepdims=True) + 1e-6)
      logits = np.einsum('md,dnp->mnp', unit(xs, -1), unit(mu, 0)) * p['Router']['scale']
      dw = softmax(logits, axis=0)
      cw = softmax(logits.reshape(S, -1), axis=-1).reshape(logits.shape)
      slots = np.einsum('mnp,md->npd', dw, xs)
      res = np.stack([experts_mlp(slots[e], p['Mlp'], e) for e in range(E)])
      out[group] = np.einsum('mnp,npd->md', cw, res)
      aux.append(0.0)
      continue
    if moe.get('ensemble_size'):
      k = p['Router']['dense']['kernel']  # (H, M, E / M)
      require(k.shape == (H, M, E // M), 'router kernel of an ensemble', got=k.shape)
      gates = np.zeros((S, E))
      per = []
      for m in range(M):
        g = softmax(xs[m::M] @ k[:, m])
        gates[m::M, m * (E // M):(m + 1) * (E // M)] = g
        per.append(g)
    else:
      gates = softmax(xs @ p['Router']['dense']['kernel'])
      per = [gates]
    d = router['dispatcher']
    if name == 'NoisyTopExpertsPerItemRouter':
      K = router.get('num_selected_experts', 1)
      cap = capacity_of(S * K, E, d)
      srt = -np.sort(-gates, axis=1)
      if np.any(srt[:, :K] - np.pad(srt, ((0, 0), (0, 1)), constant_values=-1)[:, 1:K + 1] < GAP):
        raise NearTie
      if d['batch_priority'] and not gaps_ok(gates.max(1)):
        raise NearTie
      kept, _ = ref_routing.top_experts_reference(gates, K, cap, d['batch_priority'])
    else:
      cap = capacity_of(S, E, d)
      srt = -np.sort(-gates, axis=0)
      if cap < S and np.any(srt[cap - 1] - srt[cap] < GAP):
        raise NearTie
      kept = ref_routing.top_items_reference(gates, cap)
    for e in range(E):
      items = [s for s, e2 in kept if e2 == e]
      if items:
        y = experts_mlp(xs[items], p['Mlp'], e)
        for s, v in zip(items, y):
          out[group[s]] += gates[s, e] * v
    i_loss = [cv2(g.sum(0)) for g in per]
    g_loss = [(np.eye(g.shape[1])[g.argmax(1)].mean(0) * g.mean(0)).mean() * g.shape[1]**2 for g in per]
    if name == 'NoisyTopExpertsPerItemRouter':
      wi, wg = router.get('importance_loss_weight', 1.0), router.get('gshard_loss_weight', 0.0)
      a = [max(wi, 0) * i + max(wg, 0) * g for i, g in zip(i_loss, g_loss)]
      if not moe.get('ensemble_size'):
        i_loss, g_loss, a = i_loss[0], g_loss[0], a[0]
      imp.append(i_loss)
      gsh.append(g_loss)
      aux.append(a)
    else:
      aux.append(0.0)
  metrics['auxiliary_loss'] = np.asarray(aux)
  if imp:
    metrics['importance_loss'] = np.asarray(imp)
    metrics['gshard_loss'] = np.asarray(gsh)
  return out.reshape(B, T, H), metrics


def sincos(h, w, c, temperature):
  q = c // 4
  omega = [temperature**(-i / (q - 1)) for i in range(q)]
  rows = []
  for y in range(h):
    for x in range(w):
      rows.append([math.sin(x * o) for o in omega] + [math.cos(x * o) for o in omega] + [math.sin(y * o) for o in omega] + [math.cos(y * o) for o in omega])
  return np.asarray(rows)


def encoder_ref(x, pp, enc, grid=None, token=False):
  """Encoder blocks applied to (B, T, H) inputs."""
  pe = enc.get('position_emb') or {}
  name = pe.get('name', 'learned')
  if name == 'learned':
    x = x + pp['posembed_input']['pos_embedding']
  else:
    require('posembed_input' not in pp, 'learned position embeddings although not asked')
    if name == 'sincos2d':
      x[:, int(token):] += sincos(*grid, x.shape[-1], pe.get('temperature', 10000.))
  moe = enc.get('moe') or {}
  layers = tuple(moe.get('layers', ()))
  M = moe.get('ensemble_size') or 1
  metrics, first = {}, True
  for b in range(enc['num_layers']):
    q = pp[f'encoderblock_{b}']
    if b in layers and first:
      first = False
      x = np.repeat(x, M, axis=0)
    ln = layer_norm(x, q['LayerNorm_0'])
    x = x + attention(ln, ln, q['SelfAttention'], enc.get('attention_qk_norm', False))
    ln = layer_norm(x, q['LayerNorm_1'])
    if b in layers:
      require('Moe' in q and 'Mlp' not in q, f'encoder block {b} must have an MoE layer', params=sorted(q))
      y, metrics[f'encoderblock_{b}'] = moe_block(ln, q['Moe'], moe)
    else:
      require('Mlp' in q and 'Moe' not in q, f'encoder block {b} must not have an MoE layer', params=sorted(q))
      y = mlp(ln, q['Mlp'])
    x = x + y
  x = layer_norm(x, pp['encoder_norm'])
  return x, metrics


def reference(cfg, p, images):
  """cfg: model kwargs. Returns output and metrics."""
  enc = cfg['encoder']
  ph, pw = cfg['patch_size']
  B, H, W, C = images.shape
  h, w = H // ph, W // pw
  x = np.zeros((B, h, w, cfg['hidden_size']))
  for i in range(h):
    for j in range(w):
      patch = images[:, i * ph:(i + 1) * ph, j * pw:(j + 1) * pw]
      x[:, i, j] = np.einsum('bhwc,hwcd->bd', patch, p['embedding']['kernel']) + p['embedding']['bias']
  x = x.reshape(B, h * w, -1)
  token = cfg.get('classifier', 'token') == 'token'
  if token:
    x = np.concatenate([np.broadcast_to(p['cls'], (B, 1, x.shape[-1])), x], axis=1)
  x, metrics = encoder_ref(x, p['Encoder'], enc, (h, w), token)
  cl = cfg.get('classifier', 'token')
  if cl in ('token', '0'):
    x = x[:, 0]
  elif cl == 'gap':
    x = x.mean(1)
  else:
    q = p['MapHead']
    probe = np.broadcast_to(q['probe'], (x.shape[0], 1, x.shape[-1]))
    a = attention(probe, x, q['MultiHeadDotProductAttention'], enc.get('attention_qk_norm', False))
    x = (a + mlp(layer_norm(a, q['LayerNorm']), q['Mlp']))[:, 0]
  if cfg.get('representation_size') is not None:
    x = np.tanh(x @ p['pre_logits']['kernel'] + p['pre_logits']['bias'])
  if cfg.get('num_classes'):
    x = x @ p['head']['kernel'] + p['head']['bias']
  return x, metrics


def random_params(shapes, seed, scale):
  rng = np.random.default_rng(seed)
  flat, tree = jax.tree_util.tree_flatten_with_path(shapes)
  out = []
  for path, s in flat:
    name = jax.tree_util.keystr(path)
    v = rng.normal(size=s.shape)
    if 'scale' in name and s.shape == ():
      v = np.asarray(1.0 + abs(v))
    elif "'scale'" in name:
      v = 1 + 0.2 * v
    elif 'Router' in name:
      v = v * 0.6
    elif 'kernel' in name:
      v = v * scale / math.sqrt(max(1, s.shape[-2] if len(s.shape) > 1 else 1))
    else:
      v = v * 0.3
    require(s.dtype == jnp.float32, 'dtype of the parameters', got=s.dtype, path=name)
    out.append(v.astype(np.float32))
  return jax.tree_util.tree_unflatten(tree, out)


def to64(t):
  return jax.tree_util.tree_map(lambda a: np.asarray(a, np.float64), t)


def divisors(n):
  return [i for i in range(1, n + 1) if n % i == 0]


# --------------------------------------------------------------- generators
@st.composite
def moe_cfg(draw, tokens, ensemble):
  """tokens: number of tokens (of all members) to group."""
  M = ensemble or 1
  E = M * draw(st.integers(1, 3))
  if not ensemble and draw(st.integers(0, 3)) == 0:
    E = 4
  groups = [d for d in divisors(tokens) if d % M == 0 and d <= 40]
  if len(groups) > 1 and draw(st.integers(0, 4)):
    groups = [d for d in groups if d > M] or groups
  S = draw(st.sampled_from(groups))
  router = {}
  kind = 'top' if ensemble else draw(st.sampled_from(['top', 'top', 'top', 'items', 'soft']))
  disp = dict(name='einsum')
  if kind != 'soft':
    if draw(st.booleans()):
      disp['capacity_factor'] = draw(st.sampled_from([1.0, 1.5, 0.7, 4.0]))
      disp['capacity_multiple_of'] = draw(st.sampled_from([None, 4, 2])) if kind == 'top' else None
    else:
      disp['capacity'] = draw(st.integers(1, S))
  if kind == 'top':
    disp['name'] = draw(st.sampled_from(['einsum', 'indices']))
    disp['batch_priority'] = draw(st.booleans())
    router['num_selected_experts'] = draw(st.integers(1, min(2, E // M)))
    if draw(st.booleans()):
      router['importance_loss_weight'] = draw(st.sampled_from([0.0, 0.5, 2.0]))
      router['gshard_loss_weight'] = draw(st.sampled_from([0.0, 1.0, 0.3]))
    if draw(st.booleans()):
      router['name'] = draw(st.sampled_from(['NoisyTopExpertsPerItemRouter', 'vmoe.nn.routing.NoisyTopExpertsPerItemRouter'])) if not ensemble else None
      if router['name'] is None:
        del router['name']
  elif kind == 'items':
    router['name'] = 'NoisyTopItemsPerExpertRouter'
    if disp.get('capacity_factor'):
      disp['capacity_factor'] = draw(st.sampled_from([1.0, 0.5])) if E > 1 else 1.0
      if math.ceil(S * disp['capacity_factor'] / E) < 1 or math.ceil(S * disp['capacity_factor'] / E) > S:
        disp = dict(name='einsum', capacity=1)
  else:
    router['name'] = SOFT
    router['num_slots'] = draw(st.integers(1, 3))
    if draw(st.integers(0, 3)):
      router['compute_similarity_metrics'] = False
  if kind != 'soft':
    router['dispatcher'] = disp
  if draw(st.booleans()):
    router['noise_std'] = draw(st.sampled_from([0.0, 1.0]))
  moe = dict(num_experts=E, group_size=S, router=router)
  if ensemble:
    moe['ensemble_size'] = ensemble
  if draw(st.integers(0, 2)) == 0:
    moe['mlp_dim'] = draw(st.sampled_from([3, 6]))
  if draw(st.integers(0, 3)) == 0:
    moe['dropout_rate'] = 0.5  # Only acts in training.
  return moe


def divide(cfg_router):
  """Routers take names without the path for the reference."""
  moe = dict(cfg_router)
  r = dict(moe['router'])
  if 'name' in r and r['name'] != SOFT:
    r['name'] = r['name'].rsplit('.', 1)[-1]
  moe['router'] = r
  return moe


@st.composite
def model_case(draw, ensemble=False):
  M = draw(st.integers(1, 3)) if ensemble else None
  h, w = draw(st.sampled_from([(1, 1), (2, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 4), (5, 3)]))
  ph, pw = draw(st.sampled_from([(1, 1), (2, 2), (2, 3)]))
  rest = draw(st.sampled_from([(0, 0), (0, 0), (0, 1), (1, 1)]))
  rest = (min(rest[0], ph - 1), min(rest[1], pw - 1))
  cl = draw(st.sampled_from(['token', '0', 'gap', 'map']))
  B = draw(st.integers(1, 4))
  heads = draw(st.sampled_from([1, 2]))
  hidden = draw(st.sampled_from([8, 12]))
  n = h * w + (cl == 'token')
  L = draw(st.sampled_from([1, 2, 3, 4] if ensemble else [1, 2, 3, 2, 5]))
  layers = sorted(draw(st.sets(st.integers(0, L - 1), min_size=1 if draw(st.integers(0, 9)) else 0, max_size=L)))
  # The order in which they are listed does not matter.
  k = draw(st.integers(0, L - 1))
  layers = layers[k:] + layers[:k]
  enc = dict(num_layers=L, mlp_dim=draw(st.sampled_from([4, 7])), num_heads=heads)
  moe = draw(moe_cfg(B * n * (M or 1), M))
  moe['layers'] = layers
  enc['moe'] = moe
  if not ensemble:
    if not layers and draw(st.booleans()):
      enc['moe'] = draw(st.sampled_from([None, {}]))
    if draw(st.integers(0, 3)) < (2 if cl == 'map' else 1):
      enc['attention_qk_norm'] = True
    pe = draw(st.sampled_from([None, 'learned', 'none', 'sincos2d', 'sincos2d']))
    if pe is not None:
      enc['position_emb'] = dict(name=pe)
      if pe == 'sincos2d' and draw(st.booleans()):
        enc['position_emb']['temperature'] = draw(st.sampled_from([100., 10.]))
  if draw(st.integers(0, 3)) == 0:
    enc['dropout_rate'] = 0.3
    enc['attention_dropout_rate'] = 0.2
  cfg = dict(num_classes=draw(st.sampled_from([3, 5, 1, None, 0])), patch_size=[ph, pw], hidden_size=hidden, encoder=enc, classifier=cl)
  if draw(st.booleans()):
    cfg['representation_size'] = draw(st.sampled_from([4, 9]))
  return dict(cfg=cfg, B=B, image=[h * ph + rest[0], w * pw + rest[1]], seed=draw(seeds), ensemble=ensemble, scale=draw(st.sampled_from([1.0, 2.0])))


def build(cfg, ensemble, **kw):
  cfg = dict(cfg, patch_size=tuple(cfg['patch_size']), **kw)
  cls = models.VisionTransformerMoeEnsemble if ensemble else models.VisionTransformerMoe
  return cls(**cfg)


def run_model(case, ctx):
  cfg = case['cfg']
  rng = np.random.default_rng(case['seed'])
  images = rng.normal(size=(case['B'], *case['image'], 2)).astype(np.float32)
  model = build(cfg, case['ensemble'], deterministic=True)
  shapes = jax.eval_shape(model.init, jax.random.PRNGKey(0), images)
  require(set(shapes) == {'params'}, 'variable collections', got=sorted(shapes))
  params = random_params(shapes['params'], case['seed'] + 1, case['scale'])
  rcfg = dict(cfg, encoder=dict(cfg['encoder']))
  if rcfg['encoder'].get('moe'):
    rcfg['encoder']['moe'] = divide(rcfg['encoder']['moe'])
  if rcfg['encoder'].get('moe'):
    rcfg['encoder']['moe'].setdefault('mlp_dim', rcfg['encoder']['mlp_dim'])
  try:
    want, want_m = well_conditioned(lambda p: reference(rcfg, p, images.astype(np.float64)), to64(params))
  except NearTie:
    ctx.event('near_tie')
    return
  out, metrics = jax.jit(lambda p, x: model.apply({'params': p}, x))(params, images)
  soft = ((cfg['encoder'].get('moe') or {}).get('router') or {}).get('name') == SOFT  # Transports bfloat16.
  npu.close(out, want, 'output of the model', rtol=2e-3, atol=(8e-2 if soft else 2e-4) * max(1, np.abs(want).max()))
  blocks = {k for k in metrics if k.startswith('encoderblock')}
  require(blocks == set(want_m), 'metrics are reported for exactly the MoE blocks', got=sorted(blocks), want=sorted(want_m))
  total = np.asarray(0.0)
  for b, m in want_m.items():
    for name, v in m.items():
      require(name in metrics[b], 'metric missing', block=b, name=name)
      got = npu.f64(metrics[b][name])
      if v.any() or got.size == v.size:
        npu.close(got.reshape(v.shape) if got.size == v.size else got, v, f'{b}/{name}', rtol=2e-3, atol=1e-4)
      else:
        require(not got.any(), f'{b}/{name} must be zero', got=got)
    total = total + m['auxiliary_loss']
  got = npu.f64(metrics['auxiliary_loss'])
  if np.any(total):
    npu.close(got, total, 'auxiliary loss = sum over the MoE blocks', rtol=2e-3, atol=1e-4)
  else:
    require(not got.any(), 'auxiliary loss without any auxiliary loss of a block', got=got)
  moe = cfg['encoder'].get('moe') or {}
  if moe.get('layers'):
    n = case['B'] * (want.shape[0] // case['B'])
    ctx.nontriv('model', case['ensemble'], cfg['classifier'], len(moe['layers']), moe['group_size'], moe['num_experts'], moe['router'].get('name'),
                (cfg['encoder'].get('position_emb') or {}).get('name'), n)
  ctx.event('class_' + cfg['classifier'])
  ctx.event('router_' + str((moe.get('router') or {}).get('name', 'default')))


# ------------------------------------------------------------- the MoE block
@st.composite
def block_case(draw):
  M = draw(st.sampled_from([None, None, 1, 2, 3]))
  B, T = draw(st.integers(1, 5)), draw(st.integers(1, 7))
  return dict(M=M, B=B, T=T, H=draw(st.sampled_from([4, 6])), moe=draw(moe_cfg(B * T * (M or 1), M)), seed=draw(seeds))


def run_block(case, ctx):
  moe = dict(case['moe'])
  moe.setdefault('mlp_dim', 5)
  M = case['M']
  rng = np.random.default_rng(case['seed'])
  x = rng.normal(size=(case['B'] * (M or 1), case['T'], case['H'])).astype(np.float32)
  cls = vit_moe_ensemble.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter if M else vit_moe.MlpMoeBlock
  block = cls(deterministic=True, **moe)
  shapes = jax.eval_shape(block.init, jax.random.PRNGKey(0), x)
  params = random_params(shapes['params'], case['seed'] + 1, 1.5)
  try:
    want, want_m = moe_block(x.astype(np.float64), to64(params), divide(moe))
  except NearTie:
    ctx.event('near_tie')
    return
  out, metrics = jax.jit(lambda p, x: block.apply({'params': p}, x))(params, x)
  soft = moe['router'].get('name') == SOFT  # Transports bfloat16.
  npu.close(out, want, 'output of the MoE block', rtol=2e-3, atol=2e-2 * max(1, np.abs(want).max()) if soft else 2e-4)
  for name, v in want_m.items():
    got = npu.f64(metrics[name])
    if v.any() or got.size == v.size:
      npu.close(got.reshape(v.shape) if got.size == v.size else got, v, name, rtol=2e-3, atol=1e-4)
    else:
      require(not got.any(), f'{name} must be zero', got=got)
  G = x.shape[0] * x.shape[1] // moe['group_size']
  ctx.event('groups_straddle_images' if moe['group_size'] % case['T'] and case['T'] % moe['group_size'] else 'groups_aligned')
  if G * moe['group_size'] > 2 and moe['num_experts'] > 1:
    ctx.nontriv('block', M, case['B'], case['T'], moe['group_size'], moe['num_experts'], moe['router'].get('name'))


# ------------------------------------------- independence (no reference used)
@st.composite
def indep_case(draw):
  case = draw(model_case(ensemble=draw(st.booleans())))
  cfg = case['cfg']
  moe = cfg['encoder'].get('moe') or {}
  M = moe.get('ensemble_size') or 1
  n = (case['image'][0] // cfg['patch_size'][0]) * (case['image'][1] // cfg['patch_size'][1]) + (cfg['classifier'] == 'token')
  B = case['B'] = draw(st.integers(2, 4))
  E = M * draw(st.integers(2, 3))
  groups = [d for d in divisors(B * n * M) if d % M == 0]
  moe = dict(num_experts=E, group_size=draw(st.sampled_from(groups)), layers=moe.get('layers', ()),
             router=dict(num_selected_experts=draw(st.integers(1, 2)), noise_std=draw(st.sampled_from([0.0, 1.0])),
                         dispatcher=dict(name=draw(st.sampled_from(['einsum', 'indices'])), capacity_factor=float(E), batch_priority=draw(st.booleans()))))
  if case['ensemble']:
    moe['ensemble_size'] = M
  cfg['encoder']['moe'] = moe
  case['other_group'] = draw(st.sampled_from(groups))
  case['tokens'] = n
  case['perm'] = draw(st.permutations(range(B)))
  return case


def run_indep(case, ctx):
  cfg = case['cfg']
  B, n = case['B'], case['tokens']
  moe = cfg['encoder']['moe']
  M = moe.get('ensemble_size') or 1
  rng = np.random.default_rng(case['seed'])
  images = rng.normal(size=(B, *case['image'], 2)).astype(np.float32)

  def make(group):
    c = dict(cfg, encoder=dict(cfg['encoder'], moe=dict(moe, group_size=group)))
    return build(c, case['ensemble'], deterministic=True)
  model = make(moe['group_size'])
  params = random_params(jax.eval_shape(model.init, jax.random.PRNGKey(0), images)['params'], case['seed'] + 1, 1.0)
  fn = lambda m: jax.jit(lambda x: m.apply({'params': params}, x)[0])
  base = npu.f64(fn(model)(images))
  rep = M if moe['layers'] else 1
  npu.same_shape(base[:, :0], (B * rep, 0), 'rows of the output')
  base = base.reshape(B, rep, -1)
  tol = dict(rtol=2e-3, atol=5e-4 * max(1, np.abs(base).max()))
  perm = list(case['perm'])
  p_out = npu.f64(fn(model)(images[perm])).reshape(base.shape)
  npu.close(p_out, base[perm], 'permuting the images permutes the outputs', **tol)
  other = npu.f64(fn(make(case['other_group']))(images)).reshape(base.shape)
  npu.close(other, base, 'output with another group size', **tol)
  solo = divisors(n * M)[-1]
  i = perm[0]
  one = npu.f64(fn(make(solo))(images[i:i + 1])).reshape(1, rep, -1)
  npu.close(one, base[i:i + 1], 'output of an image alone', **tol)
  if moe['layers']:
    ctx.nontriv('indep', case['ensemble'], B, n, moe['group_size'], case['other_group'], cfg['classifier'])


# -------------------------------------------- stochastic mode, initialisation
@st.composite
def mode_case(draw):
  return dict(what=draw(st.sampled_from(['dropout', 'gating', 'init', 'expert_init', 'split_dropout', 'external', 'errors'])), seed=draw(seeds),
              rates=[draw(st.sampled_from([0.0, 0.0, 0.5])) for _ in range(3)], det=draw(st.booleans()),
              rdet=draw(st.sampled_from([None, None, True, False])), noise=draw(st.sampled_from([0.0, 1.0, 3.0])),
              split=draw(st.sampled_from([False, True, ['params'], ['dropout'], [], ['params', 'dropout']])), ensemble=draw(st.sampled_from([None, None, 2])),
              bias=draw(st.sampled_from([0.0, -10.0, 1.5])), zero=draw(st.booleans()), model=draw(st.sampled_from(['mixer', 'vit'])))


def small_cfg(case, **moe_kw):
  M = case['ensemble']
  router = dict(num_selected_experts=1, noise_std=case['noise'], dispatcher=dict(name='einsum', capacity_factor=4.0, batch_priority=False))
  if case['rdet'] is not None:
    router['deterministic'] = case['rdet']
  moe = dict(num_experts=4, group_size=8 if not M else 8, layers=(1,), router=router, **moe_kw)
  if M:
    moe['ensemble_size'] = M
  return dict(num_classes=3, patch_size=[2, 2], hidden_size=8, classifier='gap', encoder=dict(num_layers=2, mlp_dim=16, num_heads=2, moe=moe))


def run_mode(case, ctx):
  what = case['what']
  rng = np.random.default_rng(case['seed'])
  k = lambda i: jax.random.PRNGKey(case['seed'] % 1000 * 17 + i)
  images = rng.normal(size=(2, 4, 4, 2)).astype(np.float32)
  if what in ('dropout', 'gating'):
    cfg = small_cfg(case)
    rates = case['rates'] if what == 'dropout' else [0.0] * 3
    cfg['encoder']['dropout_rate'], cfg['encoder']['attention_dropout_rate'] = rates[:2]
    cfg['encoder']['moe']['dropout_rate'] = rates[2]
    m_det = build(cfg, bool(case['ensemble']), deterministic=True)
    m = build(cfg, bool(case['ensemble']), deterministic=case['det'])
    params = random_params(jax.eval_shape(m_det.init, {'params': k(0), 'gating': k(1)}, images)['params'], case['seed'], 1.5)
    fn = jax.jit(lambda x, kd, kg: m.apply({'params': params}, x, rngs={'dropout': kd, 'gating': kg})[0])
    a, b, c, d = (npu.f64(fn(images, k(i), k(j))) for i, j in ((2, 3), (2, 3), (4, 3), (2, 5)))
    npu.exact(a, b, 'same rngs, same output')
    random = not case['det'] and any(rates)
    if random:
      require(np.any(np.abs(a - c) > 1e-6), 'dropout has no effect in training mode', rates=rates)
    else:
      npu.close(c, a, 'the dropout rng has no effect without dropout', rtol=1e-6)
    rdet = case['det'] if case['rdet'] is None else case['rdet']
    noisy = not rdet and case['noise'] > 0
    if noisy:
      require(np.any(np.abs(a - d) > 1e-7), 'routing noise has no effect', noise=case['noise'])
    else:
      npu.close(d, a, 'the gating rng has no effect without routing noise', rtol=1e-6)
    if not random and not noisy:
      clean = dict(cfg, encoder=dict(cfg['encoder'], dropout_rate=0.0, attention_dropout_rate=0.0, moe=dict(cfg['encoder']['moe'], dropout_rate=0.0)))
      o = build(clean, bool(case['ensemble']), deterministic=True)
      r = dict(clean['encoder']['moe']['router'], deterministic=True)
      clean['encoder']['moe']['router'] = r
      npu.close(build(clean, bool(case['ensemble']), deterministic=True).apply({'params': params}, images)[0], a, 'without noise and dropout the model is deterministic', rtol=1e-3, atol=1e-4)
      del o
    _, met = m.apply({'params': params}, images, rngs={'dropout': k(2), 'gating': k(3)})
    require(('load_loss' in met['encoderblock_1']) == noisy, 'the load loss is reported exactly with routing noise', noisy=noisy)
    ctx.nontriv(what, case['det'], case['rdet'], case['noise'], tuple(rates), case['ensemble'])
  elif what == 'init':
    cfg = small_cfg(case)
    cfg.update(head_bias_init=case['bias'], head_kernel_zero_init=case['zero'])
    m = build(cfg, bool(case['ensemble']), deterministic=True)
    v = jax.jit(m.init)({'params': k(0), 'gating': k(1)}, images)
    npu.exact(v['params']['head']['bias'], np.full(3, case['bias'], np.float32), 'initial bias of the head')
    require(bool(np.any(v['params']['head']['kernel'])) != case['zero'], 'initial kernel of the head', zero=case['zero'])
    ctx.nontriv(what, case['bias'], case['zero'])
  elif what == 'expert_init':
    cfg = small_cfg(case, split_rngs=case['split'])
    m = build(cfg, bool(case['ensemble']), deterministic=True)
    v = jax.jit(m.init)({'params': k(0), 'gating': k(1)}, images)
    split = case['split'] if isinstance(case['split'], bool) else 'params' in case['split']
    kern = npu.f64(v['params']['Encoder']['encoderblock_1']['Moe']['Mlp']['Dense_0']['kernel'])
    npu.same_shape(kern, (4, 8, 16), 'experts are stacked on the first axis')
    for e in range(1, 4):
      same = np.array_equal(kern[0], kern[e])
      require(same != split, 'experts start from the same parameters unless split', expert=e, split=case['split'])
    ctx.nontriv(what, str(case['split']))
  elif what == 'split_dropout':
    # One token per group and all experts selected: with the same parameters
    # and the same mask, the output cannot depend on the gates.
    split = case['split'] if isinstance(case['split'], bool) else 'dropout' in case['split']
    x = rng.normal(size=(2, 3, 6)).astype(np.float32)
    blk = vit_moe.MlpMoeBlock(mlp_dim=16, num_experts=3, group_size=1, dropout_rate=0.5, deterministic=False, split_rngs=case['split'],
                              router=dict(num_selected_experts=3, deterministic=True, dispatcher=dict(name='einsum', capacity=1, batch_priority=False)))
    p = random_params(jax.eval_shape(blk.init, {'params': k(0), 'dropout': k(1)}, x)['params'], case['seed'], 1.0)
    p['Mlp'] = jax.tree_util.tree_map(lambda a: np.broadcast_to(a[:1], a.shape), p['Mlp'])
    q = dict(p, Router={'dense': {'kernel': -2 * p['Router']['dense']['kernel']}})
    fn = jax.jit(lambda p: blk.apply({'params': p}, x, rngs={'dropout': k(2)})[0])
    a, b = npu.f64(fn(p)), npu.f64(fn(q))
    diff = np.abs(a - b).max()
    if split:
      require(diff > 1e-4, 'dropout masks of the experts are the same although the rng is split', diff=diff)
    else:
      require(diff < 1e-4, 'dropout masks of the experts differ although the rng is not split', diff=diff)
    ctx.nontriv(what, str(case['split']))
  elif what == 'external':
    cls, kw = (models.MlpMixer, dict(patches={'size': (2, 2)}, num_blocks=1, hidden_dim=16, tokens_mlp_dim=4, channels_mlp_dim=4)) if case['model'] == 'mixer' else (
        models.VisionTransformer, dict(patches={'size': (2, 2)}, hidden_size=16, transformer={}))
    m = cls(num_classes=3, deterministic=case['det'], **kw)
    v = cls(num_classes=3, deterministic=True, **kw).init(k(0), images)
    outs = []
    for i in (1, 2):
      o, met = m.apply(v, images, rngs={'dropout': k(i)})
      require(met == {}, 'metrics of an external model', got=met)
      npu.same_shape(o, (2, 3), 'logits')
      outs.append(npu.f64(o))
    require(np.array_equal(outs[0], outs[1]) == case['det'], 'an external model is stochastic exactly in training mode', det=case['det'])
    ctx.nontriv(what, case['model'], case['det'])
  else:
    cfg = small_cfg(case)
    bad = rng.integers(0, 4)
    ens = False
    if bad == 0:
      cfg['classifier'] = ['cls', 'Token', 'GAP', 'mean', 'first', 'maps', '1'][rng.integers(0, 7)]
    elif bad == 1:
      cfg['encoder']['position_emb'] = dict(name=['sincos', 'learn', 'sincos1d', 'Learned'][rng.integers(0, 4)])
      cfg['encoder']['moe'].pop('ensemble_size', None)
    elif bad == 2:
      cfg['hidden_size'] = int(rng.choice([4, 6, 10]))
      cfg['encoder']['position_emb'] = dict(name='sincos2d')
      cfg['encoder']['moe'].pop('ensemble_size', None)
    else:
      ens = True
      cfg['encoder']['moe']['ensemble_size'] = [None, 0, -1, 3][rng.integers(0, 4)]
    if bad != 3:
      cfg['encoder']['moe'].pop('ensemble_size', None)
    try:
      m = build(cfg, ens, deterministic=True)
      jax.eval_shape(m.init, k(0), images)
    except ValueError:
      ctx.nontriv(what, int(bad))
      return
    except Exception as e:
      require(False, 'unsupported options raise a ValueError', error=repr(e)[:200], cfg=cfg)
    require(False, 'unsupported options are accepted', cfg=cfg)


SUBS = [
    Sub('block', block_case(), run_block, quick=112, thorough=4000),
    Sub('model', model_case(), run_model, quick=64, thorough=1500),
    Sub('ensemble', model_case(ensemble=True), run_model, quick=32, thorough=800),
    Sub('independent', indep_case(), run_indep, quick=16, thorough=400),
    Sub('modes', mode_case(), run_mode, quick=72, thorough=800,
        examples=tuple(dict(what='dropout', seed=i, rates=[0.5 * (i == j) for j in range(3)], det=False, rdet=True, noise=0.0, split=False, ensemble=m, bias=0.0, zero=False, model='vit')
                       for i in range(3) for m in (None, 2))),
]
