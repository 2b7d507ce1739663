"""C05: noisy routers."""
import flax.linen as nn
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
import vmoe.nn.routing as routing
from vlib.core import Sub, require, seeds
from vlib import npu
from vlib import ref_losses as rl
from vlib import ref_routing as rr
from checks.c01 import check_decisions


class Probe(nn.Module):
  """Draws the noise that a module draws as its first use of the gating rng."""
  shape: tuple

  @nn.compact
  def __call__(self):
    return jax.random.normal(self.make_rng('gating'), self.shape)


def kernel_of(variables):
  leaves = jax.tree_util.tree_leaves(variables['params'])
  require(len(leaves) == 1, 'the router must have exactly one parameter, the gating matrix', got=len(leaves))
  return leaves[0]


def observe(d, G, S):
  holds, w = rr.extract(d, G, S)
  return holds, w


def full_gates(router_cls, kw, variables, x, rngs, G, S, E):
  """Observes all the gates with K = E and room for everything."""
  r = router_cls(**kw)
  d, _ = r.apply(variables, x, rngs=rngs)
  holds, w = rr.extract(d, G, S)
  return w.sum(axis=3)


@st.composite
def cases(draw):
  E = draw(st.integers(1, 6))
  noise = draw(st.sampled_from([0.0, 0.3, 1.0, 4.0]))
  return dict(G=draw(st.integers(1, 4)), S=draw(st.integers(1, 7)), E=E, K=draw(st.integers(1, min(E, 3))), H=draw(st.integers(1, 4)),
              noise=noise, det=draw(st.booleans()), wg=draw(st.sampled_from([0.0, 0.0, 0.5, 2.0])), wi=draw(st.sampled_from([0.0, 1.0, 0.25])),
              wl=draw(st.sampled_from([0.0, 1.0, 0.75])), cap=draw(st.integers(1, 5)), bp=draw(st.booleans()),
              name=draw(st.sampled_from(['einsum', 'indices'])), bf16=draw(st.booleans()), seed=draw(seeds), scale=draw(st.sampled_from([0.3, 1.0, 3.0])),
              mixed=draw(st.integers(0, 3)) == 0)


@st.composite
def big_cases(draw):
  case = draw(cases())
  E = draw(st.sampled_from([2, 8, 9, 16, 17]))
  return dict(case, big=True, E=E, K=draw(st.integers(1, min(E, 10))), S=draw(st.sampled_from([12, 40, 64])), H=draw(st.sampled_from([2, 8, 20])), G=draw(st.integers(1, 2)),
              wg=draw(st.sampled_from([0.0, 0.5, 0.01, 0.005])), wi=draw(st.sampled_from([0.0, 1.0, 0.005])), wl=draw(st.sampled_from([0.0, 1.0, 0.005])),
              cap=draw(st.integers(1, 12)), scale=draw(st.sampled_from([0.2, 1.0, 10.0])))


def run_experts(case, ctx):
  G, S, E, K, H = (case[k] for k in 'GSEKH')
  rng = np.random.default_rng(case['seed'])
  # Mixed precision: activations in bfloat16, routing in the configured float32.
  x, mixed = rl.mixed(jnp.asarray(rng.normal(size=(G, S, H)), jnp.float32), case)
  W = jnp.asarray(rng.normal(size=(H, E)) * case['scale'], jnp.float32)
  noisy = case['noise'] > 0 and not case['det']
  base = dict(num_experts=E, noise_std=case['noise'], deterministic=case['det'], **mixed)
  common = dict(base, num_selected_experts=K, gshard_loss_weight=case['wg'], importance_loss_weight=case['wi'], load_loss_weight=case['wl'],
                dispatcher=dict(name=case['name'], batch_priority=case['bp'], capacity=case['cap'], bfloat16=case['bf16']))
  key = jax.random.PRNGKey(case['seed'])
  rngs = {'gating': key} if noisy else {}
  init = routing.NoisyTopExpertsPerItemRouter(**common)
  shapes = jax.eval_shape(lambda: init.init({'params': key, 'gating': key}, x))
  kern = kernel_of(shapes)
  npu.same_shape(kern, (H, E), 'gating matrix')
  variables = jax.tree_util.tree_map(lambda _: W, shapes)
  variables = {'params': variables['params']}

  def both(x):
    d, metrics = init.apply(variables, x, rngs=rngs)
    n = G * S
    holds = d.dispatch(jnp.eye(n, dtype=jnp.float32).reshape(G, S, n))
    e, slots = holds.shape[:2]
    w = d.combine(jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots))
    all_r = routing.NoisyTopExpertsPerItemRouter(**dict(base, num_selected_experts=E, dispatcher=dict(name='einsum', batch_priority=False, capacity=S)))
    d2, _ = all_r.apply(variables, x, rngs=rngs)
    h2 = d2.dispatch(jnp.eye(n, dtype=jnp.float32).reshape(G, S, n))
    e2, slots2 = h2.shape[:2]
    w2 = d2.combine(jnp.eye(e2 * slots2, dtype=jnp.float32).reshape(e2, slots2, e2 * slots2))
    return holds, w, metrics, w2.reshape(G, S, e2, slots2).sum(3)
  holds, w, metrics, gates_obs = jax.jit(both)(x)
  x64, W64 = npu.f64(x), npu.f64(W)
  logits = x64 @ W64
  clean = rl.softmax(logits)
  gates_obs = npu.f64(gates_obs)
  if not noisy:
    npu.close(gates_obs, clean, 'gates without noise are not the softmax of the linear logits', rtol=1e-3, atol=1e-5)
    gates = clean
    noisy_logits = logits
  else:
    noise = npu.f64(Probe((G, S, E)).apply({}, rngs=rngs))
    noisy_logits = logits + noise * case['noise'] / E
    gates = rl.softmax(noisy_logits)
    npu.close(gates_obs, gates, 'noisy gates are not the softmax of logits plus noise of std noise_std/E', rtol=1e-3, atol=1e-5)
  # Routing.
  if all(rl.margin(gates[g], K, case['bp']) > 1e-5 for g in range(G)):
    expected = [rr.top_experts_reference(gates[g], K, case['cap'], case['bp'])[0] for g in range(G)]
    hs, ws = npu.f64(holds), npu.f64(w)
    require(ws.shape[:2] == (G, S), f'combine output shape {ws.shape}')
    ws = ws.reshape(G, S, *hs.shape[:2])
    check_decisions(hs, ws, expected, G, S, E, case['cap'], 'router', combine_tol=1e-2 if case['bf16'] else 1e-3)
    ctx.event('routing_checked')
  else:
    ctx.event('near_tie')
  # Losses.
  imp = np.array([rl.importance(clean[g]) for g in range(G)])
  gsh = np.array([rl.gshard(gates[g]) for g in range(G)])
  terms = [(case['wg'], gsh), (case['wi'], imp)]
  want = {'importance_loss': imp, 'gshard_loss': gsh}
  if noisy:
    ll = np.array([rl.load(logits[g], noisy_logits[g], case['noise'] / E, K) for g in range(G)])
    want['load_loss'] = ll
    terms.append((case['wl'], ll))
  aux = sum((wt * v for wt, v in terms if wt > 0), np.zeros(G))
  margin_ok = all(rl.margin(gates[g], 1, False) > 1e-5 for g in range(G))
  for k, v in want.items():
    require(k in metrics, f'{k} is not reported')
    if k == 'gshard_loss' and not margin_ok:
      continue
    fine = k != 'load_loss' and case['scale'] <= 1
    npu.close(metrics[k], v, k, rtol=2e-4 if fine else 5e-3, atol=1e-5 if fine else 2e-4)
  if not noisy:
    require('load_loss' not in metrics, 'load loss is reported for a router without noise')
  if margin_ok:
    got = npu.f64(metrics['auxiliary_loss'])
    npu.close(np.broadcast_to(got, (G,)), aux, 'auxiliary loss is not the weighted sum of the losses',
              rtol=5e-3, atol=3e-4 * sum(wt for wt, _ in terms) + 1e-7)
  ctx.event('noisy' if noisy else 'clean')
  if E > 1 and S > 1:
    ctx.nontriv()


def run_items(case, ctx):
  G, S, E, H = (case[k] for k in 'GSEH')
  cap = min(case['cap'], S)
  rng = np.random.default_rng(case['seed'])
  # Mixed precision: activations in bfloat16, routing in the configured float32.
  x, mixed = rl.mixed(jnp.asarray(rng.normal(size=(G, S, H)), jnp.float32), case)
  W = jnp.asarray(rng.normal(size=(H, E)) * case['scale'], jnp.float32)
  noisy = case['noise'] > 0 and not case['det']
  key = jax.random.PRNGKey(case['seed'])
  rngs = {'gating': key} if noisy else {}
  r = routing.NoisyTopItemsPerExpertRouter(num_experts=E, noise_std=case['noise'], deterministic=case['det'], **mixed,
                                           dispatcher=dict(name='einsum', capacity=cap, bfloat16=case['bf16']))
  shapes = jax.eval_shape(lambda: r.init({'params': key, 'gating': key}, x))
  variables = {'params': jax.tree_util.tree_map(lambda _: W, shapes['params'])}
  npu.same_shape(kernel_of(shapes), (H, E), 'gating matrix')

  def both(x):
    d, metrics = r.apply(variables, x, rngs=rngs)
    n = G * S
    holds = d.dispatch(jnp.eye(n, dtype=jnp.float32).reshape(G, S, n))
    e, slots = holds.shape[:2]
    w = d.combine(jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots))
    return holds, w, metrics
  holds, w, metrics = jax.jit(both)(x)
  logits = npu.f64(x) @ npu.f64(W)
  if noisy:
    logits = logits + npu.f64(Probe((G, S, E)).apply({}, rngs=rngs)) * case['noise'] / E
  gates = rl.softmax(logits)
  npu.close(np.max(np.abs(npu.f64(metrics['auxiliary_loss']))), 0.0, 'auxiliary loss of the items router')
  if all(rl.margin_items(gates[g]) > 1e-5 for g in range(G)):
    expected = [rr.top_items_reference(gates[g], cap) for g in range(G)]
    hs, ws = npu.f64(holds), npu.f64(w)
    require(ws.shape[:2] == (G, S), f'combine output shape {ws.shape}')
    ws = ws.reshape(G, S, *hs.shape[:2])
    check_decisions(hs, ws, expected, G, S, E, cap, 'items router', combine_tol=1e-2 if case['bf16'] else 1e-3)
    for g in range(G):
      npu.close(npu.f64(metrics['min_selected_gate'])[g], min(expected[g].values()), 'min_selected_gate', rtol=1e-3, atol=1e-6)
    if E > 1 and S > 1:
      ctx.nontriv()
  else:
    ctx.event('near_tie')
  ctx.event('noisy' if noisy else 'clean')


@st.composite
def tie_cases(draw):
  E = draw(st.integers(2, 9))
  return dict(G=draw(st.integers(1, 3)), S=draw(st.integers(1, 12)), E=E, K=draw(st.integers(1, min(E, 4))), H=draw(st.integers(1, 4)),
              cap=draw(st.integers(1, 12)), bp=draw(st.booleans()), name=draw(st.sampled_from(['einsum', 'indices'])), seed=draw(seeds),
              kernel=draw(st.sampled_from(['zero', 'equal', 'pairs', 'ints', 'ints'])), zero_items=draw(st.booleans()), noise=draw(st.sampled_from([0.0, 1.0])))


def run_ties(case, ctx):
  """Experts with exactly the same gates: each item still counts once."""
  G, S, E, K, H = (case[k] for k in 'GSEKH')
  rng = np.random.default_rng(case['seed'])
  # Small integers, so that equal logits are equal in any order of summation.
  x = rng.integers(-2, 3, size=(G, S, H)).astype(np.float32)
  W = rng.integers(-1, 2, size=(H, E)).astype(np.float32)
  if case['kernel'] == 'zero':
    W[:] = 0
  elif case['kernel'] == 'equal':
    W[:] = W[:, :1]
  elif case['kernel'] == 'pairs':
    W[:, 1::2] = W[:, 0::2][:, :E // 2]
  if case['zero_items']:
    x[:, ::2] = 0
  r = routing.NoisyTopExpertsPerItemRouter(
      num_experts=E, num_selected_experts=K, noise_std=case['noise'], deterministic=True, gshard_loss_weight=1.0, importance_loss_weight=0.5,
      dispatcher=dict(name=case['name'], batch_priority=case['bp'], capacity=case['cap'], bfloat16=False))
  key = jax.random.PRNGKey(0)
  shapes = jax.eval_shape(lambda: r.init({'params': key, 'gating': key}, jnp.asarray(x)))
  variables = {'params': jax.tree_util.tree_map(lambda _: jnp.asarray(W), shapes['params'])}

  def both(x):
    d, metrics = r.apply(variables, x)
    n = G * S
    holds = d.dispatch(jnp.eye(n, dtype=jnp.float32).reshape(G, S, n))
    e, slots = holds.shape[:2]
    w = d.combine(jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots))
    return holds, w, metrics
  holds, w, metrics = jax.jit(both)(jnp.asarray(x))
  logits = npu.f64(x) @ npu.f64(W)
  gates = rl.softmax(logits)
  tied = logits == logits.max(-1, keepdims=True)
  mean = gates.mean(1)[:, None, :]
  # Whichever of its best experts an item is counted for, it is counted once.
  hi = E * np.where(tied, mean, -np.inf).max(-1).mean(1)
  lo = E * np.where(tied, mean, np.inf).min(-1).mean(1)
  got = npu.f64(metrics['gshard_loss'])
  require(got.shape == (G,), 'shape of the gshard loss', got=got.shape)
  require(bool(np.all(got <= hi + 1e-4 * (1 + hi)) and np.all(got >= lo - 1e-4 * (1 + hi))),
          'no assignment of each item to one of its best experts gives this gshard loss', got=got.tolist(), low=lo.tolist(), high=hi.tolist())
  imp = np.array([rl.importance(gates[g]) for g in range(G)])
  npu.close(metrics['importance_loss'], imp, 'importance loss with tied gates', rtol=1e-3, atol=1e-5)
  npu.close(metrics['auxiliary_loss'], got + 0.5 * imp, 'auxiliary loss with tied gates', rtol=1e-3, atol=1e-4)
  # Routing: every kept (item, expert) pair is used once, with its gate.
  holds, w = npu.f64(holds), npu.f64(w)
  slots = holds.shape[1]
  require(slots == G * case['cap'], 'buffer slots per expert', got=slots, want=G * case['cap'])
  kept = holds.reshape(E, G, case['cap'], G * S)
  require(bool(np.all((kept == 0) | (kept == 1))) and bool(np.all(kept.sum(-1) <= 1)), 'a buffer slot holds more than one item')
  pairs = kept.sum(2)  # E, G, items.
  for g in range(G):
    own = pairs[:, g, g * S:(g + 1) * S].T
    require(pairs[:, g].sum() == own.sum(), 'an item is in the buffer of another group')
    require(bool(np.all(own <= 1)), 'an item is twice in the buffer of an expert')
    require(bool(np.all(own.sum(1) <= K)), 'an item has more than K experts', got=own.sum(1).tolist(), K=K)
    kth = np.sort(logits[g], -1)[:, E - K][:, None]
    require(not bool(np.any((own > 0) & (logits[g] < kth))), 'an item is sent to an expert that is not among its K best')
    wg = w[g].reshape(S, E, slots).sum(-1)
    npu.close(wg, own * gates[g], 'combine weights with tied gates', rtol=1e-3, atol=1e-5)
    if case['cap'] >= S:
      require(bool(np.all(own.sum(1) == K)), 'with room for everything each item has K experts', got=own.sum(1).tolist(), K=K)
  if bool(np.any(tied.sum(-1) > 1)):
    ctx.nontriv(case['kernel'])


@st.composite
def stat_cases(draw):
  return dict(E=draw(st.sampled_from([2, 3, 8])), noise=draw(st.sampled_from([0.5, 1.0, 2.0])), kind=draw(st.sampled_from(['experts', 'items'])), seed=draw(seeds))


def run_stat(case, ctx):
  """The noise is Gaussian, independent over items/experts/groups, fresh per key."""
  E, noise = case['E'], case['noise']
  G, S, H = 8, 96, 3
  rng = np.random.default_rng(case['seed'])
  x = jnp.asarray(rng.normal(size=(G, S, H)), jnp.float32)
  W = jnp.asarray(rng.normal(size=(H, E)) * 0.3, jnp.float32)

  def gates(key, det=False):
    if case['kind'] == 'experts':
      r = routing.NoisyTopExpertsPerItemRouter(num_experts=E, num_selected_experts=E, noise_std=noise, deterministic=det,
                                               dispatcher=dict(name='einsum', batch_priority=False, capacity=S))
    else:
      r = routing.NoisyTopItemsPerExpertRouter(num_experts=E, noise_std=noise, deterministic=det, dispatcher=dict(name='einsum', capacity=S))
    shapes = jax.eval_shape(lambda: r.init({'params': key, 'gating': key}, x))
    variables = {'params': jax.tree_util.tree_map(lambda _: W, shapes['params'])}
    d, _ = r.apply(variables, x, rngs={} if det else {'gating': key})
    # With outputs = one-hot of the expert, combine gives the gates.
    slots = d.dispatch(x).shape[1]
    out = d.combine(jnp.broadcast_to(jnp.eye(E)[:, None, :], (E, slots, E)))
    return out
  fn = jax.jit(gates, static_argnums=1)
  k1, k2 = jax.random.split(jax.random.PRNGKey(case['seed']))
  a, a2, b, c = (npu.f64(v) for v in (fn(k1, False), fn(k1, False), fn(k2, False), fn(k1, True)))
  npu.exact(a2, a, 'the same rng must give the same gates')
  clean = rl.softmax(npu.f64(x) @ npu.f64(W))
  npu.close(c, clean, 'deterministic gates', rtol=1e-3, atol=1e-5)

  def noise_of(g):  # Centred over experts: the softmax hides a shift per item.
    v = np.log(g) - np.log(clean)
    return (v - v.mean(-1, keepdims=True)) * E / noise / np.sqrt(1 - 1 / E)
  na, nb = noise_of(a), noise_of(b)
  n = na.size * (E - 1) / E
  for v in (na, nb):
    require(abs(np.sqrt(np.mean(v**2)) - 1) < 6 / np.sqrt(2 * n), 'std of the noise is not noise_std / E', got=float(np.sqrt(np.mean(v**2))), want=1.0)
    flat = v[..., 0].ravel()
    kurt = np.mean(flat**4) / np.mean(flat**2)**2
    require(abs(kurt - 3) < 6 * np.sqrt(24 / flat.size) + 0.2, 'the noise is not Gaussian', kurtosis=float(kurt))
    # Independence between groups, and between consecutive items.
    m = flat.size
    for name, p, q in (('groups', v[:-1], v[1:]), ('items', v[:, :-1], v[:, 1:])):
      corr = np.mean(p[..., 0] * q[..., 0])
      require(abs(corr) < 6 / np.sqrt(p[..., 0].size), f'noise of different {name} is correlated', corr=float(corr))
  corr = np.mean(na[..., 0] * nb[..., 0])
  require(abs(corr) < 6 / np.sqrt(na[..., 0].size), 'different rngs give correlated noise', corr=float(corr))
  ctx.nontriv()


@st.composite
def misuse_cases(draw):
  return dict(ndim=draw(st.sampled_from([2, 3, 4])), E=draw(st.integers(1, 4)), K=draw(st.integers(0, 6)), items=draw(st.booleans()))


def run_misuse(case, ctx):
  x = jnp.ones({2: (4, 3), 3: (2, 4, 3), 4: (1, 2, 4, 3)}[case['ndim']])
  if case['items']:
    r = routing.NoisyTopItemsPerExpertRouter(num_experts=case['E'], dispatcher=dict(name='einsum', capacity=2))
    valid = case['ndim'] == 3
  else:
    r = routing.NoisyTopExpertsPerItemRouter(num_experts=case['E'], num_selected_experts=case['K'], dispatcher=dict(name='einsum', batch_priority=True, capacity=2))
    valid = case['ndim'] == 3 and 1 <= case['K'] <= case['E']
  key = jax.random.PRNGKey(0)
  try:
    jax.eval_shape(lambda: r.init({'params': key, 'gating': key}, x))
    ok = True
  except ValueError:
    ok = False
  require(ok == valid, 'acceptance of the configuration', accepted=ok, valid=valid)
  if not valid:
    ctx.nontriv()


SUBS = [
    Sub('experts_router', cases(), run_experts, quick=140, thorough=2500),
    Sub('experts_router_big', big_cases(), run_experts, quick=30, thorough=500),
    Sub('items_router', cases(), run_items, quick=50, thorough=800),
    Sub('ties', tie_cases(), run_ties, quick=40, thorough=800),
    Sub('noise_statistics', stat_cases(), run_stat, quick=14, thorough=200),
    Sub('misuse', misuse_cases(), run_misuse, quick=30, thorough=100, max_shards=2),
]
