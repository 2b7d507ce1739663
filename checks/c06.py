"""C06: ensemble routing isolates the members."""
import flax.linen as nn
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.nn.ensemble_routing as er
from vlib.core import Sub, require, seeds
from vlib import npu
from vlib import ref_losses as rl
from vlib import ref_routing as rr
from checks.c01 import check_decisions


@st.composite
def cases(draw):
  M = draw(st.integers(1, 4))
  em = draw(st.integers(1, 4))
  return dict(M=M, em=em, sm=draw(st.integers(1, 4)), G=draw(st.integers(1, 3)), H=draw(st.integers(1, 3)), K=draw(st.integers(1, em)),
              noise=draw(st.sampled_from([0.0, 1.0, 2.0])), det=draw(st.booleans()), cap=draw(st.integers(1, 4)), bp=draw(st.booleans()),
              name=draw(st.sampled_from(['einsum', 'indices'])), seed=draw(seeds), wg=draw(st.sampled_from([0.0, 0.5])), wi=draw(st.sampled_from([0.0, 1.0])),
              wl=draw(st.sampled_from([0.0, 2.0])), usefactor=draw(st.sampled_from([False, False, True])), mixed=draw(st.integers(0, 3)) == 0)


def run(case, ctx):
  M, em, sm, G, H, K = (case[k] for k in ('M', 'em', 'sm', 'G', 'H', 'K'))
  S, E = M * sm, M * em
  noisy = case['noise'] > 0 and not case['det']
  rng = np.random.default_rng(case['seed'])
  x, mixed = rl.mixed(jnp.asarray(rng.normal(size=(G, S, H)), jnp.float32), case)
  key = jax.random.PRNGKey(case['seed'])
  rngs = {'gating': key} if noisy else {}
  base = dict(num_experts=E, ensemble_size=M, noise_std=case['noise'], deterministic=case['det'], gshard_loss_weight=case['wg'],
              importance_loss_weight=case['wi'], load_loss_weight=case['wl'], **mixed)
  capkw = dict(capacity=case['cap'])
  cap = case['cap']
  if case['usefactor']:  # Same share of the items of the member per expert.
    capkw = dict(capacity_factor=1.0, capacity_multiple_of=None)
    cap = -(-sm * K // em)
  r = er.NoisyTopExpertsPerItemEnsembleRouter(**base, num_selected_experts=K, dispatcher=dict(name=case['name'], batch_priority=case['bp'], **capkw))
  r_all = er.NoisyTopExpertsPerItemEnsembleRouter(**base, num_selected_experts=em, dispatcher=dict(name='einsum', batch_priority=False, capacity=sm))
  shapes = jax.eval_shape(lambda: r.init({'params': key, 'gating': key}, x))
  leaves, treedef = jax.tree_util.tree_flatten(shapes['params'])
  require(len(leaves) == 1 and int(np.prod(leaves[0].shape)) == H * E, 'parameters of the router', got=[l.shape for l in leaves])
  W = rng.normal(size=leaves[0].shape).astype(np.float32)
  variables = {'params': jax.tree_util.tree_unflatten(treedef, [jnp.asarray(W)])}

  def both(x):
    out = []
    n = G * S
    for router in (r, r_all):
      d, metrics = router.apply(variables, x, rngs=rngs)
      holds = d.dispatch(jnp.eye(n, dtype=jnp.float32).reshape(G, S, n))
      e, slots = holds.shape[:2]
      w = d.combine(jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots))
      out.append((holds, w.reshape(G, S, e, slots), metrics))
    return out
  (holds, w, metrics), (holds2, w2, _) = jax.jit(both)(x)
  holds, w, gates = npu.f64(holds), npu.f64(w), npu.f64(w2).sum(3)
  npu.same_shape(gates, (G, S, E), 'gates')
  # Item i of a group belongs to member i % M. Isolation:
  for i in range(S):
    m = i % M
    other = [e for e in range(E) if e // em != m]
    require(np.all(gates[:, i, other] == 0), f'items of member {m} have gates for experts of another member')
    require(np.all(holds[other][:, :, [g * S + i for g in range(G)]] == 0), f'items of member {m} are dispatched to experts of another member')
    npu.close(gates[:, i].sum(-1), np.ones(G), 'gates of an item do not sum up to one', rtol=1e-4)
  # Gates of member m: softmax of its own linear logits.
  kern = W.astype(np.float64)
  # The member axis may be anywhere in the stacked parameter: find it by size and value.
  cands = []
  if kern.ndim == 3:
    for ax in range(3):
      if kern.shape[ax] == M:
        k2 = np.moveaxis(kern, ax, 0)
        if k2.shape == (M, H, em):
          cands.append(k2)
  require(cands, 'each member must have its own gating matrix', got=kern.shape)
  x64 = npu.f64(x).reshape(G, sm, M, H)
  ok = False
  for k2 in cands:
    logits = np.einsum('gsmh,mhe->gmse', x64, k2)
    clean = rl.softmax(logits)
    got = np.stack([gates.reshape(G, sm, M, E)[:, :, m, m * em:(m + 1) * em] for m in range(M)], 1)  # (G, M, sm, em)
    if noisy:
      ok = True
      break
    if np.allclose(got, clean, rtol=1e-3, atol=1e-5):
      ok = True
      break
  require(ok, 'gates of the members are not the softmax of their own logits')
  # Routing: an independent router per member on the observed gates.
  if all(rl.margin(got[g, m], K, case['bp']) > 1e-5 for g in range(G) for m in range(M)) and got.min() > 1e-12:
    expected = []
    for g in range(G):
      exp = {}
      for m in range(M):
        kept, _ = rr.top_experts_reference(got[g, m], K, cap, case['bp'])
        for (s, e), v in kept.items():
          exp[(s * M + m, m * em + e)] = v
      expected.append(exp)
    C = holds.shape[1] // G
    require(C == cap, 'capacity per expert', got=C, want=cap)
    check_decisions(holds, w, expected, G, S, E, cap, 'ensemble router', combine_tol=1e-3)
    ctx.event('routing_checked')
    if M > 1 and em > 1 and sm > 1:
      ctx.nontriv()
  # Losses: per group and member, from that member only.
  imp = np.array([[rl.importance(clean[g, m]) for m in range(M)] for g in range(G)])
  if len(cands) == 1:
    npu.close(metrics['importance_loss'], imp, 'importance loss per (group, member)', rtol=5e-3, atol=2e-4)
    if all(rl.margin(got[g, m], 1, False) > 1e-5 for g in range(G) for m in range(M)):
      gsh = np.array([[rl.gshard(got[g, m]) for m in range(M)] for g in range(G)])
      npu.close(metrics['gshard_loss'], gsh, 'gshard loss per (group, member)', rtol=5e-3, atol=2e-4)
      aux = case['wg'] * gsh + case['wi'] * imp
      if noisy:
        aux = aux + case['wl'] * npu.f64(metrics['load_loss'])
      npu.close(np.broadcast_to(npu.f64(metrics['auxiliary_loss']), (G, M)), aux, 'auxiliary loss', rtol=5e-3, atol=1e-3)
  if noisy:
    # Noise (centred over the experts of the member) must differ between members.
    nz = np.log(got) - np.log(clean)
    nz -= nz.mean(-1, keepdims=True)
    if em > 1:
      for a in range(M):
        for b in range(a):
          require(not np.allclose(nz[:, a], nz[:, b], atol=1e-4), 'two members share the same gating noise')
      if len(cands) == 1:
        require(np.max(np.abs(nz)) <= 8 * case['noise'] / em, 'noise is out of scale', got=float(np.max(np.abs(nz))))
        npu.same_shape(metrics['load_loss'], (G, M), 'load loss per (group, member)')
  ctx.event('noisy' if noisy else 'clean')


@st.composite
def reshape_cases(draw):
  M = draw(st.integers(1, 4))
  B, T = draw(st.integers(1, 4)), draw(st.integers(1, 5))
  total = B * T * M
  groups = [s for s in range(M, total + 1, M) if total % s == 0]
  return dict(M=M, B=B, T=T, H=draw(st.integers(1, 3)), S=draw(st.sampled_from(groups)))


def run_reshape(case, ctx):
  M, B, T, H, S = (case[k] for k in 'MBTHS')
  x = np.arange(B * M * T * H).reshape(B * M, T, H)
  y = np.asarray(er.reshape_to_group_size_representation(jnp.asarray(x), S, M))
  npu.same_shape(y, (B * T * M // S, S, H), 'grouped representation')
  # Position p of the flat token list: image b, token t, member m interleaved.
  flat = y.reshape(-1, H)
  want = x.reshape(B, M, T, H).transpose(0, 2, 1, 3).reshape(-1, H)
  npu.exact(flat, want, 'items are not interleaved by member')
  z = np.asarray(er.reshape_from_group_size_representation(jnp.asarray(y), T, M))
  npu.exact(z, x, 'the grouping is not undone exactly')
  if M > 1 and T > 1:
    ctx.nontriv()


def run_misuse(case, ctx):
  r = er.NoisyTopExpertsPerItemEnsembleRouter(num_experts=case['E'], num_selected_experts=case['K'], ensemble_size=case['M'],
                                              dispatcher=dict(name='einsum', batch_priority=False, capacity=2))
  key = jax.random.PRNGKey(0)
  shape = (2, case['S'], 3) if case['ndim'] == 3 else (case['S'], 3)
  valid = case['ndim'] == 3 and case['M'] >= 1 and case['E'] % case['M'] == 0 and case['S'] % case['M'] == 0
  # Each item chooses among the experts of its own member.
  valid = valid and 1 <= case['K'] <= case['E'] // case['M']
  try:
    jax.eval_shape(lambda: r.init({'params': key, 'gating': key}, jnp.ones(shape)))
    ok = True
  except ValueError:
    ok = False
  require(ok == valid, 'acceptance of the configuration', accepted=ok, valid=valid)
  if not valid:
    ctx.nontriv()


@st.composite
def stat_cases(draw):
  return dict(M=draw(st.integers(2, 3)), em=draw(st.integers(2, 4)), noise=draw(st.sampled_from([0.5, 1.0, 2.0])), seed=draw(seeds))


def run_stat(case, ctx):
  """The noise has std noise_std / (experts per member), independent per member."""
  M, em, noise = case['M'], case['em'], case['noise']
  G, sm, H, E = 4, 96, 2, case['M'] * case['em']
  S = sm * M
  rng = np.random.default_rng(case['seed'])
  x = jnp.asarray(rng.normal(size=(G, S, H)), jnp.float32)
  key = jax.random.PRNGKey(case['seed'])

  def gates(det):
    r = er.NoisyTopExpertsPerItemEnsembleRouter(num_experts=E, ensemble_size=M, num_selected_experts=em, noise_std=noise, deterministic=det,
                                                dispatcher=dict(name='einsum', batch_priority=False, capacity=sm))
    variables = {'params': r.init({'params': key, 'gating': key}, x)['params']}
    d, _ = r.apply(variables, x, rngs={} if det else {'gating': key})
    slots = d.dispatch(x).shape[1]
    return d.combine(jnp.broadcast_to(jnp.eye(E)[:, None, :], (E, slots, E)))
  fn = jax.jit(gates, static_argnums=0)
  noisy, clean = npu.f64(fn(False)), npu.f64(fn(True))
  nz = []
  for m in range(M):
    a, b = (v.reshape(G, sm, M, E)[:, :, m, m * em:(m + 1) * em] for v in (noisy, clean))
    v = np.log(a) - np.log(b)
    v = (v - v.mean(-1, keepdims=True)) * em / noise / np.sqrt(1 - 1 / em)
    n = v.size * (em - 1) / em
    rms = float(np.sqrt(np.mean(v**2)))
    require(abs(rms - 1) < 6 / np.sqrt(2 * n), f'std of the noise of member {m} is not noise_std / (experts per member)', got=rms)
    nz.append(v[..., 0])
  for a in range(M):
    for b in range(a):
      corr = float(np.mean(nz[a] * nz[b]))
      require(abs(corr) < 6 / np.sqrt(nz[a].size), 'noise of two members is correlated', corr=corr)
  ctx.nontriv()


SUBS = [
    Sub('noise_statistics', stat_cases(), run_stat, quick=7, thorough=100),
    Sub('router', cases(), run, quick=140, thorough=2500),
    Sub('regrouping', reshape_cases(), run_reshape, quick=150, thorough=1500),
    Sub('misuse', st.fixed_dictionaries({'E': st.integers(1, 6), 'M': st.integers(0, 4), 'S': st.integers(1, 6), 'K': st.sampled_from([1, 1, 1, 2, 3, 0]), 'ndim': st.sampled_from([2, 3, 3, 3])}),
        run_misuse, quick=40, thorough=200),
]
