"""C08: sparsity-constrained optimal transport routers."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.projects.sparsity_constrained_ot import kl_projection_routing as kl
from vmoe.projects.sparsity_constrained_ot import ksparse_projection_routing as ks
from vmoe.projects.sparsity_constrained_ot import sparse_projection_routing as sp
from vlib.core import Sub, require, seeds
from vlib import npu
from vlib import ref_losses as rl
from vlib import ref_routing as rr
from checks.c01 import check_decisions
from checks.c05 import Probe


def sinkhorn(sim, iters=3000):
  S, E = sim.shape
  k = np.exp(sim - sim.max())
  u, v = np.ones(S), np.ones(E)
  for _ in range(iters):
    v = (S / E) / (k.T @ u)
    u = 1.0 / (k @ v)
  return u[:, None] * k * v[None]


def simplex_proj(y, s=1.0):
  """Euclidean projection of y on {p >= 0, sum p = s}."""
  u = np.sort(y)[::-1]
  css = np.cumsum(u) - s
  r = np.arange(1, len(y) + 1)
  rho = np.nonzero(u - css / r > 0)[0][-1]
  return np.maximum(y - css[rho] / (rho + 1), 0)


def sparse_simplex_proj(y, k):
  idx = np.argsort(-y, kind='stable')[:k]
  out = np.zeros_like(y)
  out[idx] = simplex_proj(y[idx])
  return out


def dykstra(sim, iters=4000):
  """Euclidean projection on the transport polytope (rows 1, columns S/E)."""
  S, E = sim.shape
  x = sim.copy()
  p, q = np.zeros_like(x), np.zeros_like(x)
  for _ in range(iters):
    y = np.stack([simplex_proj(r) for r in (x + p)])
    p = x + p - y
    x2 = np.stack([simplex_proj(c, S / E) for c in (y + q).T]).T
    q = y + q - x2
    if np.abs(x2 - x).max() < 1e-9:
      x = x2
      break
    x = x2
  return x


def observe(router, W, x, rngs):
  """(holds, weights (G,S,E,slots), metrics) of a router with gating matrix W."""
  G, S, _ = x.shape

  def fn(W, x):
    shapes = jax.eval_shape(lambda: router.init({'params': jax.random.PRNGKey(0), 'gating': jax.random.PRNGKey(0)}, x))
    params = jax.tree_util.tree_map(lambda _: W, shapes['params'])
    d, metrics = router.apply({'params': params}, x, rngs=rngs)
    n = G * S
    holds = d.dispatch(jnp.eye(n, dtype=jnp.float32).reshape(G, S, n))
    e, slots = holds.shape[:2]
    w = d.combine(jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots))
    return holds, w.reshape(G, S, e, slots), metrics
  holds, w, metrics = jax.jit(fn)(W, x)
  return npu.f64(holds), npu.f64(w), metrics


def margin_ok(v, eps=1e-4):
  """No two entries of a row closer than eps, other than exact zeros."""
  v = np.sort(v, axis=-1)
  d = np.diff(v, axis=-1)
  return np.all((d > eps) | ((d == 0) & (v[..., 1:] == 0)))


def inputs(case):
  G, S, E, H = (case[k] for k in 'GSEH')
  rng = np.random.default_rng(case['seed'])
  x = rng.normal(size=(G, S, H))
  W = rng.normal(size=(H, E)) * case.get('scale', 1.0)
  return jnp.asarray(x, jnp.float32), jnp.asarray(W, jnp.float32)


def common_checks(case, ctx, make, plan, soft, K, cap, experts, rngs, x, W):
  """Decisions and weights of a limited router follow the plan."""
  G, S, E = case['G'], case['S'], case['E']
  for use_soft in (bool(case['seed'] % 3),):
    holds, w, metrics = observe(make(use_soft), W, x, rngs)
    require(holds.shape == (E, G * cap, G * S), 'dispatched shape (capacity)', got=holds.shape, want=(E, G * cap, G * S))
    require(np.all((holds == 0) | (holds == 1)) and np.all(holds.sum(2) <= 1), 'a buffer slot holds more than one item')
    for g in range(G):
      require(np.all(holds[:, :, g * S:(g + 1) * S].sum((1, 2)) <= cap), 'an expert holds more than its capacity')
    # Weight of a held pair: softmax gate or plan entry.
    src = soft if use_soft else [plan]
    ok = False
    for cand in src:
      want = np.zeros_like(w)
      for e, slot, i in np.argwhere(holds == 1):
        want[i // S, i % S, e, slot] = cand[i // S, i % S, e]
      if np.all(np.abs(w - want) <= 1e-2 * np.abs(want) + 2e-3):
        ok = True
    require(ok, f'combine weights are not the {"softmax gates" if use_soft else "transport plan"} of the dispatched pairs')
    # Decisions.
    if experts:
      good = all(margin_ok(plan[g]) and (not case['bp'] or margin_ok(np.sort(plan[g].max(1)))) for g in range(G))
      if good:
        exp = [rr.top_experts_reference(plan[g], K, cap, case['bp'])[0] for g in range(G)]
    else:
      good = all(margin_ok(plan[g].T) for g in range(G))
      if good:
        exp = [rr.top_items_reference(plan[g], cap) for g in range(G)]
    if good:
      got = [set() for _ in range(G)]
      for e, slot, i in np.argwhere(holds == 1):
        got[i // S].add((int(i % S), int(e)))
      require(all(got[g] == set(exp[g]) for g in range(G)), 'routing decisions do not follow the transport plan', got=got, want=[set(e) for e in exp])
      ctx.event('decisions_checked')
      if E > 1 and S > 1:
        ctx.nontriv(use_soft)
  return metrics


def full_plan(make_full, W, x, rngs):
  _, w, metrics = observe(make_full(), W, x, rngs)
  return w.sum(3), metrics


@st.composite
def kl_cases(draw):
  E = draw(st.integers(1, 4))
  return dict(G=draw(st.integers(1, 3)), S=draw(st.integers(1, 6)), E=E, H=draw(st.integers(1, 3)), K=draw(st.integers(1, min(E, 3))),
              experts=draw(st.booleans()), lbfgs=draw(st.integers(0, 4)) == 4, noise=draw(st.sampled_from([0.0, 1.0])),
              det=draw(st.booleans()), cap=draw(st.integers(1, 4)), bp=draw(st.booleans()), bf16=draw(st.sampled_from([False, False, True])),
              wi=draw(st.sampled_from([0.0, 0.5])), wl=draw(st.sampled_from([0.0, 2.0])), seed=draw(seeds))


def run_kl(case, ctx):
  G, S, E, K = (case[k] for k in 'GSEK')
  x, W = inputs(case)
  noisy = case['noise'] > 0 and not case['det']
  key = jax.random.PRNGKey(case['seed'])
  rngs = {'gating': key} if noisy else {}
  logits = npu.f64(x) @ npu.f64(W)
  nlogits = logits
  if noisy:
    nlogits = logits + npu.f64(Probe((G, S, E)).apply({}, rngs=rngs)) * case['noise'] / E
  base = dict(num_experts=E, noise_std=case['noise'], deterministic=case['det'], maxiter=200)
  if case['experts']:
    base.update(use_lbfgs=case['lbfgs'], importance_loss_weight=case['wi'], load_loss_weight=case['wl'])
    cap = case['cap']
    make = lambda soft: kl.KLProjectionNoisyTopExpertsPerItemRouter(
        **base, num_selected_experts=K, use_softmax_combine_weights=soft,
        dispatcher=dict(name='einsum', batch_priority=case['bp'], capacity=cap, bfloat16=case['bf16']))
    full = lambda: kl.KLProjectionNoisyTopExpertsPerItemRouter(
        **base, num_selected_experts=E, use_softmax_combine_weights=False, dispatcher=dict(name='einsum', batch_priority=False, capacity=S))
  else:
    cap = min(case['cap'], S)
    make = lambda soft: kl.KLProjectionNoisyTopItemsPerExpertRouter(
        **base, use_softmax_combine_weights=soft, dispatcher=dict(name='einsum', capacity=cap, bfloat16=case['bf16']))
    full = lambda: kl.KLProjectionNoisyTopItemsPerExpertRouter(**base, use_softmax_combine_weights=False, dispatcher=dict(name='einsum', capacity=S))
  plan, _ = full_plan(full, W, x, rngs)
  lbfgs = case['experts'] and case['lbfgs']
  tol = 5e-2 if lbfgs else 5e-3
  want = np.stack([sinkhorn(nlogits[g]) for g in range(G)])
  require(np.all(plan >= 0), 'negative entries in the transport plan')
  npu.close(plan, want, 'transport plan is not the KL projection of the logits', rtol=tol, atol=tol)
  npu.close(plan.sum(2), np.ones((G, S)), 'mass of the items', rtol=tol, atol=tol)
  npu.close(plan.sum(1), np.full((G, E), S / E), 'mass of the experts', rtol=tol, atol=tol * S)
  soft = [rl.softmax(nlogits)]
  if case['experts'] and noisy:
    soft.append(rl.softmax(logits))  # Which logits is not specified here.
  metrics = common_checks(case, ctx, make, plan, soft, K, cap, case['experts'], rngs, x, W)
  if case['experts']:
    aux = np.zeros(G)
    if case['wi'] > 0:
      imp = np.array([rl.importance(rl.softmax(logits)[g]) for g in range(G)])
      npu.close(metrics['importance_loss'], imp, 'importance loss', rtol=5e-3, atol=1e-3)
      aux = aux + case['wi'] * imp
    if case['wl'] > 0 and noisy:
      ll = np.array([rl.load(logits[g], nlogits[g], case['noise'] / E, K) for g in range(G)])
      npu.close(metrics['load_loss'], ll, 'load loss', rtol=5e-3, atol=1e-3)
      aux = aux + case['wl'] * ll
    npu.close(np.broadcast_to(npu.f64(metrics['auxiliary_loss']), (G,)), aux, 'auxiliary loss', rtol=5e-3, atol=2e-3)
  else:
    npu.close(metrics['auxiliary_loss'], 0.0, 'auxiliary loss')
  ctx.event(('lbfgs' if lbfgs else 'sinkhorn') + ('_experts' if case['experts'] else '_items'))


@st.composite
def ks_cases(draw):
  E = draw(st.integers(1, 4))
  S = draw(st.integers(1, 6))
  return dict(G=draw(st.integers(1, 3)), S=S, E=E, H=draw(st.integers(1, 3)), K=draw(st.integers(1, min(E, 3))), experts=draw(st.booleans()),
              tiny_lr=draw(st.booleans()), cap=draw(st.integers(1, 4)), bp=draw(st.booleans()), scale=draw(st.sampled_from([0.3, 1.0, 2.0, 5.0])),
              k=draw(st.integers(1, S)), round=draw(st.booleans()), default_multiple=draw(st.booleans()), seed=draw(seeds))


def run_ks(case, ctx):
  G, S, E, K = (case[k] for k in 'GSEK')
  x, W = inputs(case)
  soft = rl.softmax(npu.f64(x) @ npu.f64(W))
  lr = 1e-8 if case['tiny_lr'] else 1e-2
  base = dict(num_experts=E, maxiter=3 if case['tiny_lr'] else 300, adam_lr=lr)
  if case['experts']:
    cap, nnz = case['cap'], K
    cls = ks.KSparseProjectionTransportTopExpertsPerItemRouter
    make = lambda s: cls(**base, num_selected_experts=K, use_softmax_combine_weights=s, dispatcher=dict(name='einsum', batch_priority=case['bp'], capacity=cap))
    full = lambda: cls(**base, num_selected_experts=K, use_softmax_combine_weights=False, dispatcher=dict(name='einsum', batch_priority=False, capacity=S))
  else:
    cap = nnz = case['k']
    cls = ks.KSparseProjectionTransportTopItemsPerExpertRouter
    # A factor for which the capacity is exactly cap.
    f = (cap + (0.3 if case['round'] else -0.5)) * E / S
    dd = dict(name='einsum', capacity_factor=f)
    if case['round']:
      dd['capacity_ceil_or_round'] = 'round'
    if cap % 4 or not case['default_multiple']:
      dd['capacity_multiple_of'] = 2 if cap % 2 == 0 else 1
    make = lambda s: cls(**base, use_softmax_combine_weights=s, dispatcher=dd)
    full = lambda: cls(**base, use_softmax_combine_weights=False, dispatcher=dd)
  plan, metrics = full_plan(full, W, x, {})
  require(np.all(plan >= 0), 'negative entries in the transport plan')
  if case['experts']:
    npu.close(plan.sum(2), np.ones((G, S)), 'mass of each item is not one', rtol=1e-3, atol=1e-3)
    require(np.all((plan > 0).sum(2) <= nnz), 'an item uses more experts than allowed')
  else:
    npu.close(plan.sum(1), np.full((G, E), S / E), 'mass of each expert is not S / E', rtol=1e-3, atol=1e-3)
    require(np.all((plan > 0).sum(1) <= nnz), 'an expert uses more items than allowed')
  # Without optimisation steps the plan is the projection of the gates alone.
  zero = np.zeros_like(plan)
  for g in range(G):
    if case['experts']:
      for s in range(S):
        zero[g, s] = sparse_simplex_proj(soft[g, s], nnz)
    else:
      b = S / E
      for e in range(E):
        zero[g, :, e] = b * sparse_simplex_proj(soft[g, :, e] / b, nnz)
  axis_vals = soft if case['experts'] else soft.transpose(0, 2, 1)
  if case['tiny_lr']:
    if margin_ok(axis_vals, 1e-4):
      npu.close(plan, zero, 'the plan is not the sparse projection of the gates', rtol=1e-3, atol=1e-3)
      ctx.event('projection_checked')
  nz = plan > 0
  npu.close(metrics['num_items_per_expert_min'], nz.sum(1).min(1), 'num_items_per_expert_min')
  npu.close(metrics['num_items_per_expert_max'], nz.sum(1).max(1), 'num_items_per_expert_max')
  npu.close(metrics['num_items_per_expert_avg'], nz.sum(1).mean(1), 'num_items_per_expert_avg', rtol=1e-5)
  if case['experts']:
    npu.close(metrics['num_experts_per_item_min'], nz.sum(2).min(1), 'num_experts_per_item_min')
    npu.close(metrics['num_experts_per_item_max'], nz.sum(2).max(1), 'num_experts_per_item_max')
    npu.close(metrics['num_experts_per_item_avg'], nz.sum(2).mean(1), 'num_experts_per_item_avg', rtol=1e-5)
  npu.close(metrics['auxiliary_loss'], 0.0, 'auxiliary loss')
  common_checks(case, ctx, make, plan, [soft], K, cap, case['experts'], {}, x, W)


@st.composite
def ksb_cases(draw):
  E = draw(st.integers(2, 4))
  S = draw(st.integers(3, 8))
  experts = draw(st.booleans())
  return dict(G=24, S=S, E=E, H=draw(st.integers(2, 3)), K=draw(st.integers(2, E)), experts=experts, scale=draw(st.sampled_from([0.3, 1.0, 2.0])),
              k=draw(st.integers(max(2, min(S, -(-3 * S // (2 * E)))), S)), seed=draw(seeds))


def run_ksb(case, ctx):
  """Over many groups, the optimisation brings the other marginal closer to its target (one group alone need not improve)."""
  G, S, E, K = (case[k] for k in 'GSEK')
  x, W = inputs(case)
  soft = rl.softmax(npu.f64(x) @ npu.f64(W))
  base = dict(num_experts=E, maxiter=300, adam_lr=1e-2, use_softmax_combine_weights=False)
  if case['experts']:
    full = lambda: ks.KSparseProjectionTransportTopExpertsPerItemRouter(**base, num_selected_experts=K, dispatcher=dict(name='einsum', batch_priority=False, capacity=S))
    zero = np.stack([[sparse_simplex_proj(soft[g, s], K) for s in range(S)] for g in range(G)])
  else:
    k, b = case['k'], S / E
    full = lambda: ks.KSparseProjectionTransportTopItemsPerExpertRouter(**base, dispatcher=dict(name='einsum', capacity_factor=(k - 0.5) * E / S, capacity_multiple_of=1))
    zero = np.stack([np.stack([b * sparse_simplex_proj(soft[g, :, e] / b, k) for e in range(E)], 1) for g in range(G)])
  plan, _ = full_plan(full, W, x, {})
  ax, target = (1, S / E) if case['experts'] else (2, 1.0)
  before, after = (np.abs(p.sum(ax) - target).sum(-1).mean() for p in (zero, plan))
  limit = 0.95 * before + 0.25 if case['experts'] else before + 0.3
  require(after <= limit, 'the optimised plans are no better balanced than the unoptimised ones', before=float(before), after=float(after))
  if after < before:
    ctx.nontriv('balance', case['experts'], S, E, case['seed'])


@st.composite
def sp_cases(draw):
  S = draw(st.integers(1, 6))
  return dict(G=draw(st.integers(1, 3)), S=S, E=draw(st.integers(1, 4)), H=draw(st.integers(1, 3)), cap=draw(st.integers(1, S)),
              scale=draw(st.sampled_from([0.3, 1.0, 3.0])), seed=draw(seeds), bp=False)


def run_sp(case, ctx):
  G, S, E = (case[k] for k in 'GSE')
  x, W = inputs(case)
  soft = rl.softmax(npu.f64(x) @ npu.f64(W))
  cls = sp.SparseProjectionTransportTopItemsPerExpertRouter
  base = dict(num_experts=E, maxiter=1500)
  make = lambda s: cls(**base, use_softmax_combine_weights=s, dispatcher=dict(name='einsum', capacity=case['cap']))
  full = lambda: cls(**base, use_softmax_combine_weights=False, dispatcher=dict(name='einsum', capacity=S))
  plan, metrics = full_plan(full, W, x, {})
  require(np.all(plan >= 0), 'negative entries in the transport plan')
  want = np.stack([dykstra(soft[g]) for g in range(G)])
  npu.close(plan, want, 'the plan is not the Euclidean projection of the gates on the transport plans', rtol=3e-2, atol=3e-2)
  npu.close(metrics['auxiliary_loss'], 0.0, 'auxiliary loss')
  common_checks(case, ctx, make, plan, [soft], 1, case['cap'], False, {}, x, W)


@st.composite
def indep_cases(draw):
  return dict(G=3, S=draw(st.integers(2, 5)), E=draw(st.integers(2, 3)), H=2, which=draw(st.sampled_from(['kl_e', 'kl_i', 'ks_e', 'ks_i', 'sp'])), seed=draw(seeds))


def run_indep(case, ctx):
  """Deterministic routers: pure, and one group does not influence another."""
  S, E = case['S'], case['E']
  x, W = inputs(case)
  d_e = dict(name='einsum', batch_priority=False, capacity=S)
  d_i = dict(name='einsum', capacity_factor=1.0, capacity_multiple_of=1)
  r = {
      'kl_e': lambda: kl.KLProjectionNoisyTopExpertsPerItemRouter(num_experts=E, deterministic=True, dispatcher=d_e, use_softmax_combine_weights=False),
      'kl_i': lambda: kl.KLProjectionNoisyTopItemsPerExpertRouter(num_experts=E, deterministic=True, dispatcher=d_i, use_softmax_combine_weights=False),
      'ks_e': lambda: ks.KSparseProjectionTransportTopExpertsPerItemRouter(num_experts=E, deterministic=True, dispatcher=d_e, use_softmax_combine_weights=False),
      'ks_i': lambda: ks.KSparseProjectionTransportTopItemsPerExpertRouter(num_experts=E, deterministic=True, dispatcher=d_i, use_softmax_combine_weights=False),
      'sp': lambda: sp.SparseProjectionTransportTopItemsPerExpertRouter(num_experts=E, deterministic=True, dispatcher=d_i, use_softmax_combine_weights=False),
  }[case['which']]()
  h0, w0, _ = observe(r, W, x, {})
  h1, w1, _ = observe(r, W, x, {'gating': jax.random.PRNGKey(case['seed'])})
  npu.close(w1, w0, 'a deterministic router depends on the rng', rtol=1e-5, atol=1e-5)
  x2 = np.array(x)
  x2[0] = np.random.default_rng(case['seed'] + 1).normal(size=x2[0].shape) * 3
  h2, w2, _ = observe(r, W, jnp.asarray(x2), {})
  npu.close(w2[1:].sum(3), w0[1:].sum(3), 'a group influences the routing of another', rtol=1e-4, atol=1e-4)
  ctx.event(case['which'])
  ctx.nontriv()


SUBS = [
    Sub('kl', kl_cases(), run_kl, quick=48, thorough=900),
    Sub('ksparse', ks_cases(), run_ks, quick=56, thorough=900),
    Sub('ksbalance', ksb_cases(), run_ksb, quick=24, thorough=600),
    Sub('sparse', sp_cases(), run_sp, quick=24, thorough=300),
    Sub('independence', indep_cases(), run_indep, quick=24, thorough=200),
]
