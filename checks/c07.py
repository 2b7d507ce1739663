"""C07: Soft MoE router."""
import flax.linen as nn
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from vmoe.projects.soft_moe import router as soft
from vlib.core import Sub, require, seeds
from vlib import npu
from vlib import ref_losses as rl
from vlib.ref_losses import softmax
from checks.c05 import Probe


def unit(x, axis):
  return x / np.sqrt((x**2).sum(axis=axis, keepdims=True) + 1e-6)


@st.composite
def cases(draw):
  E = draw(st.one_of(st.integers(1, 4), st.integers(5, 9)))
  m = draw(st.one_of(st.integers(1, 6), st.integers(7, 33)))
  return dict(G=draw(st.integers(1, 4)), m=m, E=E, d=draw(st.one_of(st.integers(1, 5), st.integers(6, 24))), slots=draw(st.sampled_from([None, 1, 2, 3, 5, 8])),
              factor=draw(st.sampled_from([1.0, 2.0, 1.5])), noise=draw(st.sampled_from([0.0, 0.0, 0.5])), det=draw(st.booleans()),
              scale=draw(st.sampled_from([1.0, 0.1, 5.0, 30.0, -3.0])), seed=draw(seeds), style=draw(st.sampled_from(['normal', 'tiny', 'huge', 'equal', 'zero_item'])),
              sim=draw(st.booleans()), mixed=draw(st.integers(0, 3)) == 0)


def run(case, ctx):
  G, m, E, d = (case[k] for k in ('G', 'm', 'E', 'd'))
  rng = np.random.default_rng(case['seed'])
  x = rng.normal(size=(G, m, d))
  if case['style'] == 'tiny':
    x *= 1e-3
  elif case['style'] == 'huge':
    x *= 1e3
  elif case['style'] == 'equal':
    x[:] = x[:, :1]
  elif case['style'] == 'zero_item':
    x[:, 0] = 0
  x, mixed = rl.mixed(jnp.asarray(x, jnp.float32), case)
  p = case['slots']
  if p is None:
    v = m * case['factor'] / E
    if round(v) < 1:
      ctx.event('no_slot')
      return
    if abs(v - np.floor(v) - 0.5) < 1e-9:
      ctx.event('half')
    p = round(v)
  noisy = case['noise'] > 0 and not case['det']
  r = soft.SoftRouter(num_experts=E, num_slots=case['slots'], capacity_factor=case['factor'], noise_std=case['noise'], deterministic=case['det'],
                      compute_similarity_metrics=case['sim'], **mixed)
  key = jax.random.PRNGKey(case['seed'])
  rngs = {'gating': key} if noisy else {}
  variables = jax.jit(lambda: r.init({'params': key, 'gating': key}, x))()
  params = variables['params']
  require(set(params) == {'mu', 'scale'}, 'parameters of the soft router', got=sorted(params))
  npu.same_shape(params['mu'], (d, E, p), 'slot parameters')
  mu = rng.normal(size=(d, E, p)).astype(np.float32)
  params = {'mu': jnp.asarray(mu), 'scale': jnp.asarray(case['scale'], jnp.float32)}

  def fn(x):
    dd, metrics = r.apply({'params': params}, x, rngs=rngs)
    n = G * m
    holds = dd.dispatch(jnp.eye(n, dtype=jnp.float32).reshape(G, m, n))
    e, slots = holds.shape[:2]
    w = dd.combine(jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots))
    ident = dd.combine(dd.dispatch(x))
    return holds, w, metrics, ident
  holds, w, metrics, ident = jax.jit(fn)(x)
  npu.same_shape(holds, (E, G * p, G * m), 'dispatched data')
  npu.same_shape(w, (G, m, E * G * p), 'combined data')
  H = npu.f64(holds).reshape(E, G * p, G, m)
  Wt = npu.f64(w).reshape(G, m, E, G * p)
  logits = np.einsum('gmd,dnp->gmnp', unit(npu.f64(x), -1), unit(mu.astype(np.float64), 0)) * case['scale']
  if noisy:
    logits = logits + case['noise'] * npu.f64(Probe((G, m, E, p)).apply({}, rngs=rngs))
  dw = softmax(logits, axis=1)  # (G, m, E, p): over the items.
  cw = softmax(logits.reshape(G, m, E * p), axis=-1).reshape(G, m, E, p)
  tol = 1e-4 + 3e-6 * abs(case['scale'])
  # Each buffer position belongs to one group: find it by where its weight lies.
  own = H.sum(axis=3)  # (E, G*p, G)
  require(np.allclose(own.sum(-1), 1, atol=1e-3), 'weights of a slot over the items do not sum up to one')
  require(np.all(H >= 0) and np.all(Wt >= 0), 'negative weights')
  require(np.allclose(Wt.sum(axis=(2, 3)), 1, atol=1e-3), 'weights of an item over the slots do not sum up to one')
  group_of = own.argmax(-1)  # (E, G*p)
  for e in range(E):
    require(np.allclose(own[e].max(-1), 1, atol=1e-3), f'a slot of expert {e} mixes items of several groups')
    for g in range(G):
      idx = np.where(group_of[e] == g)[0]
      require(len(idx) == p, f'group {g} has {len(idx)} slots in expert {e} instead of {p}')
      # Slots in the order of the parameters.
      npu.close(H[e, idx, g, :], dw[g, :, e, :].T, 'dispatch weights are not the softmax over the items of the group', rtol=1e-2 * 0 + 1e-3, atol=tol)
      npu.close(Wt[g][:, e, idx], cw[g, :, e, :], 'combine weights are not the softmax over all slots', rtol=1e-3, atol=tol)
      others = np.where(group_of[e] != g)[0]
      require(np.all(Wt[g][:, e, others] == 0), f'items of group {g} read slots of another group')
  # Identity experts: every coordinate stays in the range of the items.
  x64 = npu.f64(x)
  lo, hi = x64.min(1, keepdims=True), x64.max(1, keepdims=True)
  slack = 2e-2 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-9
  idn = npu.f64(ident)
  require(np.all(idn >= lo - slack) and np.all(idn <= hi + slack), 'identity experts give outputs outside the range of the items')
  want = np.einsum('gmnp,gnpd->gmd', cw, np.einsum('gmnp,gmd->gnpd', dw, x64))
  require(np.all(np.abs(idn - want) <= slack + 2e-2 * np.abs(x64).max(1, keepdims=True)), 'output of identity experts')
  # Metrics.
  npu.close(metrics['auxiliary_loss'], 0.0, 'auxiliary loss')
  npu.close(metrics['combine_weights_min_mean'], cw.min((2, 3)).mean(), 'combine_weights_min_mean', rtol=1e-3, atol=tol)
  npu.close(metrics['combine_weights_max_mean'], cw.max((2, 3)).mean(), 'combine_weights_max_mean', rtol=1e-3, atol=tol)
  npu.close(metrics['dispatch_weights_min_mean'], dw.min(1).mean(), 'dispatch_weights_min_mean', rtol=1e-3, atol=tol)
  npu.close(metrics['dispatch_weights_max_mean'], dw.max(1).mean(), 'dispatch_weights_max_mean', rtol=1e-3, atol=tol)
  if case['sim']:
    def sims(v):  # v: (B, N, F) -> off-diagonal cosine similarities.
      v = v / np.sqrt((v**2).sum(-1, keepdims=True) + 1e-9)
      s = np.einsum('bnf,bkf->bnk', v, v)
      n = v.shape[1]
      return s[:, ~np.eye(n, dtype=bool)]
    if m > 1:
      s = sims(cw.reshape(G, m, E * p))
      for nm, val in (('min', s.min()), ('max', s.max()), ('mean', s.mean())):
        npu.close(metrics[f'combine_weights_similarity_{nm}'], val, f'combine_weights_similarity_{nm}', rtol=1e-2, atol=5e-3)
    if E * p > 1:
      s = sims(dw.transpose(0, 2, 3, 1).reshape(G, E * p, m))
      for nm, val in (('min', s.min()), ('max', s.max()), ('mean', s.mean())):
        npu.close(metrics[f'dispatch_weights_similarity_{nm}'], val, f'dispatch_weights_similarity_{nm}', rtol=1e-2, atol=5e-3)
      s = sims(mu.astype(np.float64).reshape(d, E * p).T[None])
      npu.close(metrics['mu_similarity_mean'], s.mean(), 'mu_similarity_mean', rtol=1e-2, atol=5e-3)
  if noisy:
    ctx.event('noisy')
  ctx.event('scale_on_inputs' if x.size < mu.size else 'scale_on_mu')
  if m > 1 and E * p > 1 and G > 1:
    ctx.nontriv()


@st.composite
def perm_cases(draw):
  return dict(G=draw(st.integers(1, 3)), m=draw(st.integers(2, 6)), E=draw(st.integers(1, 3)), d=draw(st.integers(1, 4)), p=draw(st.integers(1, 2)), seed=draw(seeds))


def run_perm(case, ctx):
  G, m, E, d, p = (case[k] for k in ('G', 'm', 'E', 'd', 'p'))
  rng = np.random.default_rng(case['seed'])
  x = rng.normal(size=(G, m, d)).astype(np.float32)
  r = soft.SoftRouter(num_experts=E, num_slots=p)
  params = {'mu': jnp.asarray(rng.normal(size=(d, E, p)), jnp.float32), 'scale': jnp.asarray(2.0)}
  ew = jnp.asarray(rng.normal(size=(E, d, d)), jnp.float32)

  @jax.jit
  def fn(x):
    dd, _ = r.apply({'params': params}, x)
    return dd.combine(jnp.tanh(jnp.einsum('End,Edf->Enf', dd.dispatch(x), ew)))
  y = npu.f64(fn(jnp.asarray(x)))
  perms = [rng.permutation(m) for _ in range(G)]
  xp = np.stack([x[g][perms[g]] for g in range(G)])
  yp = npu.f64(fn(jnp.asarray(xp)))
  npu.close(yp, np.stack([y[g][perms[g]] for g in range(G)]), 'permuting the items of a group does not permute the outputs', rtol=3e-2, atol=3e-2)
  # Changing one group leaves the others alone.
  x2 = x.copy()
  x2[0] = rng.normal(size=(m, d))
  y2 = npu.f64(fn(jnp.asarray(x2)))
  npu.close(y2[1:], y[1:], 'a group influences another group', rtol=1e-5, atol=1e-5)
  ctx.nontriv()


SUBS = [
    Sub('weights', cases(), run, quick=160, thorough=2500),
    Sub('equivariance', perm_cases(), run_perm, quick=40, thorough=500),
]
