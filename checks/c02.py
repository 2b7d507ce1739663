"""C02: dispatch and combine transport items to experts and back."""
from hypothesis import strategies as st
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from vlib.core import Sub, require, seeds
from vlib import npu
from vlib import ref_routing as rr

P = jax.sharding.PartitionSpec
KINDS = ['dense', 'einsum_top', 'indices_top', 'einsum_items', 'einsum_nodispatch', 'einsum_soft', 'indices_raw']


def build(kind, rng, G, S, E, C, K, bp, **kw):
  """Returns (dispatcher, kept) with kept[g] = {(s, e): weight} or None."""
  if kind == 'dense':
    w = rng.integers(-8, 9, size=(G, S, E)) / 8.0
    d = vmoe.moe.get_dense_einsum_dispatcher(jnp.asarray(w, jnp.float32), **kw)
    return d, [{(s, e): w[g, s, e] for s in range(S) for e in range(E)} for g in range(G)], S
  if kind in ('einsum_top', 'indices_top'):
    gates = rr.make_gates(rng, rng.choice(['softmax', 'ties', 'peaked', 'sparse']), (G, S, E)).astype(np.float32)
    d = jax.vmap(lambda g: vmoe.moe.get_top_experts_per_item_dispatcher(
        g, name=kind[:-4], num_selected_experts=K, batch_priority=bp, capacity=C, **kw))(jnp.asarray(gates))
    g64 = gates.astype(np.float64)
    return d, [rr.top_experts_reference(g64[g], K, C, bp)[0] for g in range(G)], C
  if kind == 'einsum_items':
    C = min(C, S)
    gates = rr.make_gates(rng, 'softmax', (G, S, E)).astype(np.float32)
    d, _ = jax.vmap(lambda g: vmoe.moe.get_top_items_per_expert_dispatcher(g, name='einsum', capacity=C, **kw))(jnp.asarray(gates))
    g64 = gates.astype(np.float64)
    return d, [rr.top_items_reference(g64[g], C) for g in range(G)], C
  # Hand-made routings: random injective placement of pairs in slots.
  cw = np.zeros((G, S, E, C))
  kept = []
  idx = np.full((G, S, K, 2), 0, np.int64)
  iw = np.zeros((G, S, K))
  for g in range(G):
    kept_g = {}
    free = {e: list(rng.permutation(C)) for e in range(E)}
    for s in range(S):
      for j, e in enumerate(rng.permutation(E)[:K]):
        w = rng.integers(1, 9) / 8.0
        iw[g, s, j] = w
        if free[e] and rng.random() < 0.8:
          c = free[e].pop()
          cw[g, s, e, c] = w
          idx[g, s, j] = (e, c)
          kept_g[(s, int(e))] = w
        elif rng.random() < 0.5:
          idx[g, s, j] = (e, C + rng.integers(0, 3))  # Beyond the capacity.
        else:
          idx[g, s, j] = (E + rng.integers(0, 2), rng.integers(0, C + 1))
    kept.append(kept_g)
  if kind == 'einsum_nodispatch':
    return vmoe.moe.EinsumDispatcher(combine_weights=jnp.asarray(cw, jnp.float32), **kw), kept, C
  if kind == 'indices_raw':
    return vmoe.moe.ExpertIndicesDispatcher(indices=jnp.asarray(idx, jnp.int32), combine_weights=jnp.asarray(iw, jnp.float32),
                                            num_experts=E, capacity=C, **kw), kept, C
  raise ValueError(kind)


INTS = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2**15, 2**15 - 1), 'uint16': (0, 2**16 - 1), 'int32': (-10**6, 10**6), 'uint32': (0, 10**6)}


@st.composite
def cases(draw):
  E = draw(st.integers(1, 5))
  G = draw(st.one_of(st.integers(1, 6), st.integers(1, 3).map(lambda m: m * E)))
  S = draw(st.integers(1, 5))
  return dict(kind=draw(st.sampled_from([k for k in KINDS if k != 'einsum_soft'])), E=E, G=G, S=S, C=draw(st.integers(1, 5)),
              K=draw(st.integers(1, min(3, E))), bp=draw(st.booleans()), bf16=draw(st.booleans()),
              item=draw(st.sampled_from([[], [1], [3], [2, 2], [2, 1, 3]])), out_item=draw(st.sampled_from([[], [2], [3, 2]])),
              dtype=draw(st.sampled_from(['float32', 'float32', 'bfloat16', 'float16'] + sorted(INTS))), seed=draw(seeds))


def run(case, ctx):
  G, S, E, C, K = (case[k] for k in 'GSECK')
  rng = np.random.default_rng(case['seed'])
  d, kept, C = build(case['kind'], rng, G, S, E, C, K, case['bp'])
  # Every item gets a distinct integer code, plus its content.
  item, out_item = tuple(case['item']), tuple(case['out_item'])
  tol = 1e-5
  if case['bf16']:
    d = vmoe.moe.Bfloat16Dispatcher(d)
    tol = 2e-2
  if G * S > 250:
    return
  ids = (1 + np.arange(G * S)).reshape(G, S)
  dtype = jnp.dtype(case['dtype'])
  disp_id = np.asarray(jax.jit(d.dispatch)(jnp.asarray(ids, jnp.int32)))
  npu.same_shape(disp_id, (E, G * C), 'dispatch of scalars per item')
  require(disp_id.dtype == np.int32, 'dispatching int32 data changed its dtype', got=disp_id.dtype)
  lo, hi = INTS.get(case['dtype'], (-100, 100))
  data = rng.integers(lo, hi, endpoint=True, size=(G, S) + item)
  got = jax.jit(d.dispatch)(jnp.asarray(data, dtype))
  npu.same_shape(got, (E, G * C) + item, 'dispatch')
  require(got.dtype == dtype, 'dispatch changed the dtype of the data', got=got.dtype, want=dtype)
  got = np.asarray(got.astype(jnp.float32), np.float64)
  # 1) The multiset of items of each expert is exactly what the routing says.
  for e in range(E):
    want = sorted(int(ids[g, s]) for g in range(G) for (s, ee) in kept[g] if ee == e)
    have = sorted(int(v) for v in disp_id[e] if v != 0)
    require(want == have, f'expert {e} received the wrong items', got=have, want=want)
    for slot in range(G * C):
      i = disp_id[e, slot]
      expect = np.zeros(item) if i == 0 else data[(i - 1) // S, (i - 1) % S]
      require(np.array_equal(got[e, slot], expect), f'content of slot {slot} of expert {e} is not that of its item', got=got[e, slot], want=expect)
  # 2) Combining: weighted sum of what each expert computed in the item's slot.
  outs = rng.normal(size=(E, G * C) + out_item)
  cdtype = jnp.dtype('float32') if case['dtype'] in INTS else dtype
  comb = jax.jit(d.combine)(jnp.asarray(outs, cdtype))
  npu.same_shape(comb, (G, S) + out_item, 'combine')
  if case['bf16']:
    require(comb.dtype == cdtype, 'the bfloat16 wrapper changed the dtype of the combined data', got=comb.dtype, want=cdtype)
  want = np.zeros((G, S) + out_item)
  scale = np.zeros((G, S) + out_item)
  for e in range(E):
    for slot in range(G * C):
      i = int(disp_id[e, slot])
      if i:
        g, s = (i - 1) // S, (i - 1) % S
        want[g, s] += kept[g][(s, e)] * outs[e, slot]
        scale[g, s] += np.abs(kept[g][(s, e)] * outs[e, slot])
  if case['dtype'] in ('bfloat16', 'float16'):
    tol = 2e-2
  err = np.abs(np.asarray(comb.astype(jnp.float32), np.float64) - want)
  require(np.all(err <= tol * (scale + 1e-3)), 'combined output is not the weighted sum of the outputs of the experts of the item', err=float(err.max()))
  ctx.event(case['kind'])
  ctx.event('G%E==0' if G % E == 0 else 'G%E!=0')
  if any(kept) and G > 1 and E > 1:
    ctx.nontriv()


class Expert(nn.Module):
  """Expert acting on each item: y = act(x @ W + b) (and extras)."""
  features: int
  mode: str = 'plain'

  @nn.compact
  def __call__(self, x, *rest):
    init = nn.initializers.normal(1.0)
    y = jnp.tanh(nn.Dense(self.features, kernel_init=init, bias_init=init, name='d')(x))
    if self.mode == 'plain':
      return y
    if self.mode == 'aux':
      return y, {'n': jnp.sum(jnp.square(x)), 'm': jnp.mean(y)}
    if self.mode == 'tree':  # A second input, a tree of outputs.
      return {'y': y, 'z': (y[..., :1] * 2.0, rest[0])}
    if self.mode == 'rng':
      return y + jax.random.normal(self.make_rng('noise'), (self.features,))
    raise ValueError(self.mode)


@st.composite
def layer_cases(draw):
  E = draw(st.integers(1, 4))
  G = draw(st.one_of(st.integers(1, 4), st.integers(1, 2).map(lambda m: m * E)))
  return dict(kind=draw(st.sampled_from(['dense', 'einsum_top', 'indices_top', 'einsum_items'])), E=E, G=G, S=draw(st.integers(1, 4)),
              C=draw(st.integers(1, 4)), K=draw(st.integers(1, min(2, E))), bp=draw(st.booleans()), bf16=draw(st.sampled_from([False, False, True])),
              mode=draw(st.sampled_from(['plain', 'aux', 'tree', 'rng'])), split=draw(st.booleans()), din=draw(st.integers(1, 3)),
              dout=draw(st.integers(1, 3)), seed=draw(seeds), axis=draw(st.sampled_from([0, 0, 1])))


def run_layer(case, ctx):
  G, S, E, C, K = (case[k] for k in 'GSECK')
  rng = np.random.default_rng(case['seed'])
  d, kept, C = build(case['kind'], rng, G, S, E, C, K, case['bp'])
  tol = 1e-4
  if case['bf16']:
    d, tol = vmoe.moe.Bfloat16Dispatcher(d), 5e-2
  mode, split = case['mode'], case['split']
  cls = vmoe.moe.sparse_moe_spmd(Expert, variable_axes={'params': case['axis']}, split_rngs={'params': True, 'noise': split}, has_aux=mode == 'aux')
  layer = cls(features=case['dout'], mode=mode)
  x = rng.normal(size=(G, S, case['din']))
  if case['bf16']:
    x = np.asarray(jnp.asarray(x, jnp.bfloat16).astype(jnp.float32), np.float64)
  extra = rng.normal(size=(G, S))
  args = (jnp.asarray(x, jnp.float32),) + ((jnp.asarray(extra, jnp.float32),) if mode == 'tree' else ())
  k1, k2 = jax.random.split(jax.random.PRNGKey(case['seed']))
  variables = jax.jit(lambda *a: layer.init({'params': k1, 'noise': k2}, d, *a))(*args)
  kernel = np.asarray(variables['params']['d']['kernel'], np.float64)
  bias = np.asarray(variables['params']['d']['bias'], np.float64)
  kernel = np.moveaxis(kernel, case['axis'], 0)
  bias = np.moveaxis(bias, case['axis'], 0)
  npu.same_shape(kernel, (E, case['din'], case['dout']), 'stacked expert kernels')
  for a in range(E):
    for b in range(a):
      require(not np.array_equal(kernel[a], kernel[b]), 'two experts were initialised with the same parameters although rngs are split')
  out = jax.jit(lambda v, *a: layer.apply(v, d, *a, rngs={'noise': k2}))(variables, *args)
  f = [lambda v, e=e: np.tanh(v @ kernel[e] + bias[e]) for e in range(E)]
  wsum = np.zeros((G, S))
  want = np.zeros((G, S, case['dout']))
  scale = np.full((G, S, case['dout']), 1e-3)
  for g in range(G):
    for (s, e), w in kept[g].items():
      want[g, s] += w * f[e](x[g, s])
      scale[g, s] += abs(w)
      wsum[g, s] += w
  if mode == 'aux':
    out, aux = out
    npu.same_shape(aux['n'], (E,), 'auxiliary output')
    n = [sum(float(np.sum(x[g, s]**2)) for g in range(G) for (s, ee) in kept[g] if ee == e) for e in range(E)]
    npu.close(aux['n'], n, 'auxiliary output per expert', rtol=tol, atol=tol)
  if mode == 'tree':
    require(isinstance(out, dict) and set(out) == {'y', 'z'} and isinstance(out['z'], tuple), 'output tree structure changed')
    z0, z1 = out['z']
    npu.same_shape(z0, (G, S, 1), 'output tree leaf')
    npu.same_shape(z1, (G, S), 'output tree leaf')
    require(np.all(np.abs(np.asarray(z0, np.float64) - 2 * want[..., :1]) <= 2 * tol * scale[..., :1]), 'second output leaf is not combined like the first')
    require(np.all(np.abs(np.asarray(z1, np.float64) - wsum * extra) <= tol * (scale[..., 0] + np.abs(extra) * scale[..., 0])), 'second input was not dispatched/combined like the first')
    out = out['y']
  npu.same_shape(out, (G, S, case['dout']), 'output of the layer')
  out = np.asarray(out, np.float64)
  if mode == 'rng':
    # out - want = sum_e w * noise_e: with split rngs the noise differs between
    # experts, otherwise it is the same for all of them. Solve for noise.
    A = np.zeros((G * S, E))
    for g in range(G):
      for (s, e), w in kept[g].items():
        A[g * S + s, e] += w
    resid = (out - want).reshape(G * S, -1)
    sol, *_ = np.linalg.lstsq(A, resid, rcond=None)
    require(np.all(np.abs(A @ sol - resid) <= max(tol, 1e-3) * (1 + np.abs(A).sum(1, keepdims=True)) * 10), 'per-expert randomness is not a function of the expert')
    u, sv, _ = np.linalg.svd(A)
    if len(sv) == E and sv.min() > 0.1 and E > 1 and not case['bf16']:
      same = [np.allclose(sol[a], sol[b], atol=1e-3) for a in range(E) for b in range(a)]
      require(not any(same) if split else all(same), f'rng splitting between experts (split={split}) is not as requested')
      ctx.event(f'rng_split_{split}')
  else:
    require(np.all(np.abs(out - want) <= tol * scale), 'the MoE layer differs from applying each expert to its items and combining', err=float(np.abs(out - want).max()))
  ctx.event(mode)
  if G > 1 and E > 1:
    ctx.nontriv()


@st.composite
def mesh_cases(draw):
  return dict(kind=draw(st.sampled_from(['einsum_top', 'indices_top', 'dense', 'einsum_items'])), mesh=draw(st.sampled_from([[2, 4], [4, 2], [8, 1], [1, 8]])),
              E=draw(st.sampled_from([1, 2, 3, 4, 8, 16])), gm=draw(st.integers(1, 2)), S=draw(st.integers(1, 3)), C=draw(st.integers(1, 3)),
              K=1, bp=draw(st.booleans()), bf16=draw(st.booleans()), spec=draw(st.sampled_from(['tuple', 'P', 'str', 'none'])), seed=draw(seeds))


def run_mesh(case, ctx):
  """Under a device mesh with sharding constraints the results are the same."""
  E, S, C, K = case['E'], case['S'], case['C'], case['K']
  G = 8 * case['gm']
  devices = np.asarray(jax.devices()[:8]).reshape(case['mesh'])
  axes = ('expert', 'replica')
  spec = {'tuple': (axes,), 'P': P(axes), 'str': 'expert', 'none': None}[case['spec']]
  rng = np.random.default_rng(case['seed'])
  x = jnp.asarray(rng.integers(-20, 20, size=(G, S, 2)), jnp.float32)
  w = jnp.asarray(rng.integers(1, 9, size=(E, 2, 2)) / 8.0, jnp.float32)

  def fn(x, w, use_spec):
    d, _, _ = build(case['kind'], np.random.default_rng(case['seed']), G, S, E, C, K, case['bp'], partition_spec=spec if use_spec else None)
    if case['bf16']:
      d = vmoe.moe.Bfloat16Dispatcher(d)
    y = d.dispatch(x)
    return y, d.combine(jnp.einsum('ENi,Eij->ENj', y, w))

  y0, z0 = jax.jit(lambda x, w: fn(x, w, False))(x, w)
  mesh = jax.sharding.Mesh(devices, axes)
  with mesh:
    sh = jax.sharding.NamedSharding(mesh, P(axes))
    y1, z1 = jax.jit(lambda x, w: fn(x, w, True), in_shardings=(sh, None))(x, w)
    npu.exact(y1, y0, 'dispatch under a mesh')
    npu.close(z1, z0, 'combine under a mesh', rtol=2e-2 if case['bf16'] else 1e-4, atol=1e-1 if case['bf16'] else 1e-3)
  ctx.event('G%E==0' if G % E == 0 else 'G%E!=0')
  if E > 1:
    ctx.nontriv()


class AxesExpert(nn.Module):
  @nn.compact
  def __call__(self, x):
    w = nn.partitioning.param_with_axes('w', nn.initializers.normal(1.0), (x.shape[-1], 2), axes=('din', 'dout'))
    return x @ w


@st.composite
def axes_cases(draw):
  return dict(E=draw(st.integers(1, 4)), G=draw(st.integers(1, 4)), S=draw(st.integers(1, 3)), axis=draw(st.integers(0, 2)), seed=draw(seeds))


def run_axes(case, ctx):
  G, S, E, axis = case['G'], case['S'], case['E'], case['axis']
  rng = np.random.default_rng(case['seed'])
  d, kept, _ = build('dense', rng, G, S, E, 1, 1, False)
  cls = vmoe.moe.sparse_moe_spmd_with_axes(AxesExpert, variable_axes={'params': axis}, split_rngs={'params': True}, partitioning_axis_names={'params': 'EXP'})
  x = rng.normal(size=(G, S, 3))
  variables = cls().init(jax.random.PRNGKey(0), d, jnp.asarray(x, jnp.float32))
  names = tuple(variables['params_axes']['w_axes'].names)
  want = ['din', 'dout']
  want.insert(axis, 'EXP')
  require(names == tuple(want), 'logical axis names of the expert parameters', got=names, want=want)
  w = np.moveaxis(np.asarray(variables['params']['w'], np.float64), axis, 0)
  npu.same_shape(w, (E, 3, 2), 'expert parameters')
  out = cls().apply(variables, d, jnp.asarray(x, jnp.float32))
  want = np.zeros((G, S, 2))
  for g in range(G):
    for (s, e), v in kept[g].items():
      want[g, s] += v * (x[g, s] @ w[e])
  npu.close(out, want, 'layer output', rtol=1e-4, atol=1e-4)
  ctx.nontriv()


SUBS = [
    Sub('transport', cases(), run, quick=240, thorough=3000),
    Sub('layer', layer_cases(), run_layer, quick=90, thorough=1200),
    Sub('mesh', mesh_cases(), run_mesh, quick=30, thorough=400),
    Sub('axes', axes_cases(), run_axes, quick=12, thorough=60),
]
