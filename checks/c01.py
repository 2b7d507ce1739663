"""C01: top-experts-per-item routing."""
import functools

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from vlib.core import Sub, require, seeds
from vlib import ref_routing as rr


def check_decisions(holds, weights, expected, G, S, E, C, what, combine_tol=0.0):
  """Compares observed dispatch/combine behaviour with kept pairs per group."""
  require(holds.shape == (E, G * C, G * S), f'{what}: dispatched data has a wrong shape', got=holds.shape, want=(E, G * C, G * S))
  require(weights.shape == (G, S, E, G * C), f'{what}: combined data has a wrong shape', got=weights.shape)
  require(np.all((holds == 0) | (holds == 1)), f'{what}: an item reached a buffer with a factor other than 1')
  per_slot = holds.sum(axis=2)
  require(np.all(per_slot <= 1), f'{what}: two items share one buffer slot')
  want_holds = {}
  for g in range(G):
    for (s, e), w in expected[g].items():
      want_holds[(e, g * S + s)] = w
  got_pairs = {}
  for e, slot, i in np.argwhere(holds == 1):
    key = (int(e), int(i))
    require(key not in got_pairs, f'{what}: item {i} occupies two slots of expert {e}')
    got_pairs[key] = int(slot)
  for key in got_pairs:
    require(key in want_holds, f'{what}: expert {key[0]} got item {key[1]} (group {key[1] // S}) that must not be there')
  for key in want_holds:
    require(key in got_pairs, f'{what}: expert {key[0]} did not get item {key[1]} (group {key[1] // S})')
  want_w = np.zeros_like(weights)
  for (e, i), slot in got_pairs.items():
    want_w[i // S, i % S, e, slot] = want_holds[(e, i)]
  bad = np.argwhere(~(np.abs(weights - want_w) <= combine_tol * np.abs(want_w)))
  if len(bad):
    b = tuple(int(v) for v in bad[0])
    require(False, f'{what}: combine weight of item {b[:2]} for (expert, slot) {b[2:]}', got=weights[b], want=want_w[b])
  # Capacity per group.
  for e in range(E):
    for g in range(G):
      require(holds[e, :, g * S:(g + 1) * S].sum() <= C, f'{what}: expert {e} holds more than the capacity of group {g}')


@st.composite
def cases(draw):
  S = draw(st.integers(1, 9))
  E = draw(st.integers(1, 6))
  K = draw(st.integers(1, min(E, 4)))
  cap = draw(st.one_of(st.integers(1, 3), st.integers(1, 10)))
  G = draw(st.sampled_from([1, 1, 2, 3, 4, 5]))
  return dict(S=S, E=E, K=K, cap=cap, G=G, bp=draw(st.booleans()), style=draw(st.sampled_from(rr.STYLES)),
              seed=draw(seeds), jit=draw(st.integers(0, 9)) != 3, dtype=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])),
              reps=draw(st.integers(1, 4)))


@functools.lru_cache(maxsize=64)
def observer(name, G, S, E, K, cap, bp, jit):
  def fn(gates):
    d = jax.vmap(lambda g: vmoe.moe.get_top_experts_per_item_dispatcher(
        g, name=name, num_selected_experts=K, batch_priority=bp, capacity=cap))(gates)
    n = G * S
    eye = jnp.eye(n, dtype=jnp.float32).reshape(G, S, n)
    holds = d.dispatch(eye)
    e, slots = holds.shape[:2]
    basis = jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots)
    return holds, d.combine(basis)
  return jax.jit(fn) if jit else fn


def run(case, ctx):
  G, S, E, K, C = case['G'], case['S'], case['E'], case['K'], case['cap']
  rng = np.random.default_rng(case['seed'])
  for rep in range(case['reps']):
    gates = jnp.asarray(rr.make_gates(rng, case['style'], (G, S, E)), dtype=case['dtype'])
    g64 = np.asarray(gates.astype(jnp.float32), np.float64)
    expected, dropped, ties = [], 0, False
    for g in range(G):
      kept, drop = rr.top_experts_reference(g64[g], K, C, case['bp'])
      expected.append(kept)
      dropped += len(drop)
      mx = g64[g].max(axis=1)
      ties |= len(set(mx)) < len(mx) or any(len(set(r)) < len(r) for r in g64[g])
    if rep:
      ctx.more(1)
    ctx.event('with_drops' if dropped else 'no_drops')
    ctx.event('ties' if ties else 'no_ties')
    if dropped:
      ctx.nontriv(rep)
    for name in ('einsum', 'indices'):
      holds, w = observer(name, G, S, E, K, C, case['bp'], case['jit'])(gates)
      holds, w = np.asarray(holds, np.float64), np.asarray(w, np.float64)
      require(w.shape[:2] == (G, S), f'{name}: combine output shape {w.shape}')
      w = w.reshape(G, S, *holds.shape[:2])
      check_decisions(holds, w, expected, G, S, E, C, f'{name} dispatcher')


@st.composite
def big_cases(draw):
  """Bigger groups: many items compete, larger K and E."""
  S = draw(st.sampled_from([17, 32, 49, 64]))
  E = draw(st.sampled_from([2, 4, 8, 16]))
  K = draw(st.integers(1, min(E, 6)))
  return dict(S=S, E=E, K=K, cap=draw(st.integers(1, 20)), G=draw(st.sampled_from([1, 2])), bp=draw(st.booleans()),
              style=draw(st.sampled_from(rr.STYLES)), seed=draw(seeds), jit=True, dtype='float32', reps=3)


@st.composite
def huge_cases(draw):
  """Groups of hundreds or thousands of items."""
  S = draw(st.sampled_from([100, 129, 196, 257, 300, 400, 520, 1030, 2100]))
  E = draw(st.sampled_from([1, 2, 3, 8, 32]))
  return dict(S=S, E=E, K=draw(st.integers(1, min(E, 8))), cap=draw(st.sampled_from([1, 4, 30, 130, 260, 300])), G=1, bp=draw(st.booleans()),
              style=draw(st.sampled_from(rr.STYLES)), seed=draw(seeds), dtype=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])))


HUGE = [dict(S=40000, E=2, K=2, cap=3, G=1, bp=b, style=t, seed=5) for b, t in ((True, 'peaked'), (False, 'softmax'))] + [
    dict(S=70000, E=2, K=2, cap=2, G=1, bp=False, style='peaked', seed=6), dict(S=300, E=4, K=4, cap=300, G=2, bp=True, style='ties', seed=7),
    dict(S=600, E=128, K=2, cap=12, G=1, bp=True, style='softmax', seed=8),
    dict(S=600, E=2, K=1, cap=600, G=1, bp=False, style='peaked', seed=9, dtype='bfloat16')]


def run_huge(case, ctx):
  G, S, E, K, C = case['G'], case['S'], case['E'], case['K'], case['cap']
  rng = np.random.default_rng(case['seed'])
  gates = jnp.asarray(rr.make_gates(rng, case['style'], (G, S, E)), case.get('dtype', 'float32'))
  g64 = np.asarray(gates.astype(jnp.float32), np.float64)
  expected, dropped = [], 0
  for g in range(G):
    kept, drop = rr.top_experts_reference(g64[g], K, C, case['bp'])
    expected.append(kept)
    dropped += len(drop)
  for name in ('einsum', 'indices'):
    d = jax.jit(jax.vmap(lambda g: vmoe.moe.get_top_experts_per_item_dispatcher(
        g, name=name, num_selected_experts=K, batch_priority=case['bp'], capacity=C)))(gates)
    rr.check_ids(*rr.observe_ids(d, G, S, rng), expected, G, S, E, C, f'{name} dispatcher', require)
  ctx.event(f'assignments>={10**int(np.log10(S * K))}')
  if dropped:
    ctx.nontriv()


@st.composite
def misuse_cases(draw):
  return dict(name=draw(st.sampled_from(['einsum', 'indices', 'bogus', '', 'Einsum'])), S=draw(st.integers(1, 4)), E=draw(st.integers(1, 4)))


def run_misuse(case, ctx):
  gates = jnp.ones((case['S'], case['E'])) / case['E']
  try:
    vmoe.moe.get_top_experts_per_item_dispatcher(gates, name=case['name'], num_selected_experts=1, batch_priority=False, capacity=2)
    ok = True
  except ValueError:
    ok = False
  require(ok == (case['name'] in ('einsum', 'indices')), f'dispatcher name {case["name"]!r}: accepted={ok}')


SUBS = [
    Sub('small', cases(), run, quick=240, thorough=4000),
    Sub('big', big_cases(), run, quick=48, thorough=1000),
    Sub('huge', huge_cases(), run_huge, quick=24, thorough=400, examples=HUGE),
    Sub('misuse', misuse_cases(), run_misuse, quick=10, thorough=20, max_shards=1),
]
