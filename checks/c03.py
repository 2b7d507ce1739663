"""C03: top-items-per-expert routing."""
import functools
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from vlib.core import Sub, require, seeds
from vlib import npu
from vlib import ref_routing as rr
from checks.c01 import check_decisions


@functools.lru_cache(maxsize=64)
def observer(G, S, E, kw, jit):
  kw = dict(kw)
  def fn(gates):
    d, metrics = jax.vmap(lambda g: vmoe.moe.get_top_items_per_expert_dispatcher(g, name='einsum', **kw))(gates)
    n = G * S
    eye = jnp.eye(n, dtype=jnp.float32).reshape(G, S, n)
    holds = d.dispatch(eye)
    e, slots = holds.shape[:2]
    basis = jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots)
    return holds, d.combine(basis), metrics
  return jax.jit(fn) if jit else fn


def check_metrics(metrics, expected, G, S, E):
  thresholds = sorted({2**i for i in range(int(math.log2(E)) + 1)} | {E})
  for g in range(G):
    count = np.zeros(S, int)
    for (s, _) in expected[g]:
      count[s] += 1
    sel = list(expected[g].values())
    want = {'num_experts_per_item_min': count.min(), 'num_experts_per_item_max': count.max(),
            'min_selected_gate': min(sel), 'max_selected_gate': max(sel)}
    for t in thresholds:
      want[f'ratio_processed_items_by_at_least_{t}_experts'] = float((count >= t).mean())
    require(set(metrics) == set(want), 'set of reported metrics', got=sorted(metrics), want=sorted(want))
    for k, v in want.items():
      npu.close(np.asarray(metrics[k], np.float64)[g], v, f'metric {k}', rtol=1e-5, atol=1e-6)


@st.composite
def cases(draw):
  S = draw(st.one_of(st.integers(1, 9), st.sampled_from([16, 33])))
  E = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 16]))
  how = draw(st.sampled_from(['capacity', 'capacity', 'factor']))
  case = dict(S=S, E=E, G=draw(st.sampled_from([1, 1, 2, 3])), how=how, style=draw(st.sampled_from(rr.STYLES)), seed=draw(seeds),
              jit=draw(st.integers(0, 9)) != 3, dtype=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])), reps=draw(st.integers(1, 4)))
  if how == 'capacity':
    case['cap'] = draw(st.integers(1, S))
  else:
    # A factor f = cap * E / S for a target capacity, exactly.
    case['cap'] = draw(st.integers(1, S))
    case['mult'] = draw(st.sampled_from([None, 1]))
  return case


def run(case, ctx):
  G, S, E, C = case['G'], case['S'], case['E'], case['cap']
  if case['how'] == 'capacity':
    kw = (('capacity', C),)
  else:
    f = (C - 0.5) * E / S  # ceil(S * f / E) == C.
    kw = (('capacity_factor', f), ('capacity_multiple_of', case['mult']))
  rng = np.random.default_rng(case['seed'])
  for rep in range(case['reps']):
    gates = jnp.asarray(rr.make_gates(rng, case['style'], (G, S, E)), dtype=case['dtype'])
    g64 = np.asarray(gates.astype(jnp.float32), np.float64)
    holds, w, metrics = observer(G, S, E, kw, case['jit'])(gates)
    holds, w = np.asarray(holds, np.float64), np.asarray(w, np.float64)
    require(w.shape[:2] == (G, S), f'combine output shape {w.shape}')
    w = w.reshape(G, S, *holds.shape[:2])
    expected = [rr.top_items_reference(g64[g], C) for g in range(G)]
    check_decisions(holds, w, expected, G, S, E, C, 'einsum dispatcher')
    for g in range(G):
      for e in range(E):
        require(holds[e, :, g * S:(g + 1) * S].sum() == C, f'expert {e} does not process exactly the capacity')
    check_metrics(metrics, expected, G, S, E)
    if rep:
      ctx.more(1)
    ctx.event('partial' if C < S else 'all')
    if C < S and E > 1:
      ctx.nontriv(rep)


@st.composite
def huge_cases(draw):
  S = draw(st.sampled_from([100, 130, 196, 260, 600, 1100]))
  return dict(S=S, E=draw(st.sampled_from([1, 2, 5, 32, 64, 65, 130, 200])), cap=draw(st.sampled_from([1, 3, 17, 100, S // 2, S])), style=draw(st.sampled_from(rr.STYLES)), seed=draw(seeds))


def run_huge(case, ctx):
  S, E, C = case['S'], case['E'], case['cap']
  if S * E * C > 8e6:
    C = max(1, int(8e6 / (S * E)))
  rng = np.random.default_rng(case['seed'])
  gates = jnp.asarray(rr.make_gates(rng, case['style'], (1, S, E)), jnp.float32)
  expected = [rr.top_items_reference(np.asarray(gates, np.float64)[0], C)]
  d, metrics = jax.jit(jax.vmap(lambda g: vmoe.moe.get_top_items_per_expert_dispatcher(g, name='einsum', capacity=C)))(gates)
  rr.check_ids(*rr.observe_ids(d, 1, S, rng), expected, 1, S, E, C, 'einsum dispatcher', require)
  check_metrics(metrics, expected, 1, S, E)
  if C < S and E > 1:
    ctx.nontriv()


HUGE = [dict(S=600, E=2, cap=300, style='softmax', seed=1), dict(S=130, E=200, cap=100, style='peaked', seed=2), dict(S=40, E=300, cap=40, style='ties', seed=3)]


def run_misuse(case, ctx):
  gates = jnp.ones((4, 2)) / 2
  try:
    vmoe.moe.get_top_items_per_expert_dispatcher(gates, name=case['name'], capacity=2)
    ok = True
  except ValueError:
    ok = False
  require(ok == (case['name'] == 'einsum'), f'dispatcher name {case["name"]!r}: accepted={ok}')


SUBS = [
    Sub('routing', cases(), run, quick=280, thorough=4000),
    Sub('huge', huge_cases(), run_huge, quick=24, thorough=300, examples=HUGE),
    Sub('misuse', st.fixed_dictionaries({'name': st.sampled_from(['einsum', 'indices', 'bogus'])}), run_misuse, quick=3, thorough=3, max_shards=1),
]
