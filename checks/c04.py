"""C04: expert capacity."""
import fractions
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from vlib.core import Sub, require, seeds

F = fractions.Fraction


def allowed(num_tokens, num_experts, factor, mode, multiple_of):
  """Set of acceptable capacities (None: must raise): exact up to float error."""
  v = F(num_tokens) * F(factor) / num_experts
  eps = abs(v) * F(1, 10**12)
  out = set()
  for x in (v - eps, v, v + eps):
    if mode == 'ceil':
      cands = [math.ceil(x)]
    else:
      lo = math.floor(x)
      d = x - lo
      cands = [lo] if d < F(1, 2) else [lo + 1] if d > F(1, 2) else [lo, lo + 1]
    for c in cands:
      if c < 1:
        out.add(None)
      else:
        if multiple_of is not None and multiple_of > 0:
          c = -(-c // multiple_of) * multiple_of
        out.add(c)
  return out


@st.composite
def cases(draw):
  nice = st.sampled_from([0.25, 0.5, 1.0, 1.05, 1.1, 1.25, 1.5, 2.0, 3.0, 4.0])
  return dict(n=draw(st.one_of(st.integers(1, 40), st.integers(1, 10**6))), e=draw(st.one_of(st.integers(1, 16), st.integers(1, 4096))),
              f=draw(st.one_of(nice, st.floats(0.001, 20.0, allow_nan=False))), mode=draw(st.sampled_from(['ceil', 'round'])),
              mult=draw(st.sampled_from([None, 0, 1, 2, 3, 4, 4, 5, 7, 8, 16, 128, 'default'])))


def run(case, ctx):
  kw = {} if case['mult'] == 'default' else {'multiple_of': case['mult']}
  mult = 4 if case['mult'] == 'default' else case['mult']
  if case['mode'] == 'round' or case['n'] % 2:
    kw['ceil_or_round'] = case['mode']
  ok = allowed(case['n'], case['e'], case['f'], case['mode'], mult)
  try:
    got = vmoe.moe.compute_capacity(case['n'], case['e'], case['f'], **kw)
  except ValueError:
    got = None
  require(got in ok, 'capacity', got=got, want=ok)
  require(got is None or (isinstance(got, int) and got >= 1), 'capacity is not a positive int', got=got)
  if got is not None and case['mode'] == 'ceil' and case['f'] >= 1:
    require(got * case['e'] >= case['n'], 'with factor >= 1 a balanced routing would drop assignments', got=got)
  ctx.event('raises' if got is None else 'value')
  if got is not None and (case['n'] * case['f']) % case['e']:
    ctx.nontriv()


@st.composite
def bad_mode(draw):
  return dict(n=draw(st.integers(1, 100)), e=draw(st.integers(1, 10)), f=draw(st.floats(0.5, 4)), mode=draw(st.one_of(st.text(max_size=6), st.sampled_from(['Ceil', 'CEIL', 'ceil ', 'rounding', 'Round', 'floor', 'ceil_or_round', 'ceiling', '', None]))))


def run_bad(case, ctx):
  if case['mode'] in ('ceil', 'round'):
    return
  try:
    got = vmoe.moe.compute_capacity(case['n'], case['e'], case['f'], ceil_or_round=case['mode'])
  except ValueError:
    ctx.nontriv()
    return
  require(False, f'rounding mode {case["mode"]!r} was accepted', got=got)


@st.composite
def disp_cases(draw):
  E = draw(st.integers(1, 5))
  return dict(S=draw(st.integers(1, 14)), E=E, K=draw(st.integers(1, E)), f=draw(st.sampled_from([0.25, 0.5, 0.75, 1.0, 1.05, 1.5, 2.0])),
              mode=draw(st.sampled_from(['ceil', 'round', 'default'])), mult=draw(st.sampled_from([None, 1, 2, 3, 4, 'default'])),
              which=draw(st.sampled_from(['einsum', 'indices', 'items'])), both=draw(st.sampled_from(['factor'] * 6 + ['both', 'neither'])))


def run_disp(case, ctx):
  S, E, K = case['S'], case['E'], case['K']
  kw = {}
  if case['mode'] != 'default':
    kw['capacity_ceil_or_round'] = case['mode']
  if case['mult'] != 'default':
    kw['capacity_multiple_of'] = case['mult']
  if case['both'] in ('factor', 'both'):
    kw['capacity_factor'] = case['f']
  if case['both'] == 'both':
    kw['capacity'] = 2
  mode = 'ceil' if case['mode'] == 'default' else case['mode']
  mult = 4 if case['mult'] == 'default' else case['mult']
  n = S if case['which'] == 'items' else S * K
  ok = allowed(n, E, case['f'], mode, mult)
  if case['both'] != 'factor':
    ok = {None}
  if case['which'] == 'items' and any(c is not None and c > S for c in ok):
    return
  def make(g):
    if case['which'] == 'items':
      return vmoe.moe.get_top_items_per_expert_dispatcher(g, name='einsum', **kw)[0]
    return vmoe.moe.get_top_experts_per_item_dispatcher(g, name=case['which'], num_selected_experts=K, batch_priority=False, **kw)
  def size(g):
    return jax.vmap(make)(g).dispatch(jnp.zeros((1, S, 1)))
  try:
    out = jax.eval_shape(size, jax.ShapeDtypeStruct((1, S, E), jnp.float32))
    got = out.shape[1]
  except ValueError:
    got = None
  require(got in ok, f'buffer size of a {case["which"]} dispatcher', got=got, want=ok)
  ctx.event(case['both'])
  if got is not None:
    ctx.nontriv()


SUBS = [
    Sub('compute', cases(), run, quick=6000, thorough=200000),
    Sub('bad_mode', bad_mode(), run_bad, quick=60, thorough=600, max_shards=1),
    Sub('dispatchers', disp_cases(), run_disp, quick=400, thorough=4000),
]
