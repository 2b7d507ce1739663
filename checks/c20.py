"""C20: learning-rate schedules."""
import math

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax
from vmoe.train import optimizer
from vmoe.train import schedule
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 1800}
KINDS = ['constant', 'warmup_exponential_decay', 'warmup_cosine_decay', 'warmup_linear_decay', 'warmup_polynomial_decay', 'big_vision_rsqrt']


@st.composite
def cases(draw):
  kind = draw(st.sampled_from(KINDS))
  peak = draw(st.sampled_from([1e-4, 1e-3, 0.03, 0.5, 1.0, 8.0]))
  total = draw(st.sampled_from([1, 2, 3, 7, 10, 64, 1000, 90000, 1000000]))
  given_decay = draw(st.booleans())
  decay = draw(st.integers(1, 2 * total)) if given_decay else total
  if draw(st.integers(0, 4)) == 0:
    warm = 0
  else:
    warm = draw(st.integers(0, max(0, decay - 1)))
  end = draw(st.sampled_from([0.0, 0.0, 0.01, 0.5])) * peak
  kw = {}
  if kind == 'constant':
    kw = dict(value=peak)
  elif kind == 'warmup_exponential_decay':
    kw = dict(peak_value=peak, warmup_steps=warm, transition_steps=draw(st.integers(1, total)), decay_rate=draw(st.sampled_from([0.5, 0.9, 0.1])))
    if draw(st.booleans()):
      kw['end_value'] = end
    if draw(st.booleans()):
      kw['staircase'] = draw(st.booleans())
    if draw(st.booleans()):
      kw['transition_begin'] = draw(st.integers(0, total))
  elif kind == 'warmup_cosine_decay':
    kw = dict(peak_value=peak, warmup_steps=warm, end_value=end)
  elif kind == 'warmup_linear_decay':
    kw = dict(peak_value=peak, warmup_steps=warm, end_value=end)
  elif kind == 'warmup_polynomial_decay':
    kw = dict(peak_value=peak, warmup_steps=warm, end_value=end, power=draw(st.sampled_from([0.5, 1.0, 2.0, 3.0])))
  else:
    cool = draw(st.sampled_from([0, 1, decay // 4, decay - warm])) if decay > warm else 0
    cool = max(0, min(cool, decay - warm))
    kw = dict(peak_value=peak, timescale=draw(st.sampled_from([1, 10, 1000, 10000])))
    if warm or draw(st.booleans()):
      kw['warmup_steps'] = warm
    if cool or draw(st.booleans()):
      kw['cooldown_steps'] = cool
  if given_decay and kind not in ('constant', 'warmup_exponential_decay'):
    kw['decay_steps'] = decay
  return dict(kind=kind, total=total, kw=kw, steps=draw(st.lists(st.integers(0, 3 * total + 5), min_size=1, max_size=8)), how=draw(st.sampled_from(['int', 'int', 'array', 'jit'])))


def reference(case, t):
  k, kw = case['kind'], case['kw']
  if k == 'constant':
    return kw['value']
  peak, w = kw['peak_value'], kw.get('warmup_steps', 0)
  if t < w:
    return peak * t / w
  c = t - w
  if k == 'warmup_exponential_decay':
    begin = kw.get('transition_begin', 0)
    if c < begin:
      return peak
    e = (c - begin) / kw['transition_steps']
    if kw.get('staircase'):
      e = math.floor(e)
    v = peak * kw['decay_rate'] ** e
    return max(v, kw['end_value']) if kw.get('end_value') is not None else v
  total = kw.get('decay_steps', case['total'])
  n = total - w
  if k == 'big_vision_rsqrt':
    cool = kw.get('cooldown_steps', 0)
    r = lambda c: peak / math.sqrt(1 + c / kw['timescale'])
    if cool and t >= total - cool:
      return max(0.0, r(n - cool) * (1 - (t - (total - cool)) / cool))
    return r(c)
  f = min(c, n) / n
  if k == 'warmup_cosine_decay':
    return kw['end_value'] + (peak - kw['end_value']) * 0.5 * (1 + math.cos(math.pi * f))
  power = kw.get('power', 1.0)
  return kw['end_value'] + (peak - kw['end_value']) * (1 - f) ** power


def milestones(case):
  kw = case['kw']
  w, total = kw.get('warmup_steps', 0), kw.get('decay_steps', case['total'])
  m = [0, 1, w, total, total - kw.get('cooldown_steps', 0), case['total'], 2 * total, w + kw.get('transition_begin', 0), w + kw.get('transition_begin', 0) + kw.get('transition_steps', 0)]
  return sorted({max(0, x + d) for x in m for d in (-1, 0, 1)})


def run_schedule(case, ctx):
  fn = schedule.create_learning_rate_schedule(schedule=case['kind'], total_steps=case['total'], **case['kw'])
  peak = case['kw'].get('peak_value', case['kw'].get('value'))
  steps = sorted(set(case['steps']) | set(milestones(case)))
  if case['how'] == 'jit':
    vals = np.asarray(jax.jit(jax.vmap(fn))(jnp.asarray(steps, jnp.int32))) if case['kind'] != 'constant' else [fn(0)] * len(steps)
  elif case['how'] == 'array':
    vals = [fn(jnp.asarray(s, jnp.int32)) for s in steps]
  else:
    vals = [fn(s) for s in steps]
  for s, v in zip(steps, vals):
    v = float(np.asarray(v))
    want = reference(case, s)
    # Near the end of a decay 1 - f loses digits: tolerance relative to the peak.
    kw = case['kw']
    slack = 1e-6
    if case['kind'] == 'warmup_polynomial_decay' and kw['power'] < 1:
      slack = 2e-3
    staircase_edge = kw.get('staircase') and (s - kw['warmup_steps'] - kw.get('transition_begin', 0)) % kw['transition_steps'] == 0
    require(math.isfinite(v), 'learning rate not finite', step=s, got=v)
    require(-1e-6 * peak <= v <= peak * (1 + 1e-5), 'learning rate negative or above the peak', step=s, got=v, peak=peak)
    if not staircase_edge:
      npu.close(v, want, f'learning rate at step {s}', rtol=1e-4, atol=2 * slack * peak)
  w = case['kw'].get('warmup_steps', 0)
  if w > 0 and case['kind'] != 'constant':
    npu.close(vals[steps.index(w)], peak, 'the peak is not reached at the end of the warm-up', rtol=1e-5)
  ctx.more(len(steps))
  if case['kind'] != 'constant':
    ctx.nontriv()
  ctx.event(case['kind'])


@st.composite
def error_cases(draw):
  what = draw(st.sampled_from(['unknown', 'short', 'timescale']))
  w, c = draw(st.integers(0, 50)), draw(st.integers(0, 50))
  return dict(what=what, w=w, c=c, total=draw(st.integers(1, 100)), name=draw(st.sampled_from(['cosine', 'linear', '', 'warmup', 'rsqrt', 'Constant', 'constant ', 'warmup_linear', 'Warmup_Cosine_Decay', 'warmup_cosine_decay_schedule', 'cosine_decay', 'linear_decay', 'warmup_polynomial', 'rsqrt', 'big_vision', None])), ts=draw(st.integers(-50, -1)))


def run_errors(case, ctx):
  c = schedule.create_learning_rate_schedule
  base = dict(peak_value=1.0, warmup_steps=case['w'], cooldown_steps=case['c'])
  if case['what'] == 'unknown':
    # Whatever options the schedule might want, it is not known.
    options = [dict(peak_value=1.0), dict(value=1.0), dict(peak_value=1.0, end_value=0.0, warmup_steps=0), dict(peak_value=1.0, end_value=0.0, power=1.0, warmup_steps=0), dict(peak_value=1.0, warmup_steps=0, timescale=10), {}]

    def f():
      for kw in options:
        try:
          c(schedule=case['name'], total_steps=case['total'], **kw)
        except (ValueError, TypeError) as e:
          last = e
          continue
        return
      # With no option but the name, unknown names raise ValueError.
      raise last
    bad = True
  elif case['what'] == 'short':
    f = lambda: c(schedule='big_vision_rsqrt', total_steps=case['total'], timescale=10, **base)
    bad = case['total'] < case['w'] + case['c']
  else:
    f = lambda: c(schedule='big_vision_rsqrt', total_steps=200, timescale=case['ts'], **base)
    bad = True
  try:
    f()
  except ValueError:
    require(bad, 'a valid schedule is rejected', case=case)
    ctx.nontriv()
    return
  require(not bad, 'an invalid schedule is accepted', case=case)


SUBS = [
    Sub('schedule', cases(), run_schedule, quick=2100, thorough=20000),
    Sub('errors', error_cases(), run_errors, quick=60, thorough=300, max_shards=1),
]
