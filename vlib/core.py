"""Core of the harness: sub-checks, contexts, the Hypothesis driver."""
import dataclasses
import hashlib
import json
import os
import re
import random
import sys
import time
import traceback
from typing import Any, Callable, Optional

import hypothesis
from hypothesis import strategies as st

VERIF_DIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
  """The code under test broke the property on a valid input."""


class HarnessError(Exception):
  """Something in the machinery itself failed."""


def require(cond, msg, **details):
  if not cond:
    if callable(msg):
      msg = msg()
    if details:
      msg += ' | ' + ', '.join(f'{k}={short(v)}' for k, v in details.items())
    raise Violation(msg)


def short(v, n=400):
  s = repr(v)
  return s if len(s) <= n else s[:n] + '...'


@dataclasses.dataclass
class Sub:
  """A sub-check: a generator of JSON-able cases and a function deciding one.

  run(case, ctx) raises Violation, or any exception coming from the code under
  test, if the property does not hold for the case.
  """
  name: str
  strategy: Any                 # Hypothesis strategy producing JSON-able cases.
  run: Callable[[Any, 'Ctx'], None]
  quick: int = 40
  thorough: int = 400
  examples: tuple = ()          # Cases always run first.
  max_shards: Optional[int] = None  # At most that many workers run it.


class Ctx:
  """Given to each run: collects coverage data."""

  def __init__(self, known=()):
    self.evaluations = 0
    self.nontrivial = set()
    self.events = {}
    self.samples = {}
    self.per_sub_nontriv = {}
    self.known = {}
    self.known_list = tuple(known)
    self.case = None
    self.sub = None

  # --- per-case API ---
  def begin(self, sub, case):
    self.sub, self.case = sub, case
    self.evaluations += 1

  def more(self, n):
    """Counts n further evaluations decided inside of one case."""
    self.evaluations += int(n)

  def nontriv(self, *key):
    """Marks the present case (optionally a part of it) as non-trivial."""
    data = json.dumps([self.sub, self.case, list(key)], sort_keys=True, default=str)
    h = hashlib.sha1(data.encode()).hexdigest()[:16]
    if h not in self.nontrivial:
      self.nontrivial.add(h)
      n = self.per_sub_nontriv[self.sub] = self.per_sub_nontriv.get(self.sub, 0) + 1
      if n in (1, 2, 6, 11):
        s = {'sub': self.sub, 'case': self.case}
        if key:
          s['part'] = [short(k, 120) for k in key]
        if len(json.dumps(s, default=str)) > 1500:
          s = {'sub': self.sub, 'case': short(self.case, 1200)}
        mine = self.samples.setdefault(self.sub, [])
        if len(mine) < 2:
          mine.append(s)
        else:
          mine[n == 11] = s

  def event(self, label):
    k = f'{self.sub}:{label}'
    self.events[k] = self.events.get(k, 0) + 1

  def finding(self, signature, msg):
    """A violation identified by a signature; suppressed only if listed."""
    if signature in self.known_list:
      self.known[signature] = msg
      return
    raise Violation(f'{msg} [signature {signature}]')


def is_harness_exception(exc):
  """True if the exception was raised by the harness's own code, by mistake."""
  if isinstance(exc, Violation):
    return False
  if isinstance(exc, HarnessError):
    return True
  if isinstance(exc, (MemoryError,)):
    return True
  # Values of a wrong shape, length, type... coming out of the code under test
  # surface as ValueError, IndexError, TypeError ('<' of None and str)...: those
  # are violations. Names or signatures that do not exist, without passing
  # through the code under test, mean that the harness and the API do not fit
  # together.
  if isinstance(exc, AttributeError):
    if not re.search(r"^(partially initialized )?module |^type object |NameError", str(exc)):
      return False
  elif isinstance(exc, TypeError):
    if not re.search(r'unexpected keyword argument|required (positional|keyword-only) argument|positional arguments? but|multiple values for (keyword )?argument', str(exc)):
      return False
  elif not isinstance(exc, (ImportError, NameError)):
    return False
  repo = os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/'
  # Search the whole chain: some libraries (jax) drop frames of their callers.
  seen, visited = exc, set()
  while seen is not None and id(seen) not in visited:
    visited.add(id(seen))
    for f in traceback.extract_tb(seen.__traceback__):
      if f.filename.startswith(repo):
        return False
    seen = seen.__cause__ or seen.__context__
  return True


class StopShrink(BaseException):
  pass


def run_sub(sub, ctx, n, seed, shrink_seconds=60.0, deadline=None):
  """Runs n cases of the sub-check. Returns None or a failure dict."""
  state = {'fail': None, 'size': None, 'first': None, 'stop': False, 'skipped': 0}

  def one(case):
    ctx.begin(sub.name, case)
    try:
      sub.run(case, ctx)
    except hypothesis.errors.UnsatisfiedAssumption:
      raise
    except Exception as e:  # pylint: disable=broad-except
      if is_harness_exception(e):
        state['harness'] = traceback.format_exc()
      size = len(json.dumps(case, default=str))
      if state['first'] is None:
        state['first'] = time.time()
      if state['size'] is None or size <= state['size']:
        state['size'] = size
        state['fail'] = {
            'sub': sub.name, 'case': case,
            'error': f'{type(e).__name__}: {e}'[:3000],
            'traceback': traceback.format_exc()[-6000:],
            'harness': is_harness_exception(e),
        }
      raise

  for case in sub.examples:
    try:
      one(case)
    except hypothesis.errors.UnsatisfiedAssumption:
      pass
    except Exception:  # pylint: disable=broad-except
      return state['fail']

  if n <= 0:
    return None

  @hypothesis.seed(seed)
  @hypothesis.settings(
      max_examples=n, database=None, deadline=None, derandomize=False,
      report_multiple_bugs=False, print_blob=False,
      phases=(hypothesis.Phase.generate, hypothesis.Phase.shrink),
      verbosity=hypothesis.Verbosity.quiet,
      suppress_health_check=list(hypothesis.HealthCheck))
  @hypothesis.given(sub.strategy)
  def test(case):
    if state['first'] is not None and time.time() - state['first'] > shrink_seconds:
      raise StopShrink()
    if deadline is not None and state['first'] is None and time.time() > deadline:
      state['skipped'] += 1
      return
    one(case)

  try:
    test()
  except StopShrink:
    pass
  except Exception:  # pylint: disable=broad-except
    if state['fail'] is None:
      raise
  if state['skipped']:
    ctx.events[f'{sub.name}:skipped_by_time_guard'] = (
        ctx.events.get(f'{sub.name}:skipped_by_time_guard', 0) + state['skipped'])
  return state['fail']


def sub_seed(seed, prop, name, shard):
  h = hashlib.sha256(f'{seed}/{prop}/{name}/{shard}'.encode()).digest()
  return int.from_bytes(h[:6], 'big')


# --- small strategies shared by checks ---
seeds = st.integers(0, 2**31 - 1)


def np_rng(seed):
  import numpy as np
  return np.random.default_rng(seed)
