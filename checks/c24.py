"""C24: utilities."""
import ast
import itertools
import json
import math
import re
import sys
import types

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from vmoe import utils
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 1800}

# ---------------------------------------------------------------------------
# parse_call.

# Cases are JSON, so that literals are kept as Python source text.
scalars = st.one_of(
    st.integers(-10**6, 10**6).map(repr), st.booleans().map(repr), st.none().map(repr),
    st.floats(allow_nan=False, allow_infinity=False, width=32).map(repr),
    st.text(alphabet='abc()|,.=\'"\\ \néλ{}[]#', max_size=8).map(repr),
    st.binary(max_size=4).map(repr), st.sampled_from(['0x1f', '1e-3', '3j', '1+2j', '-7', '+3', "'a' 'b'", 'r"\\d"', '...', '1_000']))


def containers(ch):
  return st.one_of(
      st.lists(ch, max_size=3).map(lambda l: '[' + ', '.join(l) + ']'),
      st.lists(ch, max_size=3).map(lambda l: '(' + ', '.join(l) + (',)' if len(l) == 1 else ')')),
      st.lists(st.tuples(st.text(alphabet='abk', max_size=3).map(repr), ch), max_size=3).map(lambda l: '{' + ', '.join(f'{k}: {v}' for k, v in l) + '}'),
      st.lists(st.integers(0, 9).map(repr), min_size=1, max_size=3).map(lambda l: '{' + ', '.join(l) + '}'))


literals = st.recursive(scalars, containers, max_leaves=6)
ident = st.sampled_from(['a', 'b', 'size', 'in_min', 'x1', '_k', 'name'])
NAMES = ['foo', 'Bar', '_baz', 'fn1', 'inner']
CODE = ['__import__("verif_canary").hit()', 'hit()', 'hit', '[x for x in (1, 2)]', 'lambda: 1', 'f"{hit()}"', '2 ** 3', '1 if True else 2', 'not True', '(1).real', '"a" % 3', '[1, 2][0]', '{**{}}', '[*(1, 2)]', '1 < 2', '*()', 'a.b', '3 + 4', '(y := 3)', '-"a"', '1 and 2']
REJECT = ['foo()()', 'foo().bar', 'foo().bar(1)', 'foo[0]', 'foo[0](1)', '1', '"foo"', 'foo bar', '', 'foo(', 'foo)', 'foo; fn1', 'lambda: 1', 'x = 3', 'foo(1', '(1, 2)', '[foo]', 'foo + fn1', 'import os', 'foo\nfn1', 'hit()()', 'verif_mod.foo().Bar', 'verif_mod.pkg().deep', '"abc".join', '(1).real', '[].append(1)', 'not foo', 'await foo', 'foo(*[1])', 'foo(**{"a": 1})', 'foo(**{})', 'foo(3, k=1, **{"a": 1})', 'foo(**hit())', 'foo(a for a in b)', 'foo(1)(2)', 'nothere', 'nothere(1)', 'verif_nomodule.foo', 'verif_mod.nothere(3)', 'verif_mod.hit().foo', 'foo(x=hit())', 'foo(hit())']


@st.composite
def parse_cases(draw):
  kind = draw(st.sampled_from(['ok'] * 6 + ['code', 'code', 'reject']))
  case = dict(kind=kind, module=draw(st.sampled_from(['object', 'string', 'namespace'])), name=draw(st.sampled_from(NAMES)), where=draw(st.sampled_from(['default', 'default', 'qualified', 'deep'])))
  if kind == 'reject':
    case['text'] = draw(st.sampled_from(REJECT))
    return case
  case['args'] = draw(st.lists(literals, max_size=4))
  case['kwargs'] = draw(st.lists(st.tuples(ident, literals), max_size=3, unique_by=lambda t: t[0]).map(lambda l: [list(t) for t in l]))
  case['bare'] = not case['args'] and not case['kwargs'] and draw(st.booleans())
  case['sp'] = draw(st.sampled_from(['', '', ' ', '\n ']))
  if kind == 'code':
    case['code'] = draw(st.sampled_from(CODE))
    case['spot'] = draw(st.sampled_from(['arg', 'kwarg', 'nested', 'dictval']))
  return case


def install():
  """A module with callables, and a canary that must never be called."""
  mod = types.ModuleType('verif_mod')
  pkg = types.ModuleType('verif_mod.pkg')
  canary = types.ModuleType('verif_canary')
  hits = []
  for m in (mod, pkg, canary):
    for n in NAMES:
      setattr(m, n, _make(m.__name__, n, hits))
    m.hit = _make(m.__name__, 'hit', hits)
  mod.pkg = pkg
  sys.modules.update({'verif_mod': mod, 'verif_mod.pkg': pkg, 'verif_canary': canary})
  return mod, pkg, hits


def _make(module, name, hits):
  def fn(*args, **kwargs):
    hits.append((module, name, args, kwargs))
    return None
  fn.__name__ = name
  return fn


def same(a, b):
  if type(a) is not type(b):
    return False
  if isinstance(a, (list, tuple)):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict):
    return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, float):
    return a == b and math.copysign(1, a) == math.copysign(1, b)
  return a == b


def run_parse(case, ctx):
  mod, pkg, hits = install()
  default = {'object': mod, 'string': 'verif_mod', 'namespace': types.SimpleNamespace(**{k: getattr(mod, k) for k in NAMES + ['hit']})}[case['module']]
  if case['kind'] == 'reject':
    try:
      out = utils.parse_call(case['text'], default)
    except Exception:  # pylint: disable=broad-except
      require(not hits, 'a rejected string was partly executed', text=case['text'])
      ctx.nontriv('reject', case['text'])
      return
    require(False, f'{case["text"]!r} was accepted', got=out)
  args, kwargs = list(case['args']), [tuple(t) for t in case['kwargs']]
  if case['kind'] == 'code':
    code = case['code']
    if case['spot'] == 'arg':
      args.append(code)
    elif case['spot'] == 'kwarg':
      kwargs.append(('zz', code))
    elif case['spot'] == 'nested':
      args.append('[1, (2, ' + code + ')]')
    else:
      kwargs.append(('zz', '{"k": ' + code + '}'))
  name = {'default': '', 'qualified': 'verif_mod.', 'deep': 'verif_mod.pkg.'}[case['where']] + case['name']
  sp = case['sp']
  text = name if case['bare'] and case['kind'] == 'ok' else name + '(' + sp + (',' + sp).join(args + [f'{k}{sp if sp != chr(10) + " " else ""}={v}' for k, v in kwargs]) + ')'
  if case['kind'] == 'code':
    try:
      out = utils.parse_call(text, default)
    except Exception:  # pylint: disable=broad-except
      require(not hits, 'code in an argument was executed', text=text)
      ctx.nontriv('code', case['code'], case['spot'])
      return
    require(not hits, 'code in an argument was executed', text=text)
    require(False, f'an argument that is no literal was accepted: {text!r}', got=out)
  fn, got_args, got_kwargs = utils.parse_call(text, default)
  want_fn = getattr(pkg if case['where'] == 'deep' else mod, case['name'])
  require(fn is want_fn, f'{text!r}: another object was found', got=fn, want=want_fn)
  # eval is the definition of a literal; the texts above hold literals only.
  want_args = tuple(eval(a, {'__builtins__': {}}) for a in args)  # pylint: disable=eval-used
  want_kwargs = {k: eval(v, {'__builtins__': {}}) for k, v in kwargs}  # pylint: disable=eval-used
  require(isinstance(got_args, tuple) and same(got_args, want_args), f'{text!r}: positional arguments', got=got_args, want=want_args)
  require(isinstance(got_kwargs, dict) and set(got_kwargs) == set(want_kwargs) and all(same(got_kwargs[k], want_kwargs[k]) for k in want_kwargs), f'{text!r}: keyword arguments', got=got_kwargs, want=want_kwargs)
  require(not hits, 'the callable was called')
  if args or kwargs:
    ctx.nontriv(text)


# ---------------------------------------------------------------------------
# safe_zip / safe_map.


@st.composite
def zip_cases(draw):
  n = draw(st.integers(1, 5))
  base = draw(st.integers(0, 6))
  lens = [base if draw(st.integers(0, 3)) else draw(st.integers(0, 6)) for _ in range(n)] if draw(st.booleans()) else [base] * n
  return dict(lens=lens, kinds=[draw(st.sampled_from(['list', 'tuple', 'iter', 'gen', 'dict', 'range', 'str', 'set1', 'getitem', 'ndarray', 'custom'])) for _ in range(n)], which=draw(st.sampled_from(['zip', 'zip', 'map'])), infinite=draw(st.booleans()), boom=draw(st.sampled_from([None, None, None, 0, 1, 3])))


class GetItem:
  def __init__(self, n):
    self.n = n

  def __getitem__(self, i):
    if i >= self.n:
      raise IndexError
    return ('g', i)


class Custom:
  """Counts how many elements have been asked for; falsy elements included."""

  def __init__(self, n, boom=None):
    self.n, self.i, self.calls, self.boom = n, 0, 0, boom

  def __iter__(self):
    return self

  def __next__(self):
    self.calls += 1
    if self.boom is not None and self.i == self.boom:
      raise KeyError('boom')
    if self.i >= self.n:
      raise StopIteration
    self.i += 1
    return None if self.i % 2 else 0


def make_iterable(kind, n):
  if kind == 'list':
    return [None] * n
  if kind == 'tuple':
    return tuple(range(n))
  if kind == 'iter':
    return iter([False] * n)
  if kind == 'gen':
    return (i * i for i in range(n))
  if kind == 'dict':
    return {i: 1 for i in range(n)}
  if kind == 'range':
    return range(n)
  if kind == 'str':
    return 'abcdefgh'[:n]
  if kind == 'set1':
    return frozenset(range(n))
  if kind == 'getitem':
    return GetItem(n)
  if kind == 'ndarray':
    return np.arange(n)
  return Custom(n)


def run_zip(case, ctx):
  lens, kinds = case['lens'], case['kinds']
  want = list(zip(*[list(make_iterable(k, n)) for k, n in zip(kinds, lens)]))
  its = [make_iterable(k, n) for k, n in zip(kinds, lens)]
  got, calls = [], []
  if case['which'] == 'map':
    def f(*a):
      calls.append(a)
      return ('r',) + a
    it = utils.safe_map(f, *its)
    require(not calls, 'safe_map is not lazy')
  else:
    it = utils.safe_zip(*its)
  err = None
  try:
    for x in it:
      got.append(x)
      if case['which'] == 'map':
        require(len(calls) == len(got), 'safe_map calls the function ahead of time')
      require(len(got) <= max(lens) + 1, 'too many elements')
  except Exception as e:  # pylint: disable=broad-except
    err = e
  exp = [('r',) + w for w in want] if case['which'] == 'map' else want
  require([tuple(g) for g in got] == exp, f'safe_{case["which"]}: wrong elements', got=got, want=exp)
  if len(set(lens)) > 1:
    require(isinstance(err, utils.SafeZipIteratorError), f'safe_{case["which"]}: iterables of different lengths accepted', lens=lens, kinds=kinds, error=err)
  else:
    require(err is None, f'safe_{case["which"]}: iterables of the same length rejected', lens=lens, error=err)
  # Infinite iterables can be consumed lazily, and errors of an iterator are not hidden.
  if case['infinite']:
    c = Custom(10**9)
    z = utils.safe_zip(itertools.count(), c)
    first = [next(z) for _ in range(4)]
    require([f[0] for f in first] == [0, 1, 2, 3] and c.calls == 4, 'safe_zip consumes ahead', calls=c.calls)
  if case['boom'] is not None:
    c = Custom(9, boom=case['boom'])
    try:
      out = list(utils.safe_zip(c, range(9)))
    except KeyError:
      pass
    else:
      require(False, 'an error of an iterator was swallowed', got=out)
  if len(lens) > 1:
    ctx.nontriv(case['which'], *lens)


# ---------------------------------------------------------------------------
# rngs.


@st.composite
def rng_cases(draw):
  names = draw(st.lists(st.sampled_from(['params', 'dropout', 'gating', 'mixup', 'a', 'b', 'c', 'd']), max_size=6, unique=True))
  return dict(names=names, seed=draw(seeds), seed2=draw(st.one_of(seeds, st.integers(1, 2**15).map(lambda v: ['+', v]), st.sampled_from([8, 12, 16, 20, 24]).map(lambda v: ['^', 1 << v]))), splits=draw(st.integers(1, 6)), nested=draw(st.booleans()), typed=draw(st.booleans()), default=draw(st.booleans()))


def key_bytes(k):
  return np.asarray(jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k).tobytes()


def run_rng(case, ctx):
  names = tuple(case['names'])
  a, b = utils.make_rngs(names, case['seed']), utils.make_rngs(names, case['seed'])
  require(sorted(a) == sorted(names), 'make_rngs: names', got=sorted(a))
  require(all(key_bytes(a[n]) == key_bytes(b[n]) for n in names), 'make_rngs is not deterministic')
  require(len({key_bytes(a[n]) for n in names}) == len(names), 'make_rngs: two names share a key')
  seed2 = case['seed2'] if not isinstance(case['seed2'], list) else case['seed'] + case['seed2'][1] if case['seed2'][0] == '+' else case['seed'] ^ case['seed2'][1]
  if case['seed'] != seed2:
    c = utils.make_rngs(names, seed2)
    require(not {key_bytes(v) for v in a.values()} & {key_bytes(v) for v in c.values()}, 'make_rngs: keys of different seeds coincide')
  tree = dict(a)
  if case['typed']:
    tree = {k: jax.random.wrap_key_data(v) for k, v in a.items()}
  if case['nested']:
    tree = {'x': tree, 'y': (jax.random.PRNGKey(case['seed'] ^ 0x5bd1e995),)}
  n = 2 if case['default'] else case['splits']
  outs = utils.tree_rngs_split(tree) if case['default'] else utils.tree_rngs_split(tree, n)
  require(isinstance(outs, tuple) and len(outs) == n, 'tree_rngs_split: number of trees', got=len(outs), want=n)
  outs2 = utils.tree_rngs_split(tree, n)
  leaves0 = jax.tree_util.tree_leaves(tree)
  seen = [key_bytes(v) for v in leaves0]
  for o, o2 in zip(outs, outs2):
    require(jax.tree_util.tree_structure(o) == jax.tree_util.tree_structure(tree), 'tree_rngs_split: structure changed')
    l, l2 = jax.tree_util.tree_leaves(o), jax.tree_util.tree_leaves(o2)
    require([key_bytes(x) for x in l] == [key_bytes(x) for x in l2], 'tree_rngs_split is not deterministic')
    require(all(x.shape == y.shape and x.dtype == y.dtype for x, y in zip(l, leaves0)), 'tree_rngs_split: not single keys')
    seen += [key_bytes(x) for x in l]
  require(len(set(seen)) == len(seen), 'tree_rngs_split: a key is used twice', n=len(seen), distinct=len(set(seen)))
  # Keys are usable and give different streams.
  if leaves0:
    draws = {tuple(np.asarray(jax.random.bits(x, (4,))).tolist()) for o in outs for x in jax.tree_util.tree_leaves(o)}
    require(len(draws) == n * len(leaves0), 'streams coincide')
  if len(leaves0) > 1 and n > 1:
    ctx.nontriv(len(leaves0), n, case['typed'], case['nested'])


# ---------------------------------------------------------------------------
# multiply_no_nan.


@st.composite
def mul_cases(draw):
  shape = draw(st.lists(st.integers(1, 4), max_size=3))
  n = int(np.prod(shape))
  special = st.sampled_from(['nan', 'inf', '-inf', '0', '-0', '1', '-2.5', '1e-3', '3e20', '7'])
  xs = draw(st.lists(st.sampled_from(['0', '0', '-0', '1', '2', '-0.5', '3']), min_size=n, max_size=n))
  return dict(shape=shape, x=xs, y=draw(st.lists(special, min_size=n, max_size=n)), jit=draw(st.booleans()), dtype=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])))


def run_mul(case, ctx):
  x = jnp.asarray(np.array([float(v) for v in case['x']]).reshape(case['shape']), case['dtype'])
  y = jnp.asarray(np.array([float(v) for v in case['y']]).reshape(case['shape']), case['dtype'])
  fn = jax.jit(utils.multiply_no_nan) if case['jit'] else utils.multiply_no_nan
  got = np.asarray(fn(x, y)).astype(np.float64)
  xn, yn = np.asarray(x).astype(np.float64), np.asarray(y).astype(np.float64)
  with np.errstate(all='ignore'):
    want = np.where(xn == 0, 0.0, xn * yn)
  npu.close(got, want, 'multiply_no_nan', 1e-2 if case['dtype'] == 'bfloat16' else 1e-6, 0)
  require(fn(x, y).dtype == x.dtype, 'multiply_no_nan: dtype')
  gx, gy = jax.grad(lambda a, b: utils.multiply_no_nan(a, b).astype(jnp.float32).sum(), argnums=(0, 1))(x, y)
  gx, gy = np.asarray(gx).astype(np.float64), np.asarray(gy).astype(np.float64)
  zero = xn == 0
  require(np.all(gx[zero] == 0) and np.all(gy[zero] == 0), 'multiply_no_nan: gradient where the multiplier is zero', gx=gx[zero], gy=gy[zero])
  npu.close(gx[~zero], yn[~zero], 'multiply_no_nan: gradient of x', 1e-2 if case['dtype'] == 'bfloat16' else 1e-6, 0)
  npu.close(gy[~zero], xn[~zero], 'multiply_no_nan: gradient of y', 1e-2 if case['dtype'] == 'bfloat16' else 1e-6, 0)
  if np.any(zero & ~np.isfinite(yn)):
    ctx.nontriv(tuple(case['x'][:4]), tuple(case['y'][:4]))


# ---------------------------------------------------------------------------
# Regex lists, partial classes, cost analysis.

ATOMS = ['a', 'b', 'ab', '^a', 'b$', 'a|c', '(a)b', r'(a)\1', '(?P<n>b)', '(?P<n>c)', '(?i)A', '[ab]c', 'a.c', 'x*', 'Moe/.*/bias', r'\d+', '(a|b)c$', '(?!a)b', r'\.', '']


@st.composite
def misc_cases(draw):
  kind = draw(st.sampled_from(['regex', 'regex', 'regex', 'partial', 'cost']))
  if kind == 'regex':
    return dict(kind=kind, regexes=draw(st.one_of(st.lists(st.sampled_from(ATOMS), max_size=4), st.sampled_from(ATOMS), st.none())), strings=draw(st.lists(st.text(alphabet='abcA/x1.', max_size=8), min_size=1, max_size=8)) + ['Moe/Mlp/bias', 'aa', ''])
  if kind == 'partial':
    return dict(kind=kind, base=draw(st.lists(st.integers(0, 9), max_size=3)), args=draw(st.lists(st.integers(10, 19), max_size=2)), bkw=draw(st.dictionaries(ident, st.integers(20, 29), max_size=3)), kw=draw(st.dictionaries(ident, st.integers(30, 39), max_size=3)), twice=draw(st.booleans()))
  return dict(kind=kind, cost=draw(st.dictionaries(st.sampled_from(['flops', 'optimal_seconds', 'other']), st.sampled_from([-1.0, 0.0, 1.0, 12.5, -0.5]), max_size=3)))


class Base:
  def __init__(self, *args, **kwargs):
    self.args, self.kwargs = args, kwargs

  def method(self):
    return self.args


class Compiled:
  def __init__(self, cost):
    self.cost = cost

  def cost_analysis(self):
    return dict(self.cost)


def run_misc(case, ctx):
  if case['kind'] == 'regex':
    regexes = case['regexes']
    fn = utils.make_match_fn_from_regex_list(regexes)
    lst = [regexes] if isinstance(regexes, str) and regexes else (regexes or [])
    if not lst:
      require(fn is None, 'no regexes should give no function')
      return
    for s in case['strings']:
      want = any(re.search(r, s) for r in lst)
      got = fn(s)
      require(got is want, f'match function of {lst}: wrong answer for {s!r}', got=got, want=want)
    ctx.more(len(case['strings']) - 1)
    if len(lst) > 1:
      ctx.nontriv(*lst)
  elif case['kind'] == 'partial':
    cls = utils.partialclass(Base, *case['base'], **case['bkw'])
    if case['twice']:
      cls = utils.partialclass(cls, 99, zz=98)
    for _ in range(2):
      o = cls(*case['args'], **case['kw'])
      mid = (99,) if case['twice'] else ()
      require(isinstance(cls, type) and issubclass(cls, Base) and isinstance(o, Base), 'partialclass: not a subclass')
      require(o.args == tuple(case['base']) + mid + tuple(case['args']) == o.method(), 'partialclass: positional arguments', got=o.args)
      require(o.kwargs == {**case['bkw'], **({'zz': 98} if case['twice'] else {}), **case['kw']}, 'partialclass: keyword arguments', got=o.kwargs)
    o = cls()
    require(o.kwargs == {**case['bkw'], **({'zz': 98} if case['twice'] else {})}, 'partialclass: keywords of one instance leaked into another', got=o.kwargs)
    if case['bkw'] and case['kw']:
      ctx.nontriv('partial', len(case['base']), len(case['args']), tuple(sorted(case['bkw'])), tuple(sorted(case['kw'])))
  else:
    got = utils.get_flops_and_seconds_per_device(Compiled(case['cost']))
    want = tuple(v if v is not None and v > 0 else None for v in (case['cost'].get('flops'), case['cost'].get('optimal_seconds')))
    require(tuple(got) == want, 'get_flops_and_seconds_per_device', got=got, want=want)


SUBS = [
    Sub('parse', parse_cases(), run_parse, quick=2800, thorough=60000),
    Sub('zip', zip_cases(), run_zip, quick=1400, thorough=30000),
    Sub('rngs', rng_cases(), run_rng, quick=140, thorough=2500),
    Sub('multiply', mul_cases(), run_mul, quick=140, thorough=2500),
    Sub('misc', misc_cases(), run_misc, quick=1000, thorough=20000),
]
