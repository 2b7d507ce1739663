"""C26: summaries of trees of arrays."""
import itertools
import re

import flax.core
import flax.struct
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.train import tree_summarizer
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 1800}
OPS = ['norm', 'mean', 'std', 'sum', 'min', 'max']
KEYS = ['a', 'b', 'kernel', 'bias', 'Moe', 'Mlp', 'block_1', 'block_10', '0']


@flax.struct.dataclass
class State:
  params: object
  opt: object


@st.composite
def leaf(draw):
  return dict(shape=draw(st.lists(st.sampled_from([1, 2, 3, 4]), max_size=4)), seed=draw(st.integers(0, 10**6)), shift=draw(st.sampled_from([0, 0, 1000.0, -300.0])), dtype=draw(st.sampled_from(['float32', 'float32', 'int32'])))


trees = st.recursive(
    leaf().map(lambda l: {'leaf': l}),
    lambda c: st.one_of(
        st.dictionaries(st.sampled_from(KEYS), c, min_size=1, max_size=3).map(lambda d: {'dict': d}),
        st.lists(c, min_size=1, max_size=2).map(lambda l: {'list': l})),
    max_leaves=6)


@st.composite
def cases(draw):
  tree = {'dict': draw(st.dictionaries(st.sampled_from(KEYS), trees, min_size=1, max_size=4))}
  rules = []
  for _ in range(draw(st.integers(1, 4))):
    pat = draw(st.sampled_from(['.*', 'kernel', 'bias$', '^a', 'Moe/', r'block_\d+', r'block_1/', '(a|b)', 'nomatch', '/', '0', '']))
    tr = []
    for _ in range(draw(st.integers(0, 3))):
      op = draw(st.sampled_from(OPS))
      how = draw(st.sampled_from(['plain', 'int', 'axes', 'last']))
      if how == 'plain':
        tr.append(op)
      elif how == 'int':
        tr.append([op, draw(st.integers(0, 1))])
      elif how == 'last':
        tr.append([op, -1])
      else:
        tr.append([op, draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))])
    if draw(st.integers(0, 25)) == 0:
      tr.append(draw(st.sampled_from(['median', ['prod', 0], 'NORM'])))
    rules.append(dict(pattern=pat, tr=tr, form=draw(st.sampled_from(['str', 'compiled', 'tuple']))))
  return dict(tree=tree, rules=rules, max=draw(st.sampled_from([1, 1, 2, 4, 16, 64, 1000, None])), box=draw(st.sampled_from(['dict', 'frozen', 'struct'])), jit=draw(st.integers(0, 5)) == 0, numpy=draw(st.booleans()))


def build(node, path, flat):
  if 'leaf' in node:
    l = node['leaf']
    rng = np.random.default_rng(l['seed'])
    x = rng.integers(-9, 10, size=l['shape']).astype(np.int32) if l['dtype'] == 'int32' else (rng.normal(size=l['shape']) * (5 if not l.get('shift') else 0.5) + l.get('shift', 0)).astype(np.float32)
    x = np.asarray(x)
    flat['/'.join(path)] = x
    return x
  if 'dict' in node:
    return {k: build(v, path + [k], flat) for k, v in node['dict'].items()}
  return [build(v, path + [str(i)], flat) for i, v in enumerate(node['list'])]


def ref_op(op, x, axes):
  x = x.astype(np.float64)
  ax = None if axes is None else tuple(axes)
  if op == 'norm':
    return np.sqrt((x * x).sum(axis=ax, keepdims=True))
  return {'mean': np.mean, 'std': np.std, 'sum': np.sum, 'min': np.min, 'max': np.max}[op](x, axis=ax, keepdims=True)


class Bad(Exception):
  pass


def reference(flat, rules, limit):
  out = []
  for key, x in flat.items():
    for r in rules:
      if not re.search(r['pattern'], key):
        continue
      name, y = key, x.astype(np.float64)
      for t in r['tr']:
        op, axes = (t, None) if isinstance(t, str) else (t[0], [t[1]] if isinstance(t[1], int) else t[1])
        if op not in OPS:
          raise Bad(op)
        try:
          y = ref_op(op, y, axes)
        except np.exceptions.AxisError as e:
          raise Bad(str(e)) from e
        except ValueError as e:
          raise Bad(str(e)) from e
        name += '_' + op + ('' if axes is None else repr(tuple(axes)))
      if y.size > limit:
        raise Bad('too many')
      for idx in itertools.product(*[range(s) for s in y.shape]):
        shown = [str(i) for i, s in zip(idx, y.shape) if s > 1]
        out.append((name + ('[' + ','.join(shown) + ']' if shown else ''), float(y[idx])))
  return out


def run(case, ctx):
  flat = {}
  tree = build(case['tree'], [], flat)
  if case['box'] == 'struct':
    flat = {('params/' + k): v for k, v in flat.items()}
    flat['opt/0'] = np.float32(3.5).reshape(())
  copies = {k: v.copy() for k, v in flat.items()}
  conv = (lambda v: v) if case['numpy'] else jnp.asarray
  tree = jax.tree_util.tree_map(conv, tree)
  if case['box'] == 'frozen':
    tree = flax.core.freeze(tree)
  elif case['box'] == 'struct':
    tree = State(params=tree, opt=(conv(flat['opt/0']),))
  rules = []
  for r in case['rules']:
    tr = [t if isinstance(t, str) else (t[0], t[1] if isinstance(t[1], int) else tuple(t[1])) for t in r['tr']]
    pat = re.compile(r['pattern']) if r['form'] == 'compiled' else r['pattern']
    rules.append(pat if not tr and r['form'] != 'tuple' else (pat, *tr))
  limit = 1 if case['max'] is None else case['max']
  try:
    want = reference(flat, case['rules'], limit)
  except Bad as e:
    want = None
    why = str(e)
  def call():
    s = tree_summarizer.TreeSummarizer(rules) if case['max'] is None else tree_summarizer.TreeSummarizer(rules, max_summary_values=case['max'])
    if case['jit']:
      names = []
      def f(t):
        items = list(s(t))
        names.extend(n for n, _ in items)
        return [v for _, v in items]
      vals = jax.jit(f)(tree)
      return list(zip(names, vals))
    first = list(s(tree))
    again = list(s(tree))
    require([n for n, _ in first] == [n for n, _ in again], 'a second use of the summarizer differs')
    return first
  if want is None:
    try:
      got = call()
    except Exception as e:  # pylint: disable=broad-except
      ctx.nontriv('rejected', why[:12])
      return
    require(False, f'should have been rejected: {why}', got=[n for n, _ in got][:10])
  got = call()
  require(sorted(n for n, _ in got) == sorted(n for n, _ in want), 'names of the summaries', got=sorted(n for n, _ in got)[:20], want=sorted(n for n, _ in want)[:20])
  def tol_of(n):
    big = max((float(np.abs(v).max()) * (v.size if '_sum' in n or '_norm' in n else 1) for k, v in flat.items() if n.startswith(k)), default=0.0)
    return 1e-3 + 2e-6 * big
  # The same name may appear for several rules: compare as multisets.
  gs, ws = {}, {}
  for n, v in got:
    npu.same_shape(v, (), f'summary {n}')
    gs.setdefault(n, []).append(float(v))
  for n, v in want:
    ws.setdefault(n, []).append(v)
  for n in ws:
    npu.close(np.sort(gs[n]), np.sort(ws[n]), f'summary {n}', 1e-4, tol_of(n))
  for k, v in copies.items():
    npu.exact(flat[k], v, f'leaf {k} was modified')
  if any(r['tr'] for r in case['rules']) and want:
    ctx.nontriv(len(want), *[str(r['tr'])[:40] for r in case['rules']])


SUBS = [Sub('summaries', cases(), run, quick=1400, thorough=20000)]
