"""C13: partition rules."""
import re

import flax.core
import flax.struct
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from vmoe import partitioning
from vlib.core import Sub, require, seeds, HarnessError

TIME_GUARD = {'quick': 420, 'thorough': 2400}
KEYS = ['a', 'kernel', 'moe', 'moe2', 'Dense_0', 'bias']
P = jax.sharding.PartitionSpec


@flax.struct.dataclass
class State:
  step: object
  params: object
  tag: str = flax.struct.field(pytree_node=False, default='t')


@st.composite
def leaves(draw):
  return dict(t='leaf', shape=draw(st.sampled_from([[], [1], [2], [4], [2, 3], [1, 1], [0], [0, 4], [1, 1, 2], [8, 2]])), kind=draw(st.sampled_from(['np', 'sds', 'jnp'])))


def trees():
  return st.recursive(leaves(), lambda c: st.one_of(
      st.builds(lambda d: dict(t='dict', c=d), st.dictionaries(st.sampled_from(KEYS), c, max_size=4)),
      st.builds(lambda d: dict(t='dict', c=d), st.dictionaries(st.sampled_from(KEYS), c, max_size=4)),
      st.builds(lambda d: dict(t='frozen', c=d), st.dictionaries(st.sampled_from(KEYS), c, min_size=1, max_size=3)),
      st.builds(lambda l: dict(t='list', c=l), st.lists(c, min_size=1, max_size=3)),
      st.builds(lambda l: dict(t='tuple', c=l), st.lists(c, min_size=1, max_size=3)),
      st.builds(lambda a, b: dict(t='state', c=[a, b]), leaves(), c)), max_leaves=8)


SPECS = [None, [], 'expert', 'replica', ['expert'], ['expert', 'replica'], [None, 'expert'], [['expert', 'replica']], [None, ['expert', 'replica'], None], [[], 'expert'], ['replica', None, 'expert']]


@st.composite
def patterns(draw):
  k = st.sampled_from(KEYS)
  kind = draw(st.sampled_from(['key', 'suffix', 'prefix', 'full', 'all', 'alt', 'mid', 'digit', 'exact']))
  a, b = draw(k), draw(k)
  rx = {'key': a, 'suffix': f'{a}$', 'prefix': f'^{a}/', 'full': f'^.*{a}/.*$', 'all': '.*', 'alt': f'({a}|{b})', 'mid': f'/{a}/', 'digit': r'Dense_\d', 'exact': f'^{a}/{b}$'}[kind]
  return [rx, draw(st.sampled_from(SPECS)), draw(st.sampled_from(['tuple', 'list', 'P', 'raw']))]


def notation(spec, how):
  """The same spec in the various accepted notations, and what it means."""
  tup = lambda s: tuple(tuple(x) if isinstance(x, list) else x for x in s)
  if spec is None:
    return {'tuple': (), 'list': [], 'P': P(), 'raw': None}[how], P()
  if isinstance(spec, str):
    return {'tuple': (spec,), 'list': [spec], 'P': P(spec), 'raw': spec}[how], P(spec)
  return {'tuple': tup(spec), 'list': list(tup(spec)), 'P': P(*tup(spec)), 'raw': tup(spec)}[how], P(*tup(spec))


def build(spec):
  t = spec['t']
  if t == 'leaf':
    s = tuple(spec['shape'])
    return {'np': lambda: np.zeros(s, np.float32), 'sds': lambda: jax.ShapeDtypeStruct(s, jnp.float32), 'jnp': lambda: jnp.zeros(s)}[spec['kind']]()
  if t == 'dict':
    return {k: build(v) for k, v in spec['c'].items()}
  if t == 'frozen':
    return flax.core.freeze({k: build(v) for k, v in spec['c'].items()})
  if t == 'list':
    return [build(v) for v in spec['c']]
  if t == 'tuple':
    return tuple(build(v) for v in spec['c'])
  if t == 'state':
    return State(*[build(v) for v in spec['c']], tag='q')
  raise HarnessError(t)


def reference(spec, rules, path, ctx):
  t = spec['t']
  if t == 'leaf':
    key = '/'.join(path)
    if int(np.prod(spec['shape'])) <= 1:
      return P()
    hits = [want for rx, want in rules if re.search(rx, key)]
    if len(set(map(str, hits))) > 1:
      ctx.nontriv(key)
    return hits[0] if hits else P()
  if t in ('dict', 'frozen'):
    out = {k: reference(v, rules, path + [k], ctx) for k, v in spec['c'].items()}
    return flax.core.freeze(out) if t == 'frozen' else out
  if t == 'state':
    return State(reference(spec['c'][0], rules, path + ['step'], ctx), reference(spec['c'][1], rules, path + ['params'], ctx), tag='q')
  seq = [reference(v, rules, path + [str(i)], ctx) for i, v in enumerate(spec['c'])]
  return seq if t == 'list' else tuple(seq)


def reversed_keys(spec):
  if spec['t'] == 'leaf':
    return spec
  if isinstance(spec['c'], dict):
    return dict(spec, c={k: reversed_keys(v) for k, v in reversed(list(spec['c'].items()))})
  return dict(spec, c=[reversed_keys(v) for v in spec['c']])


@st.composite
def cases(draw):
  t = draw(trees())
  if t['t'] == 'leaf':
    t = dict(t='dict', c={'a': t})
  return dict(tree=t, rules=draw(st.lists(patterns(), max_size=4)))


is_spec = lambda x: isinstance(x, P)


def run(case, ctx):
  rules, given = [], []
  for rx, spec, how in case['rules']:
    nt, want = notation(spec, how)
    got = partitioning.parse_partition_spec(nt)
    require(isinstance(got, P) and got == want and tuple(got) == tuple(want), 'parsed partition spec', given=nt, got=got, want=want)
    rules.append((rx, want))
    given.append((rx, nt))
  want = reference(case['tree'], rules, [], ctx)
  for spec in (case['tree'], reversed_keys(case['tree'])):
    tree = build(spec)
    got = partitioning.tree_axis_resources_from_regexes(tree=tree, axis_resources_regexes=given)
    gs, ws = (jax.tree_util.tree_structure(x, is_leaf=is_spec) for x in (got, want))
    require(gs == ws, 'structure of the result', got=gs, want=ws)
    for (path, g), w in zip(jax.tree_util.tree_leaves_with_path(got, is_leaf=is_spec), jax.tree_util.tree_leaves(want, is_leaf=is_spec)):
      require(isinstance(g, P) and g == w, 'partition spec of a leaf', path=jax.tree_util.keystr(path), got=g, want=w, rules=rules)


@st.composite
def wsc_cases(draw):
  return dict(shape=[8, 4, 2][:draw(st.integers(1, 3))], mesh=draw(st.sampled_from([[8, 1], [4, 2], [2, 4], None])), spec=draw(st.sampled_from([None, [], ['expert'], ['expert', 'replica'], [None, 'replica'], [['expert', 'replica']], [['replica', 'expert']]])),
              jit=draw(st.booleans()), seed=draw(seeds), tree=draw(st.booleans()))


def run_wsc(case, ctx):
  x = np.random.default_rng(case['seed']).normal(size=case['shape']).astype(np.float32)
  spec = None if case['spec'] is None else P(*[tuple(s) if isinstance(s, list) else s for s in case['spec']][:len(case['shape'])])
  if case['mesh']:
    ms = dict(zip(('expert', 'replica'), case['mesh']))
    for size, s in zip(case['shape'], spec or ()):
      if s is not None and size % int(np.prod([ms[a] for a in ((s,) if isinstance(s, str) else s)])):
        return
  arg = {'u': x, 'v': x + 1} if case['tree'] else x
  f = lambda a: partitioning.with_sharding_constraint(a, spec)
  if case['mesh'] is None:
    got = jax.jit(f)(arg) if case['jit'] else f(arg)
  else:
    mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(case['mesh']), ('expert', 'replica'))
    with mesh:
      got = jax.jit(f)(arg)
    if spec is not None:
      for g in jax.tree_util.tree_leaves(got):
        require(g.sharding.is_equivalent_to(jax.sharding.NamedSharding(mesh, spec), g.ndim), 'sharding of the constrained array', got=g.sharding, want=spec)
      ctx.nontriv()
  require(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(arg), 'structure of the constrained tree')
  for g, w in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(arg)):
    require(np.array_equal(np.asarray(g), w), 'constraining the sharding changed values')


SUBS = [
    Sub('rules', cases(), run, quick=2000, thorough=40000),
    Sub('constraint', wsc_cases(), run_wsc, quick=60, thorough=600),
]
