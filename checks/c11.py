"""C11: checkpoint serialization and slice types."""
import contextlib
from unittest import mock

import flax.serialization
import flax.struct
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from vmoe.checkpoints import serialization
from vmoe.checkpoints import types
from vlib.core import Sub, require, seeds, HarnessError

TIME_GUARD = {'quick': 420, 'thorough': 2400}
DTYPES = ['float32', 'float64', 'float16', 'bfloat16', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool', 'complex64', 'complex128', 'float8_e4m3fn', 'int4']
JDTYPES = ['float32', 'float16', 'bfloat16', 'int8', 'int32', 'uint8', 'uint32', 'bool', 'complex64']
opt_int = st.one_of(st.none(), st.integers(0, 40), st.sampled_from([2**31, 2**40, -1, -7]))
shapes = st.lists(st.integers(0, 4), max_size=4)


def np_dtype(name):
  return np.dtype(getattr(ml_dtypes, name)) if hasattr(ml_dtypes, name) else np.dtype(name)


@st.composite
def arrays(draw):
  t = draw(st.sampled_from(['np', 'np', 'jax', 'scalar']))
  return dict(t=t, dtype=draw(st.sampled_from(JDTYPES if t == 'jax' else DTYPES)), shape=[] if t == 'scalar' else draw(shapes), seed=draw(seeds), order=draw(st.sampled_from('CFT')))


slices = st.builds(lambda a: dict(t='slice', v=a), st.lists(opt_int, min_size=3, max_size=3))
slicends = st.builds(lambda a: dict(t='slicend', v=a), st.lists(st.lists(opt_int, min_size=3, max_size=3), max_size=4))


@st.composite
def slicendarrays(draw):
  shape = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
  n = int(np.prod(shape))
  k = draw(st.integers(0, 2))
  return dict(t='slicendarray', shape=shape, v=draw(st.lists(st.lists(st.lists(opt_int, min_size=3, max_size=3), min_size=k, max_size=k), min_size=n, max_size=n)))


shaped = st.builds(lambda s, d, w: dict(t='shaped', shape=s, dtype=d, weak=w), st.lists(st.integers(0, 2**33), max_size=4), st.sampled_from(JDTYPES), st.booleans())


@st.composite
def infos(draw):
  n = draw(st.integers(0, 4))
  return dict(t='info', shaped=draw(shaped), slices=[draw(slicends) for _ in range(n)], shards=draw(st.lists(st.integers(0, 5000), min_size=n, max_size=n)))


scalars = st.one_of(
    st.builds(lambda v: dict(t='py', v=v), st.one_of(st.none(), st.booleans(), st.integers(-2**63, 2**64 - 1), st.floats(allow_nan=False), st.text(max_size=20))),
    st.builds(lambda v: dict(t='bytes', v=v), st.lists(st.integers(0, 255), max_size=20)),
    st.builds(lambda a, b: dict(t='complex', v=[a, b]), st.floats(-1e300, 1e300), st.floats(-1e300, 1e300)))
lazies = st.deferred(lambda: lazy())


@st.composite
def lazy(draw):
  """LazyArrayChunks: for some ids, a few chunks of an array."""
  out = []
  for i in draw(st.lists(st.sampled_from([0, 1, 2, 7, 10, 123]), unique=True, min_size=0, max_size=3)):
    ndim = draw(st.integers(0, 3))
    shape = [draw(st.integers(1, 5)) for _ in range(ndim)]
    offs = [draw(st.integers(0, 6)) for _ in range(ndim)]
    chunks = []
    for _ in range(draw(st.integers(1, 3))):
      lo = [draw(st.integers(0, s - 1)) for s in shape]
      hi = [draw(st.integers(l, s)) for l, s in zip(lo, shape)]
      chunks.append([lo, hi])
    out.append(dict(id=i, shape=shape, offs=offs, chunks=chunks, dtype=draw(st.sampled_from(DTYPES)), order=draw(st.sampled_from(['C', 'C', 'F', 'T'])), seed=draw(seeds)))
  return dict(t='lazy', v=out)


def trees():
  leaf = st.one_of(scalars, arrays(), arrays(), slices, slicends, slicendarrays(), shaped, infos(), lazy())
  return st.recursive(leaf, lambda c: st.one_of(
      st.builds(lambda d: dict(t='dict', v=d), st.dictionaries(st.text(max_size=6), c, max_size=5)),
      st.builds(lambda l: dict(t='list', v=l), st.lists(c, max_size=4))), max_leaves=10)


def make_array(spec):
  rng = np.random.default_rng(spec['seed'])
  dt = np_dtype(spec['dtype'])
  shape = list(spec['shape'])
  if dt == np.bool_:
    a = rng.integers(0, 2, size=shape).astype(bool)
  elif spec['dtype'] == 'int4':
    a = rng.integers(-8, 8, size=shape).astype(dt)
  else:
    n = int(np.prod(shape))
    a = np.frombuffer(rng.bytes(n * dt.itemsize), dtype=dt).reshape(shape).copy()
    if dt.kind in 'fcV':
      with np.errstate(all='ignore'):
        a[~np.isfinite(a.astype(np.complex128))] = np.asarray(2.5, dt)
  order = spec.get('order', 'C')
  if order == 'F' and a.ndim >= 2:
    a = np.asfortranarray(a)
  elif order == 'T' and a.ndim >= 2:
    a = np.ascontiguousarray(a.T).T[..., ::-1][..., ::-1]
  return a


def build(spec):
  t = spec['t']
  if t == 'py':
    return spec['v']
  if t == 'bytes':
    return bytes(spec['v'])
  if t == 'complex':
    return complex(*spec['v'])
  if t == 'dict':
    return {k: build(v) for k, v in spec['v'].items()}
  if t == 'list':
    return [build(v) for v in spec['v']]
  if t == 'np':
    return make_array(spec)
  if t == 'jax':
    return jnp.asarray(make_array(spec))
  if t == 'scalar':
    return make_array(spec)[()]
  if t == 'slice':
    return types.Slice(*spec['v'])
  if t == 'slicend':
    return types.SliceNd([types.Slice(*s) for s in spec['v']])
  if t == 'slicendarray':
    return types.SliceNdArray.create([types.SliceNd([types.Slice(*s) for s in nd]) for nd in spec['v']], shape=tuple(spec['shape']))
  if t == 'shaped':
    return jax.core.ShapedArray(shape=tuple(spec['shape']), dtype=np_dtype(spec['dtype']), weak_type=spec['weak'])
  if t == 'info':
    return types.IndexInfo(global_shape=build(spec['shaped']), global_slices=[build(s) for s in spec['slices']], shards=list(spec['shards']))
  if t == 'lazy':
    out = types.LazyArrayChunks()
    for e in spec['v']:
      a = make_array(e)
      for lo, hi in e['chunks']:
        out.add(e['id'], a, types.SliceNd([types.Slice(l, h) for l, h in zip(lo, hi)]), types.SliceNd([types.Slice(l + o, h + o) for l, h, o in zip(lo, hi, e['offs'])]))
    return out
  raise HarnessError(t)


def same(got, spec, path=''):
  t = spec['t']
  want = build(spec)
  w = f'round trip of {t} at {path!r}'
  if t in ('py', 'bytes', 'complex'):
    require(type(got) is type(want) and got == want and repr(got) == repr(want), w, got=got, want=want)
  elif t == 'dict':
    require(type(got) is dict and set(got) == set(want), f'{w}: keys', got=got, want=sorted(want))
    for k, v in spec['v'].items():
      same(got[k], v, f'{path}/{k}')
  elif t == 'list':
    require(isinstance(got, list) and len(got) == len(want), f'{w}: length', got=got)
    for i, v in enumerate(spec['v']):
      same(got[i], v, f'{path}/{i}')
  elif t in ('np', 'jax'):
    require(isinstance(got, np.ndarray), f'{w}: type', got=type(got))
    same_array(got, np.asarray(want), w)
  elif t == 'scalar':
    # (A numpy complex128 is a Python complex, and may come back as such.)
    require(isinstance(got, np.generic) or (type(got) is complex and isinstance(want, complex)), f'{w}: type', got=type(got))
    same_array(np.asarray(got), np.asarray(want), w)
  elif t == 'slice':
    require(type(got) is types.Slice and got.tuple == tuple(spec['v']), w, got=got, want=spec['v'])
    require(got == want and hash(got) == hash(want), f'{w}: equality and hash')
  elif t == 'slicend':
    same_slicend(got, spec['v'], w)
  elif t == 'slicendarray':
    require(isinstance(got, types.SliceNdArray) and got.shape == tuple(spec['shape']), f'{w}: type and shape', got=got)
    for g, v in zip(got.ravel(), spec['v']):
      same_slicend(g, v, w)
  elif t == 'shaped':
    same_shaped(got, spec, w)
  elif t == 'info':
    require(isinstance(got, types.IndexInfo), f'{w}: type', got=type(got))
    same_shaped(got.global_shape, spec['shaped'], w)
    require(len(got.global_slices) == len(spec['slices']), f'{w}: slices')
    for g, v in zip(got.global_slices, spec['slices']):
      same_slicend(g, v['v'], w)
    require(list(got.shards) == spec['shards'], f'{w}: shards', got=got.shards, want=spec['shards'])
  elif t == 'lazy':
    require(isinstance(got, types.ArrayChunks), f'{w}: type', got=type(got))
    require(set(got.chunks) == {e['id'] for e in spec['v']} == set(got.global_slices), f'{w}: ids', got=sorted(got.chunks))
    for e in spec['v']:
      a = make_array(e)
      chunks = list(got.iter_chunks(e['id']))
      require(got.has_index(e['id']) and len(chunks) == len(e['chunks']), f'{w}: number of chunks')
      for (c, sl), (lo, hi) in zip(chunks, e['chunks']):
        same_array(c, a[tuple(slice(l, h) for l, h in zip(lo, hi))], w)
        same_slicend(sl, [[l + o, h + o, None] for l, h, o in zip(lo, hi, e['offs'])], w)


def same_array(got, want, w):
  require(got.shape == want.shape, f'{w}: shape', got=got.shape, want=want.shape)
  require(got.dtype == want.dtype, f'{w}: dtype', got=got.dtype, want=want.dtype)
  require(np.ascontiguousarray(got).tobytes() == np.ascontiguousarray(want).tobytes(), f'{w}: content', got=got, want=want)


def same_slicend(got, spec, w):
  require(isinstance(got, types.SliceNd) and [s.tuple for s in got] == [tuple(s) for s in spec], w, got=got, want=spec)


def same_shaped(got, spec, w):
  require(isinstance(got, jax.core.ShapedArray), f'{w}: type', got=type(got))
  require(tuple(got.shape) == tuple(spec['shape']) and np.dtype(got.dtype) == np_dtype(spec['dtype']) and got.weak_type == spec['weak'], f'{w}: shaped array', got=got, want=spec)


@contextlib.contextmanager
def chunk_size(n):
  with contextlib.ExitStack() as s:
    if n is not None:
      s.enter_context(mock.patch.object(flax.serialization, 'MAX_CHUNK_SIZE', n))
      if hasattr(serialization, '_MAX_CHUNK_SIZE'):
        s.enter_context(mock.patch.object(serialization, '_MAX_CHUNK_SIZE', n))
    yield


@st.composite
def rt_cases(draw):
  t = draw(st.one_of(trees(), trees(), lazy()))
  return dict(tree=t, limit=draw(st.sampled_from([None, 1, 8, 16, 50])))


def kinds(spec):
  out = {spec['t']}
  if spec['t'] in ('dict', 'list'):
    for v in (spec['v'].values() if isinstance(spec['v'], dict) else spec['v']):
      out |= kinds(v)
  return out


def run_rt(case, ctx):
  spec = case['tree']
  tree = build(spec)
  # (An array of slices never reaches the size limit in practice.)
  with chunk_size(None if 'slicendarray' in kinds(spec) else case['limit']):
    data = serialization.msgpack_serialize(tree)
    require(isinstance(data, bytes), 'serialized type', got=type(data))
    same(serialization.msgpack_restore(data), spec)
    # The input was not modified.
    again = serialization.msgpack_serialize(tree)
    require(again == data, 'serializing twice gives other bytes (the input was modified?)')
    # (State dicts turn lists into dicts.)
    b = serialization.to_bytes(build(spec)) if 'list' not in kinds(spec) else None
    if b is not None:
      same(serialization.msgpack_restore(b), spec)
    if spec['t'] == 'lazy':
      same(serialization.from_bytes(types.ArrayChunks(), data), spec)
  ks = kinds(spec)
  for k in ks:
    ctx.event(k)
  if len(ks - {'dict', 'list'}) >= 2 or (case['limit'] and ks & {'np', 'jax', 'lazy'}):
    ctx.nontriv()


# --- with templates ---
@flax.struct.dataclass
class Node:
  a: object
  b: object
  note: str = flax.struct.field(pytree_node=False, default='x')


def nodes():
  return st.recursive(arrays(), lambda c: st.one_of(
      st.builds(lambda d: dict(t='dict', v=d), st.dictionaries(st.sampled_from(['a', 'b', 'c', '0', 'x/y']), c, max_size=4)),
      st.builds(lambda l: dict(t='list', v=l), st.lists(c, max_size=12)),
      st.builds(lambda l: dict(t='tuple', v=l), st.lists(c, max_size=3)),
      st.builds(lambda l: dict(t='node', v=l), st.lists(c, min_size=2, max_size=2))), max_leaves=14)


def build_node(spec, leaf):
  t = spec['t']
  if t == 'dict':
    return {k: build_node(v, leaf) for k, v in spec['v'].items()}
  if t == 'list':
    return [build_node(v, leaf) for v in spec['v']]
  if t == 'tuple':
    return tuple(build_node(v, leaf) for v in spec['v'])
  if t == 'node':
    return Node(*[build_node(v, leaf) for v in spec['v']])
  return leaf(spec)


def run_tmpl(case, ctx):
  spec = case['tree']
  with chunk_size(case['limit']):
    data = serialization.to_bytes(build_node(spec, build))
    got = serialization.from_bytes(build_node(spec, lambda s: 0), data)
  ls, struct = jax.tree_util.tree_flatten(got)
  want = build_node(spec, build)
  require(struct == jax.tree_util.tree_structure(want), 'structure after from_bytes', got=struct, want=jax.tree_util.tree_structure(want))
  for g, w in zip(ls, jax.tree_util.tree_leaves(want)):
    same_array(np.asarray(g), np.asarray(w), 'leaf after from_bytes')
  if len(ls) > 1:
    ctx.nontriv()


# --- slices ---
@st.composite
def slice_cases(draw):
  n = draw(st.integers(0, 3))
  mk = lambda: [draw(st.one_of(st.none(), st.integers(-6, 6))), draw(st.one_of(st.none(), st.integers(-6, 6))), draw(st.sampled_from([None, None, 1, 2, -1]))]
  return dict(shape=[draw(st.integers(1, 5)) for _ in range(n + draw(st.integers(0, 1)))], a=[mk() for _ in range(n)], b=[mk() for _ in range(n)],
              pos=[[draw(st.integers(0, 9)), draw(st.integers(0, 9))] for _ in range(6)],
              stepped=[[draw(st.integers(0, 2)), draw(st.integers(2, 4)), draw(st.integers(1, 5))] for _ in range(6)], tile=[draw(st.integers(1, 3)), draw(st.integers(1, 2))])


def run_slice(case, ctx):
  x = np.arange(int(np.prod(case['shape']))).reshape(case['shape'])
  a, b = (types.SliceNd([types.Slice(*s) for s in case[k]]) for k in 'ab')
  a2 = types.SliceNd(*[types.Slice(slice(*s)) for s in case['a']]) if case['a'] else types.SliceNd()
  idx = tuple(slice(*s) for s in case['a'])
  require(np.array_equal(a.chunk(x), x[idx]) and np.shape(a.chunk(x)) == x[idx].shape, 'SliceNd.chunk differs from numpy indexing', got=a.chunk(x), want=x[idx])
  require(np.array_equal(np.asarray(a.chunk(jnp.asarray(x))), x[idx]), 'SliceNd.chunk of a jax array')
  require(a == a2 and hash(a) == hash(a2), 'equal SliceNd compare and hash equal', a=a, a2=a2)
  require((a == b) == (case['a'] == case['b']), 'equality of SliceNd', a=a, b=b)
  for s, t in zip(case['a'], case['b']):
    S, T = types.Slice(*s), types.Slice(slice(*t))
    require((S == T) == (s == t) and (S != T) == (s != t), 'equality of Slice', s=s, t=t)
    require(S == slice(*s) and S.slice == slice(*s) and (S.start, S.stop, S.step) == tuple(s), 'Slice mimics slice', s=s)
    require(eval(repr(S), {'Slice': types.Slice}) == S, 'repr of Slice', got=repr(S), want=s)  # pylint: disable=eval-used
    require(types.Slice(S) == S and len({S, types.Slice(*s), T}) == (1 if s == t else 2), 'hash of Slice')
  pos = [tuple(p) for p in case['pos']]
  require([(s.start, s.stop) for s in sorted(types.Slice(*p) for p in pos)] == sorted(pos), 'order of Slice', pos=pos)
  stepped = [tuple(p) for p in case['stepped']]
  require([(s.start, s.stop, s.step) for s in sorted(types.Slice(*p) for p in stepped)] == sorted(stepped), 'order of Slice with steps', pos=stepped)
  pairs = [types.SliceNd([types.Slice(*p), types.Slice(*q)]) for p, q in zip(pos, pos[::-1])]
  require([[(s.start, s.stop) for s in nd] for nd in sorted(pairs)] == sorted([[p, q] for p, q in zip(pos, pos[::-1])]), 'order of SliceNd')
  # Arrays of SliceNd.
  nds = pairs[:6]
  arr = types.SliceNdArray.create(nds, shape=(2, 3), tile=tuple(case['tile']))
  require(isinstance(arr, types.SliceNdArray) and arr.shape == (2 * case['tile'][0], 3 * case['tile'][1]), 'shape of SliceNdArray', got=arr.shape)
  for i in range(arr.shape[0]):
    for j in range(arr.shape[1]):
      require(isinstance(arr[i, j], types.SliceNd) and arr[i, j] == nds[(i % 2) * 3 + j % 3], 'content of SliceNdArray', i=i, j=j)
  if case['a']:
    ctx.nontriv()


SUBS = [
    Sub('round_trip', rt_cases(), run_rt, quick=1500, thorough=40000),
    Sub('templates', st.builds(lambda t, l: dict(tree=t, limit=l), nodes(), st.sampled_from([None, 1, 8, 16, 50])), run_tmpl, quick=400, thorough=8000),
    Sub('slices', slice_cases(), run_slice, quick=400, thorough=6000),
]
