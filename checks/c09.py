"""C09: partitioned checkpoints round trip under every layout."""
import contextlib
import itertools
import os
import shutil
import tempfile
import threading
from multiprocessing.pool import ThreadPool
from unittest import mock

import flax.core
import flax.struct
from flax.traverse_util import flatten_dict
from hypothesis import strategies as st
import jax
import ml_dtypes
import numpy as np
from vmoe.checkpoints import base
from vmoe.checkpoints import partitioned
from vmoe.checkpoints import types
from vlib.core import Sub, require, seeds, HarnessError

TIME_GUARD = {'quick': 420, 'thorough': 3000}

DTYPES = ['float32', 'bfloat16', 'float16', 'int32', 'int8', 'uint8', 'uint32', 'bool', 'complex64', 'int16', 'float8_e4m3fn', 'uint16', 'float8_e5m2']
KEYS = ['a', 'b', 'kernel', 'x/y', '0', '10', '2', 'Dense_0', '.', 'é']


@flax.struct.dataclass
class State:
  step: jax.Array
  params: dict


def np_dtype(name):
  return np.dtype(getattr(ml_dtypes, name)) if name.startswith(('bfloat', 'float8')) else np.dtype(name)


@st.composite
def leaves(draw, shardable=True):
  ndim = draw(st.integers(0, 4))
  shape = [draw(st.sampled_from([1, 2, 4, 8, 3, 6, 5, 12, 0, 11, 18] if i < 2 else [1, 2, 3, 4])) for i in range(ndim)]
  return dict(t='leaf', shape=shape, dtype=draw(st.sampled_from(DTYPES)), seed=draw(seeds), lay=draw(layouts()), lay2=draw(layouts()))


@st.composite
def layouts(draw):
  """A layout: kind, number of devices, permutation seed, mesh shape, how dims use mesh axes."""
  return dict(kind=draw(st.sampled_from(['named', 'named', 'named', 'single', 'default'])), n=draw(st.sampled_from([8, 8, 4, 2, 1, 6])),
              perm=draw(st.integers(0, 5)), mesh=draw(st.integers(0, 3)), axes=draw(st.lists(st.integers(-1, 2), min_size=4, max_size=4)))


def trees(shardable=True):
  return st.recursive(
      leaves(),
      lambda c: st.one_of(
          st.builds(lambda d: dict(t='dict', c=d), st.dictionaries(st.sampled_from(KEYS), c, max_size=3)),
          st.builds(lambda d: dict(t='frozen', c=d), st.dictionaries(st.sampled_from(KEYS), c, min_size=1, max_size=2)),
          st.builds(lambda l: dict(t='list', c=l), st.lists(c, max_size=3)),
          st.builds(lambda l: dict(t='tuple', c=l), st.lists(c, min_size=1, max_size=3)),
          st.builds(lambda a, d: dict(t='state', c=[a, dict(t='dict', c=d)]), leaves(), st.dictionaries(st.sampled_from(KEYS), c, max_size=2))),
      max_leaves=6)


def build(spec, fn):
  t = spec['t']
  if t == 'leaf':
    return fn(spec)
  if t == 'dict':
    return {k: build(v, fn) for k, v in spec['c'].items()}
  if t == 'frozen':
    return flax.core.freeze({k: build(v, fn) for k, v in spec['c'].items()})
  if t == 'list':
    return [build(v, fn) for v in spec['c']]
  if t == 'tuple':
    return tuple(build(v, fn) for v in spec['c'])
  if t == 'state':
    return State(step=build(spec['c'][0], fn), params=build(spec['c'][1], fn))
  raise HarnessError(t)


def plain(spec, fn):
  """The state dict that corresponds to the spec."""
  t = spec['t']
  if t == 'leaf':
    return fn(spec)
  if t in ('dict', 'frozen'):
    return {k: plain(v, fn) for k, v in spec['c'].items()}
  if t in ('list', 'tuple'):
    return {str(i): plain(v, fn) for i, v in enumerate(spec['c'])}
  return {'step': plain(spec['c'][0], fn), 'params': plain(spec['c'][1], fn)}


def spec_leaves(spec):
  if spec['t'] == 'leaf':
    yield spec
  else:
    for v in (spec['c'].values() if isinstance(spec['c'], dict) else spec['c']):
      yield from spec_leaves(v)


def value(leaf):
  rng = np.random.default_rng(leaf['seed'])
  dt = np_dtype(leaf['dtype'])
  n = int(np.prod(leaf['shape'], dtype=np.int64))
  if dt == np.bool_:
    return rng.integers(0, 2, size=leaf['shape']).astype(bool)
  if dt.kind in 'fVc':
    # Random bit patterns, except for signalling NaNs.
    a = np.frombuffer(rng.bytes(n * dt.itemsize), dtype=dt).reshape(leaf['shape']).copy()
    with np.errstate(all='ignore'):
      bad = ~np.isfinite(a.astype(np.complex128))
    a[bad] = np.asarray(1.5, dt)
    return a
  return np.frombuffer(rng.bytes(n * dt.itemsize), dtype=dt).reshape(leaf['shape']).copy()


def mesh_shapes(n):
  return {8: [(8,), (4, 2), (2, 2, 2), (2, 4)], 6: [(6,), (3, 2), (2, 3), (1, 6)], 4: [(4,), (2, 2), (1, 4), (4, 1)], 2: [(2,), (1, 2), (2, 1), (1, 2)], 1: [(1,)] * 4}[n]


def sharding(lay, shape, devices=None):
  devs = list(devices if devices is not None else jax.devices())
  order = np.random.default_rng(lay['perm']).permutation(len(devs)) if lay['perm'] else np.arange(len(devs))
  devs = [devs[i] for i in order]
  if lay['kind'] == 'single':
    return jax.sharding.SingleDeviceSharding(devs[0])
  n = lay['n'] if lay['kind'] == 'named' else 8
  ms = mesh_shapes(n)[lay['mesh']]
  names = tuple('xyz'[:len(ms)])
  mesh = jax.sharding.Mesh(np.asarray(devs[:n], dtype=object).reshape(ms), names)
  used, spec = set(), []
  if lay['kind'] == 'named':
    for i, size in enumerate(shape):
      a = lay['axes'][i]
      ax = names[a] if 0 <= a < len(names) else None
      if ax is not None and ax not in used and size % ms[a] == 0:
        used.add(ax)
        # Sometimes two axes of the mesh shard the same dimension.
        b = (a + 1) % len(names)
        if lay['perm'] % 2 and b != a and names[b] not in used and size % (ms[a] * ms[b]) == 0:
          used.add(names[b])
          spec.append((ax, names[b]))
        else:
          spec.append(ax)
      else:
        spec.append(None)
  return jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(*spec))


def same(got, leaf, what):
  want = value(leaf)
  require(isinstance(got, jax.Array), f'{what}: not a jax.Array', got=type(got))
  require(tuple(got.shape) == tuple(want.shape), f'{what}: shape', got=got.shape, want=want.shape)
  require(got.dtype == want.dtype, f'{what}: dtype', got=got.dtype, want=want.dtype)
  require(np.asarray(got).tobytes() == want.tobytes(), f'{what}: content differs', shape=want.shape, dtype=want.dtype, sharding=getattr(got, 'sharding', None))
  # Every replica holds the right data.
  for sh in got.addressable_shards:
    require(np.asarray(sh.data).tobytes() == np.ascontiguousarray(want[sh.index]).tobytes(), f'{what}: content of the shard on {sh.device} differs')


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='c09_')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def gated_pool():
  pool = ThreadPool(3)
  gate = threading.Event()
  for _ in range(3):
    pool.apply_async(gate.wait)
  return pool, gate


def check_files(d, prefix, spec, num_files, max_chunk_bytes, ctx):
  """Chunks tile each array exactly once, and the index tells where they are."""
  names = sorted(os.listdir(d))
  bn = os.path.basename(prefix)
  want = sorted([f'{bn}.index'] + [f'{bn}.data-{i:05d}-of-{num_files:05d}' for i in range(num_files)])
  require(names == want, 'files of the checkpoint', got=names, want=want)
  index = base.restore_checkpoint(prefix + '.index')
  require(index['shard_count'] == num_files, 'shard count of the index', got=index['shard_count'])
  where = plain_pairs(index['index'], plain(spec, lambda s: s))
  cover = {i: np.zeros(s['shape'], np.int32) for i, (_, s) in enumerate(where)}
  placed = {i: {} for i in cover}
  nchunks = 0
  for f in range(num_files):
    chunks = base.restore_checkpoint(base.add_shard_suffix(prefix + '.data', f, num_files), types.ArrayChunks())
    for i in list(chunks.chunks):
      require(i in cover, 'chunk of an unknown array', index=i)
      for chunk, sl in chunks.iter_chunks(i):
        nchunks += 1
        leaf = where[i][1]
        itemsize = np_dtype(leaf['dtype']).itemsize
        view = sl.chunk(cover[i])
        require(view.shape == chunk.shape, 'chunk shape', got=chunk.shape, want=view.shape)
        if max_chunk_bytes and max_chunk_bytes >= 1:
          require(chunk.size * itemsize <= max(max_chunk_bytes, itemsize), 'chunk larger than the limit', bytes=chunk.size * itemsize, limit=max_chunk_bytes)
        require(np.asarray(chunk).tobytes() == np.ascontiguousarray(sl.chunk(value(leaf))).tobytes(), 'stored chunk has wrong content')
        if view.ndim:
          view += 1
        else:
          cover[i] = cover[i] + 1
        placed[i][tuple(s.tuple for s in sl)] = f
  for i, (info, leaf) in enumerate(where):
    require((cover[i] == 1).all(), 'an element is not stored exactly once', counts=cover[i].tolist() if cover[i].size < 50 else None)
    idx = {tuple(s.tuple for s in sl): sh for sl, sh in zip(info.global_slices, info.shards)}
    require(idx == placed[i], 'the index disagrees with the files', index=idx, files=placed[i])
    require(tuple(info.global_shape.shape) == tuple(leaf['shape']) and info.global_shape.dtype == np_dtype(leaf['dtype']), 'shape or dtype of the index')
  return nchunks


def plain_pairs(a, b):
  """Pairs of leaves of two state dicts, in the order of the sorted keys."""
  if isinstance(b, dict) and b.get('t') != 'leaf':
    require(isinstance(a, dict) and set(a) == set(b), 'structure of the index', got=a)
    out = []
    for k in sorted(b):
      out += plain_pairs(a[k], b[k])
    return out
  return [(a, b)]


def compare_tree(got, spec, what, state_dict=False):
  want = (plain if state_dict else build)(spec, lambda s: 0)
  got_struct = jax.tree_util.tree_structure(got)
  require(got_struct == jax.tree_util.tree_structure(want), f'{what}: structure', got=got_struct, want=jax.tree_util.tree_structure(want))
  specs = (plain if state_dict else build)(spec, lambda s: Box(s))
  for g, s in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(specs)):
    same(g, s.v, what)


class Box:
  def __init__(self, v):
    self.v = v


@st.composite
def rt_cases(draw):
  return dict(tree=draw(trees()), shards=draw(st.sampled_from([None, 1, 2, 3, 5, 9])), chunk=draw(st.sampled_from([None, 1, 2, 7, 16, 64, 200, 1000, 0, 1 << 20])),
              conc=draw(st.sampled_from([None, 1, 100, 1 << 30])), tmpl=draw(st.sampled_from(['none', 'sharded', 'sds', 'numpy', 'same'])),
              delete=draw(st.booleans()), pool=draw(st.booleans()), old=draw(st.integers(0, 3)) == 0)


def put(leaf):
  v = value(leaf)
  return jax.device_put(v, sharding(leaf['lay'], leaf['shape']))


def run_rt(case, ctx):
  spec = case['tree']
  lv = list(spec_leaves(spec))
  with scratch() as d:
    prefix = os.path.join(d, 'sub', 'ckpt_12')
    tree = build(spec, put)
    kw = {}
    gate = None
    if case['delete'] or case['pool']:
      kw['thread_pool'], gate = gated_pool()
    if case['chunk'] is not None:
      kw['max_chunk_bytes'] = case['chunk']
    res = partitioned.save_checkpoint(prefix, tree, num_shards=case['shards'], **kw)
    if case['delete']:
      # The data was captured by the call: arrays can be freed before it is written.
      for a in jax.tree_util.tree_leaves(tree):
        a.delete()
      ctx.event('deleted')
    if gate is not None:
      gate.set()
    res.get()
    if gate is not None:
      kw['thread_pool'].close()
    nf = case['shards'] or 1
    n = check_files(os.path.dirname(prefix), prefix, spec, nf, case['chunk'], ctx)
    if n > len(lv):
      ctx.nontriv()
      ctx.event('split')
    if any(x['lay'] != x['lay2'] for x in lv):
      ctx.event('resharded')
    tmpl = {'none': None, 'sharded': 'lay2', 'sds': 'lay2', 'same': 'lay', 'numpy': 'np'}[case['tmpl']]
    zero = lambda s, key: jax.device_put(np.zeros(s['shape'], np_dtype(s['dtype'])), sharding(s[key], s['shape']))
    if tmpl is None:
      t = None
    elif case['tmpl'] == 'numpy':
      t = build(spec, lambda s: np.zeros(s['shape'], np_dtype(s['dtype'])))
    elif case['tmpl'] == 'sds':
      t = build(spec, lambda s: jax.ShapeDtypeStruct(tuple(s['shape']), np_dtype(s['dtype']), sharding=sharding(s['lay2'], s['shape'])))
    else:
      t = build(spec, lambda s: zero(s, tmpl))
    if case['old'] and t is not None and spec['t'] == 'dict' and all(v['t'] in ('leaf', 'dict') for v in spec['c'].values()) and _only_dicts(spec):
      # Old checkpoints have no version.
      index = base.restore_checkpoint(prefix + '.index')
      del index['version']
      base.save_checkpoint(prefix + '.index', index)
      ctx.event('unversioned')
    got = partitioned.restore_checkpoint(prefix, t, max_concurrent_bytes=case['conc'])
    compare_tree(got, spec, f'restored ({case["tmpl"]})', state_dict=t is None)
    if tmpl in ('lay', 'lay2'):
      want = build(spec, lambda s: Box((sharding(s[tmpl], s['shape']), len(s['shape']))))
      for g, w in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
        require(g.sharding.is_equivalent_to(w.v[0], w.v[1]), 'sharding of the restored array', got=g.sharding, want=w.v[0])
    ctx.event(case['tmpl'])


def _only_dicts(spec):
  return spec['t'] == 'leaf' or (spec['t'] == 'dict' and all(_only_dicts(v) for v in spec['c'].values()))


# --- saving from several processes ---
class FakeDevice:
  def __init__(self, i, process_index):
    self.id, self.process_index = i, process_index

  def __repr__(self):
    return f'FakeDevice({self.id}, process={self.process_index})'


class FakeShard:

  def __init__(self, device, index, data, replica_id, mine):
    self.device, self.index, self.replica_id = device, index, replica_id
    self._data, self._mine = data, mine

  @property
  def data(self):
    # As for jax.Shard: shards of other processes hold no data.
    return self._data if self._mine else None


def fake_array(leaf, process, proc_of):
  v = value(leaf)
  s = sharding(leaf['lay'], leaf['shape'])
  shards, seen = [], {}
  for dev, index in s.devices_indices_map(tuple(leaf['shape'])).items():
    p = proc_of(dev.id)
    k = tuple((i.start, i.stop, i.step) for i in index)
    r = seen[k] = seen.get(k, -1) + 1
    shards.append(FakeShard(FakeDevice(dev.id, p), index, jax.device_put(np.ascontiguousarray(v[index]).reshape(v[index].shape), jax.devices()[0]) if p == process else None, r, p == process))
  arr = mock.create_autospec(jax.Array, instance=True)
  arr.shape, arr.dtype, arr.ndim, arr.size = tuple(leaf['shape']), v.dtype, v.ndim, v.size
  arr.weak_type = False
  arr.global_shards = shards
  arr.addressable_shards = [x for x in shards if x.device.process_index == process]
  arr.is_fully_addressable = all(x.device.process_index == process for x in shards)
  arr.sharding = s
  return arr


@st.composite
def mp_cases(draw):
  return dict(tree=draw(trees()), P=draw(st.sampled_from([2, 2, 4, 8, 3])), inter=draw(st.booleans()), shards=draw(st.sampled_from([None, 1, 4, 5, 9])),
              chunk=draw(st.sampled_from([None, 1, 7, 64, 1000])), order=draw(st.integers(0, 3)))


def run_mp(case, ctx):
  spec, P = case['tree'], case['P']
  lv = list(spec_leaves(spec))
  if P == 3:
    proc_of = lambda i: i % 3
  else:
    proc_of = (lambda i: i % P) if case['inter'] else (lambda i: i // (8 // P))
  nf = max(case['shards'] or P, P)
  with scratch() as d:
    prefix = os.path.join(d, 'ckpt_3')
    order = np.random.default_rng(case['order']).permutation(P)
    kw = {} if case['chunk'] is None else {'max_chunk_bytes': case['chunk']}
    seen = set()
    for p in order:
      p = int(p)
      tree = build(spec, lambda s: fake_array(s, p, proc_of))
      with mock.patch.object(jax, 'process_index', return_value=p), mock.patch.object(jax, 'process_count', return_value=P):
        partitioned.save_checkpoint(prefix, tree, num_shards=case['shards'], makedirs=False, overwrite=False, **kw).get()
      now = set(os.listdir(d))
      new, seen = now - seen, now
      for f in new:
        if '.data' in f:
          i = int(f.split('.data-')[1].split('-of-')[0])
          require(i % P == p, 'a process wrote the file of another process', file=f, process=p)
        else:
          require(p == 0, 'only process 0 writes the index', file=f, process=p)
    check_files(d, prefix, spec, nf, case['chunk'], ctx)
    got = partitioned.restore_checkpoint(prefix, build(spec, lambda s: jax.ShapeDtypeStruct(tuple(s['shape']), np_dtype(s['dtype']), sharding=sharding(s['lay2'], s['shape']))))
    compare_tree(got, spec, f'restored (written by {P} processes)')
    if lv:
      ctx.nontriv()


# --- templates that do not match ---
@st.composite
def bad_cases(draw):
  n = draw(st.integers(1, 4))
  keys = draw(st.lists(st.sampled_from(KEYS), min_size=n, max_size=n, unique=True))
  return dict(keys=keys, nest=draw(st.booleans()), how=draw(st.sampled_from(['drop', 'add', 'rename', 'leaf_to_tree', 'tree_to_leaf'])), at=draw(st.integers(0, 10)), version=draw(st.booleans()))


def run_bad(case, ctx):
  tree = {k: jax.device_put(np.arange(4, dtype=np.float32) + i) for i, k in enumerate(case['keys'])}
  if case['nest']:
    tree = {'p': tree, 'q': jax.device_put(np.float32(1.))}
  t = dict(tree['p']) if case['nest'] else dict(tree)
  k = case['keys'][case['at'] % len(case['keys'])]
  if case['how'] == 'drop':
    del t[k]
  elif case['how'] == 'add':
    t['added'] = t[k]
  elif case['how'] == 'rename':
    t['renamed'] = t.pop(k)
  elif case['how'] == 'leaf_to_tree':
    t[k] = {'u': t[k]}
  elif not case['nest']:
    return
  t = {'p': t, 'q': tree['q']} if case['nest'] else t
  if case['how'] == 'tree_to_leaf':
    t['p'] = tree['q']
  with scratch() as d:
    prefix = os.path.join(d, 'ckpt_3')
    partitioned.save_checkpoint(prefix, tree, num_shards=2).get()
    if case['version']:
      index = base.restore_checkpoint(prefix + '.index')
      del index['version']
      base.save_checkpoint(prefix + '.index', index)
    try:
      got = partitioned.restore_checkpoint(prefix, t)
    except Exception:  # pylint: disable=broad-except
      ctx.nontriv()
      return
    if case['version'] and case['how'] == 'drop':
      # Unversioned checkpoints: leaves that are not in the template may be skipped.
      want = flatten_dict(tree)
      for path, a in flatten_dict(got).items():
        require(path in want and np.array_equal(np.asarray(a), np.asarray(want[path])), 'a template with a different structure gives wrong data', path=path)
      ctx.event('skipped_leaf')
      return
    require(False, 'a template with a different structure is accepted', how=case['how'], got=jax.tree_util.tree_structure(got))


ZERO = dict(t='leaf', shape=[0, 4], dtype='float32', seed=0, lay=dict(kind='named', n=4, perm=0, mesh=0, axes=[-1, 0, -1, -1]), lay2=dict(kind='named', n=2, perm=0, mesh=0, axes=[-1, 0, -1, -1]))

SUBS = [
    Sub('round_trip', rt_cases(), run_rt, quick=700, thorough=9000,
        examples=(dict(tree=dict(t='dict', c={'a': ZERO}), shards=2, chunk=None, conc=None, tmpl='sharded', delete=False, pool=False, old=False),)),
    Sub('processes', mp_cases(), run_mp, quick=140, thorough=3000),
    Sub('mismatch', bad_cases(), run_bad, quick=60, thorough=400),
]
