"""C16: device prefetching."""
import contextlib
from unittest import mock

from hypothesis import strategies as st
import jax
import numpy as np
import tensorflow as tf
from vmoe.data import pjit_utils
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 2400}
DEVICES = jax.devices()
DTYPES = ['float32', 'float32', 'int32', 'uint8', 'bool', 'float16', 'int8', 'float64', 'int64', 'complex64', 'uint32']
MESHES = [[1], [2], [8], [1, 1], [2, 1], [1, 2], [2, 2], [4, 2], [3, 2], [2, 2, 2], [1, 5]]


@st.composite
def leaves(draw):
  return dict(k=draw(st.sampled_from(['np', 'np', 'np', 'tf', 'noncontig', 'ragged', 'str'])), d=draw(st.sampled_from(DTYPES)), mult=draw(st.sampled_from([1, 1, 2, 3, 0])), tail=draw(st.lists(st.integers(1, 3), max_size=3)))


@st.composite
def cases(draw):
  mesh = draw(st.sampled_from(MESHES))
  struct = draw(st.sampled_from(['dict', 'dict', 'nested', 'tuple', 'list', 'single', 'none']))
  n = {'dict': 2, 'nested': 3, 'tuple': 2, 'list': 2, 'single': 1, 'none': 1}[struct]
  length = draw(st.integers(0, 9))
  fail = draw(st.one_of(st.none(), st.none(), st.integers(0, length)))
  return dict(mesh=mesh, perm=draw(st.booleans()), struct=struct, leaves=[draw(leaves()) for _ in range(n)], length=length, size=draw(st.sampled_from([None, 0, -1, 1, 1, 2, 3, 5, 12])), fail=fail, take=draw(st.one_of(st.none(), st.integers(0, 9))), active=draw(st.booleans()),
              seed=draw(seeds), gen=draw(st.booleans()), error=draw(st.sampled_from(list(ERRORS))))


class SourceError(Exception):
  pass


ERRORS = {c.__name__: c for c in (SourceError, RuntimeError, ValueError, TypeError, KeyError, OSError, AssertionError, IndexError, MemoryError)}


def make_leaf(rng, l, nd):
  shape = (l['mult'] * nd,) + tuple(l['tail'])
  if l['k'] == 'ragged':
    return tf.ragged.constant([list(range(int(rng.integers(0, 4)))) for _ in range(3)], dtype=tf.int32)
  if l['k'] == 'str':
    return np.array([b'x%d' % rng.integers(100) for _ in range(3)])
  d = np.dtype(l['d'])
  if l['k'] == 'noncontig':
    big = rng.integers(0, 100, tuple(2 * s for s in shape)).astype(d)
    return big[tuple(slice(None, None, 2) for _ in shape)]
  x = rng.integers(0, 100, shape).astype(d)
  return tf.constant(x) if l['k'] == 'tf' else x


def make_item(rng, case, nd):
  ls = [make_leaf(rng, l, nd) for l in case['leaves']]
  return {'dict': lambda: {'image': ls[0], 'a': ls[1]}, 'nested': lambda: {'z': {'y': ls[0], 'x': [ls[1]]}, 'b': (ls[2],)}, 'tuple': lambda: tuple(ls), 'list': lambda: list(ls), 'single': lambda: ls[0],
          'none': lambda: {'a': ls[0], 'b': None}}[case['struct']]()


is_ragged = lambda x: isinstance(x, tf.RaggedTensor)


def compare(got, want, mesh, what):
  tg, tw = jax.tree_util.tree_structure(got, is_leaf=is_ragged), jax.tree_util.tree_structure(want, is_leaf=is_ragged)
  require(tg == tw, f'{what}: structure changed', got=tg, want=tw)
  sharding = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(mesh.axis_names))
  for g, w in zip(jax.tree_util.tree_leaves(got, is_leaf=is_ragged), jax.tree_util.tree_leaves(want, is_leaf=is_ragged)):
    if is_ragged(w):
      require(g is w or (is_ragged(g) and g.to_list() == w.to_list()), f'{what}: ragged tensor changed')
      continue
    w = np.asarray(w)
    if w.dtype.kind in 'SUO':
      require(not isinstance(g, jax.Array) and np.array_equal(np.asarray(g), w), f'{what}: non-numeric data changed', got=g, want=w)
      continue
    require(isinstance(g, jax.Array), f'{what}: not on the devices', got=type(g))
    require(g.dtype == jax.dtypes.canonicalize_dtype(w.dtype), f'{what}: dtype', got=g.dtype, want=w.dtype)
    npu.exact(np.asarray(g), w.astype(g.dtype), what)
    require(g.sharding.is_equivalent_to(sharding, g.ndim), f'{what}: sharding', got=g.sharding, want=sharding)
    n = 0
    for s in g.addressable_shards:
      npu.exact(np.asarray(s.data), w.astype(g.dtype)[s.index], f'{what}: part on device {s.device.id}')
      n += s.data.shape[0]
    require(n == w.shape[0], f'{what}: rows replicated or missing', got=n, want=w.shape[0])


def run_prefetch(case, ctx):
  rng = np.random.default_rng(case['seed'])
  nd = int(np.prod(case['mesh']))
  devs = np.array(DEVICES)[rng.permutation(len(DEVICES))[:nd] if case['perm'] else np.arange(nd)]
  mesh = jax.sharding.Mesh(devs.reshape(case['mesh']), ('expert', 'replica', 'other')[:len(case['mesh'])])
  items = [make_item(rng, case, nd) for _ in range(case['length'])]
  pulled = [0]

  def source():
    for i, it in enumerate(items):
      if case['fail'] == i:
        raise ERRORS[case['error']](f'source error {i}')
      pulled[0] += 1
      yield it
    if case['fail'] == len(items):
      raise ERRORS[case['error']]('source error at the end')

  class It:
    def __init__(self):
      self.g = source()

    def __iter__(self):
      return self

    def __next__(self):
      return next(self.g)

  src = source() if case['gen'] else It()
  ahead = max(0, case['size'] or 0)
  kept, error = [], None
  with (mesh if case['active'] else contextlib.nullcontext()):
    it = pjit_utils.prefetch_to_device(src, case['size'], None if case['active'] else mesh)
    require(pulled[0] <= ahead, 'source consumed before the first element is requested', pulled=pulled[0], ahead=ahead)
    limit = case['take']
    while limit is None or len(kept) < limit:
      try:
        x = next(it)
      except StopIteration:
        break
      except ERRORS[case['error']] as e:
        if 'source error' not in str(e):
          raise
        error = e
        break
      kept.append(x)
      require(len(kept) <= len(items), 'more elements than the source has', got=len(kept), want=len(items))
      require(pulled[0] - len(kept) <= ahead, 'runs further ahead than the prefetch depth', pulled=pulled[0], consumed=len(kept), depth=case['size'])
      compare(x, items[len(kept) - 1], mesh, f'element {len(kept) - 1}')
    else:
      it.close()
  for i, x in enumerate(kept):  # Still intact after later elements were fetched.
    compare(x, items[i], mesh, f'element {i}, afterwards')
  n = len(items) if case['fail'] is None else case['fail']
  if error is None:
    if case['fail'] is None:
      want = n if limit is None else min(n, limit)
      require(len(kept) == want, 'elements lost', got=len(kept), want=want)
    else:
      require(limit is not None and len(kept) == limit, 'an error of the source was swallowed', got=len(kept), fails_at=n)
  else:
    require(case['fail'] is not None and len(kept) <= n, 'elements after an error')
    if not ahead:
      require(len(kept) == n, 'elements before the error lost although nothing is prefetched', got=len(kept), want=n)
    require(len(kept) >= n - ahead, 'elements lost beyond the prefetched ones', got=len(kept), fails_at=n, depth=ahead)
  if len(kept) > 1 and (nd > 1 or ahead):
    ctx.nontriv()
  ctx.more(len(kept))
  if error is not None:
    ctx.event('source_error')


@st.composite
def spec_cases(draw):
  return dict(mesh=draw(st.sampled_from(MESHES)), P=draw(st.sampled_from([1, 1, 2, 3])), leaves=[draw(leaves()) for _ in range(draw(st.integers(1, 3)))], active=draw(st.booleans()), extra=draw(st.integers(0, 7)), seed=draw(seeds), tfspec=draw(st.booleans()))


def run_spec(case, ctx):
  """Shape/dtype structs agree with what the prefetcher delivers; indivisible batches are refused."""
  rng = np.random.default_rng(case['seed'])
  nd = int(np.prod(case['mesh']))
  mesh = jax.sharding.Mesh(np.array(DEVICES[:nd]).reshape(case['mesh']), ('expert', 'replica', 'other')[:len(case['mesh'])])
  arrays = {f'k{i}': np.asarray(make_leaf(rng, dict(l, k='np'), nd)) for i, l in enumerate(case['leaves'])}
  if case['tfspec']:
    if any(a.shape[0] == 0 for a in arrays.values()):
      return
    src = tf.data.Dataset.from_tensors(arrays)
  else:
    class S:
      element_spec = {k: jax.ShapeDtypeStruct(a.shape, a.dtype) for k, a in arrays.items()}
    src = S()
  with (mesh if case['active'] else contextlib.nullcontext()), mock.patch.object(jax, 'process_count', return_value=case['P']):
    spec = pjit_utils.get_dataset_shape_dtype_struct(src, None if case['active'] else mesh)
  require(set(spec) == set(arrays), 'keys of the spec')
  sharding = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(mesh.axis_names))
  for k, a in arrays.items():
    want = (a.shape[0] * case['P'],) + a.shape[1:]
    require(tuple(spec[k].shape) == want and np.dtype(spec[k].dtype) == a.dtype, 'spec of an element', got=spec[k], want=(want, a.dtype))
    require(spec[k].sharding.is_equivalent_to(sharding, a.ndim), 'sharding of the spec', got=spec[k].sharding)
  # put_to_devices: the rows are split evenly, in order, over the given devices.
  devs = list(np.array(DEVICES)[rng.permutation(len(DEVICES))[:nd]])
  rows = nd * int(rng.integers(0, 4)) + case['extra'] % nd
  x = rng.integers(0, 100, (rows, 2)).astype(np.float32)
  if rows % nd:
    try:
      pjit_utils.put_to_devices(x, devs)
    except ValueError:
      ctx.event('indivisible')
    else:
      require(False, 'a batch that does not divide over the devices was accepted', rows=rows, devices=nd)
    try:
      list(pjit_utils.prefetch_to_device(iter([{'a': x}]), 1, mesh))
    except ValueError:
      pass
    else:
      require(False, 'prefetching accepts a batch that does not divide over the devices', rows=rows, devices=nd)
  else:
    bufs = pjit_utils.put_to_devices(x, devs)
    require(len(bufs) == nd, 'number of device buffers', got=len(bufs), want=nd)
    for i, (b, d) in enumerate(zip(bufs, devs)):
      require(set(b.devices()) == {d}, 'buffer on another device', got=b.devices(), want=d)
      npu.exact(np.asarray(b), x[i * rows // nd:(i + 1) * rows // nd], f'buffer {i}')
  if nd > 1:
    ctx.nontriv()


SUBS = [
    Sub('prefetch', cases(), run_prefetch, quick=1600, thorough=12000),
    Sub('spec', spec_cases(), run_spec, quick=500, thorough=5000),
]
