"""C12: logical meshes."""
import itertools
from unittest import mock

from hypothesis import strategies as st
import jax
import numpy as np
from vmoe import partitioning
from vlib.core import Sub, require, seeds

TIME_GUARD = {'quick': 420, 'thorough': 2400}


class Dev:
  client = None
  device_kind = 'fake'

  def __init__(self, i, process_index, coords, platform):
    self.id, self.process_index, self.platform = i, process_index, platform
    if platform == 'tpu':
      self.core_on_chip, self.coords = coords[0], tuple(coords[1:])

  def __repr__(self):
    return f'Dev{self.id}p{self.process_index}'


def divisors(n):
  return [d for d in range(1, n + 1) if n % d == 0]


@st.composite
def tpu_cases(draw):
  axis = st.sampled_from([1, 2, 2, 4, 4, 8, 3, 6, 5])
  shape = [draw(st.sampled_from([1, 2]))] + [draw(axis) for _ in range(3)]
  if draw(st.booleans()):
    shape[3] = 1
  while np.prod(shape) > 256:
    shape[int(np.argmax(shape))] = 2
  local = [draw(st.sampled_from(divisors(s))) for s in shape]
  parts = [draw(st.sampled_from(divisors(s))) for s in shape]
  n = draw(st.one_of(st.sampled_from(divisors(int(np.prod(shape)))), st.integers(1, int(np.prod(shape)) + 4), st.just(2 * int(np.prod(shape)))))
  return dict(kind='tpu', shape=shape, local=local, n=n, parts=parts, seed=draw(seeds), major=draw(st.permutations([0, 1, 2, 3])))


@st.composite
def other_cases(draw):
  nd, nh = draw(st.sampled_from([1, 2, 4, 8, 3, 6])), draw(st.sampled_from([1, 2, 4, 8, 3, 16]))
  n = draw(st.one_of(st.sampled_from(divisors(nd * nh)), st.integers(1, nd * nh + 3)))
  return dict(kind=draw(st.sampled_from(['cpu', 'gpu'])), shape=[nd, nh], local=[nd, 1], n=n, parts=[draw(st.sampled_from(divisors(nd))), draw(st.sampled_from(divisors(nh)))], seed=draw(seeds), major=[0, 1])


def topology(case):
  shape, local, kind = case['shape'], case['local'], case['kind']
  devs, coords = [], {}
  if kind == 'tpu':
    nb = [s // l for s, l in zip(shape, local)]
    order = case['major']
    for i, c in enumerate(itertools.product(*[range(shape[a]) for a in order])):
      cc = [0] * 4
      for a, v in zip(order, c):
        cc[a] = v
      blk = [v // l for v, l in zip(cc, local)]
      p = int(np.ravel_multi_index([blk[a] for a in order], [nb[a] for a in order]))
      devs.append(Dev(i, p, cc, 'tpu'))
      coords[i] = tuple(cc)
  else:
    nd, nh = shape
    for h in range(nh):
      for d in range(nd):
        i = h * nd + d
        devs.append(Dev(i, h, None, kind))
        coords[i] = (d, h)
  return devs, coords


def greedy(case):
  """Reference: how many partitions go along each hardware axis, or None."""
  shape = case['shape']
  n = min(case['n'], int(np.prod(shape)))
  order = [0, 1] if len(shape) == 2 else ([1, 2, 0] if shape[3] == 1 else [3, 2, 1, 0])
  parts, rest = [1] * len(shape), n
  for a in order:
    parts[a] = min(rest, shape[a])
    rest //= parts[a]
  if int(np.prod(parts)) != n or any(s % p for s, p in zip(shape, parts)):
    return None
  return parts


def contiguous(grid):
  for p in set(grid.ravel().tolist()):
    idx = np.argwhere(grid == p)
    lo, hi = idx.min(axis=0), idx.max(axis=0)
    if int(np.prod(hi - lo + 1)) != len(idx):
      return False
  return True


def check_mesh(mesh, parts, case, devs, coords, what):
  n = int(np.prod(parts))
  N = len(devs)
  require(tuple(mesh.axis_names) == ('expert', 'replica'), f'{what}: axis names', got=mesh.axis_names)
  grid = np.vectorize(lambda d: d.id, otypes=[int])(mesh.devices)
  require(grid.shape == (n, N // n), f'{what}: shape', got=grid.shape, want=(n, N // n))
  require(sorted(grid.ravel().tolist()) == sorted(d.id for d in devs), f'{what}: devices are not used exactly once', got=grid.tolist())
  reps = [s // p for s, p in zip(case['shape'], parts)]
  block = lambda i: tuple(c // r for c, r in zip(coords[i], reps))
  for row in grid:
    require(len({block(i) for i in row.tolist()}) == 1, f'{what}: an expert partition is not a block of the hardware', row=[coords[i] for i in row.tolist()], replicas=reps)
  proc = {d.id: d.process_index for d in devs}
  pg = np.vectorize(lambda i: proc[i], otypes=[int])(grid)
  require(contiguous(pg), f'{what}: the devices of a process are not a contiguous slice', processes=pg.tolist())
  return grid


def tileable(parts, case):
  for s, p, l in zip(case['shape'], parts, case['local']):
    r = s // p
    if r % l and (l % r or p % (l // r)):
      return False
  return True


def run_mesh(case, ctx):
  devs, coords = topology(case)
  procs = sorted({d.process_index for d in devs})
  rng = np.random.default_rng(case['seed'])
  views = [procs[0], procs[-1]]
  grids = []
  parts = greedy(case)
  for v in views:
    local = [d for d in devs if d.process_index == v]
    given = [devs[i] for i in rng.permutation(len(devs))]
    with mock.patch.object(jax, 'local_devices', return_value=local), mock.patch.object(jax, 'local_device_count', return_value=len(local)), \
         mock.patch.object(jax, 'devices', return_value=given), mock.patch.object(jax, 'process_index', return_value=v), mock.patch.object(jax, 'process_count', return_value=len(procs)):
      try:
        mesh = partitioning.get_auto_logical_mesh(case['n'], given if v == views[0] else None)
      except ValueError as e:
        require(parts is None or not tileable(parts, case), 'a possible request raises an error', err=e, parts=parts, n=case['n'])
        ctx.event('impossible')
        grids.append(None)
      else:
        require(parts is not None, 'an impossible request is accepted', n=case['n'], shape=case['shape'])
        grids.append(check_mesh(mesh, parts, case, devs, coords, f'auto mesh of {case["n"]} partitions').tolist())
      # Explicitly given partitions of each axis.
      hw = partitioning.get_hardware_mesh_tpu(given) if case['kind'] == 'tpu' else partitioning.get_hardware_mesh_other(given)
      require(hw.shape == tuple(case['shape']), 'shape of the hardware mesh', got=hw.shape, want=case['shape'])
      for c in itertools.islice(np.ndindex(*hw.shape), 300):
        require(hw[c] is not None and coords[hw[c].id] == tuple(c), 'hardware mesh', at=c, got=hw[c])
      ls = partitioning.get_hardware_mesh_local_shape(local if v == views[0] else None)
      require(tuple(ls) == tuple(case['local']), 'local shape of the hardware mesh', got=ls, want=case['local'])
      try:
        mesh = partitioning.get_logical_mesh(tuple(case['parts']), hw)
      except ValueError as e:
        require(not tileable(case['parts'], case), 'valid partitions of the hardware axes raise an error', err=e, parts=case['parts'])
      else:
        g = check_mesh(mesh, case['parts'], case, devs, coords, f'mesh with partitions {case["parts"]}')
        grids.append(g.tolist())
  k = len(grids) // 2
  require(grids[:k] == grids[k:], 'the mesh differs between processes')
  if len(procs) > 1 and parts and 1 < int(np.prod(parts)) < len(devs):
    ctx.nontriv()


@st.composite
def slice_cases(draw):
  h, w = draw(st.integers(1, 5)), draw(st.integers(1, 5))
  style = draw(st.sampled_from(['random', 'blocks', 'one_off']))
  return dict(h=h, w=w, n=draw(st.integers(1, 4)), seed=draw(seeds), style=style)


def run_slices(case, ctx):
  rng = np.random.default_rng(case['seed'])
  h, w = case['h'], case['w']
  if case['style'] == 'random':
    g = rng.integers(0, case['n'], size=(h, w))
  else:
    bh, bw = rng.choice(divisors(h)), rng.choice(divisors(w))
    g = (np.arange(h)[:, None] // bh) * 10 + np.arange(w)[None] // bw
    if case['style'] == 'one_off':
      g[rng.integers(h), rng.integers(w)] = g[rng.integers(h), rng.integers(w)]
  devs = np.vectorize(lambda p: Dev(0, int(p), None, 'cpu'), otypes=[object])(g)
  require(bool(partitioning.processes_have_contiguous_device_slices(devs)) == contiguous(g), 'contiguity of all processes', grid=g.tolist(), want=contiguous(g))
  for p in set(g.ravel().tolist()):
    require(bool(partitioning.process_has_contiguous_device_slice(devs, p)) == contiguous(np.where(g == p, 0, 1 + np.arange(g.size).reshape(g.shape))), 'contiguity of a process', grid=g.tolist(), process=p)
  if not contiguous(g):
    ctx.nontriv()


SUBS = [
    Sub('tpu', tpu_cases(), run_mesh, quick=4000, thorough=60000),
    Sub('other', other_cases(), run_mesh, quick=1000, thorough=3000),
    Sub('contiguity', slice_cases(), run_slices, quick=1000, thorough=3000),
]
