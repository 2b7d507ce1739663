"""C32: work spread over several processes behaves as one run (on a real cluster of processes)."""
import os
import shutil
import tempfile

from hypothesis import strategies as st
import numpy as np
from checks import c09
from checks import c27
from checks import c32_ops as ops
from vlib import cluster
from vlib import npu
from vlib.core import Sub, require, seeds, HarnessError

TIME_GUARD = {'quick': 300, 'thorough': 3600}
# (processes, devices of each process) of each worker.
SHAPES = [[2, 2], [4, 1], [3, 1], [2, 3]]
SHAPE = SHAPES[int(os.environ.get('VERIF_SHARD', '0')) % len(SHAPES)]

_STATE = {'key': None, 'cluster': None, 'hung': 0}


def call(case, fn, *args, each=None):
  """fn of c32_ops on all processes; a list of their results."""
  n, d = case['cluster']
  for attempt in range(3):
    if _STATE['key'] != (n, d) or not _STATE['cluster'].alive:
      if _STATE['cluster'] is not None:
        _STATE['cluster'].close()
      try:
        _STATE['cluster'] = cluster.Cluster(n, d)
      except cluster.ClusterError as e:
        if attempt == 2:
          raise HarnessError(str(e))
        continue
      _STATE['key'] = (n, d)
    res = _STATE['cluster'].call('checks.c32_ops', fn, each or [args] * n, timeout=150 if not _STATE['hung'] else 60, grace=15)
    bad = [(i, k, v) for i, (k, v) in enumerate(res) if k != 'ok']
    if not bad:
      return [v for _, v in res]
    _STATE['cluster'].close()
    harness = [v for _, k, v in bad if k == 'harness']
    if harness:
      raise HarnessError(harness[0])
    real = [(i, v) for i, k, v in bad if k == 'err' and not cluster.infrastructure([(k, v)])]
    if real:
      i, v = real[0]
      require(False, f'process {i} of {n} failed in {fn}', error=v[-1500:], others=[(j, k) for j, k, _ in bad])
    # Stuck or dead processes may be the fault of the machine: try again.
    if attempt >= (1 if not _STATE['hung'] else 0):
      _STATE['hung'] += 1
      require(False, f'processes got stuck in {fn}', outcome=[(j, k, str(v)[-600:]) for j, k, v in bad])


def total(case):
  return case['cluster'][0] * case['cluster'][1]


def same_everywhere(res, what):
  for i, r in enumerate(res[1:], 1):
    require(r == res[0], f'{what}: process {i} differs from process 0', got=r, want=res[0])
  return res[0]


meshes = st.fixed_dictionaries(dict(mesh=st.integers(0, 5), perm=st.integers(0, 5)))
layouts = st.fixed_dictionaries(dict(mesh=st.integers(0, 5), perm=st.integers(0, 5), axes=st.lists(st.integers(-1, 2), min_size=4, max_size=4)))


# ------------------------------------------------------------- checkpoints
@st.composite
def leaves(draw):
  ndim = draw(st.integers(0, 3))
  shape = [draw(st.sampled_from([4, 8, 12, 24, 6, 3, 1, 0, 5])) for _ in range(ndim)]
  return dict(t='leaf', shape=shape, dtype=draw(st.sampled_from(c09.DTYPES)), seed=draw(seeds), lay=draw(layouts), lay2=draw(layouts))


def trees():
  return st.recursive(
      leaves(),
      lambda c: st.one_of(
          st.builds(lambda d: dict(t='dict', c=d), st.dictionaries(st.sampled_from(c09.KEYS), c, min_size=1, max_size=3)),
          st.builds(lambda l: dict(t='list', c=l), st.lists(c, min_size=1, max_size=3)),
          st.builds(lambda a, d: dict(t='state', c=[a, dict(t='dict', c=d)]), leaves(), st.dictionaries(st.sampled_from(c09.KEYS), c, max_size=2))),
      max_leaves=6)


@st.composite
def ck_cases(draw):
  return dict(cluster=SHAPE, tree=draw(trees()), shards=draw(st.sampled_from([None, 1, 3, 4, 5, 9])), chunk=draw(st.sampled_from([None, 1, 7, 64, 1000])),
              conc=draw(st.sampled_from([None, 1, 100])), save=draw(st.sampled_from(['cluster', 'cluster', 'single'])))


def run_ck(case, ctx):
  spec, n = case['tree'], total(case)
  if case['chunk']:
    # At most a few hundred chunks.
    size = sum(c09.value(s).nbytes for s in c09.spec_leaves(spec))
    case = dict(case, chunk=max(case['chunk'], size // 400))
  d = tempfile.mkdtemp(prefix='c32_')
  try:
    prefix = os.path.join(d, 'sub', 'ckpt_7')
    if case['save'] == 'cluster':
      listings = call(case, 'save', prefix, spec, 'lay', n, case['shards'], case['chunk'])
      same_everywhere(listings, 'files after saving')
      nf = max(case['shards'] or 0, case['cluster'][0])
    else:
      ops.save(prefix, spec, 'lay', n, case['shards'], case['chunk'])
      nf = case['shards'] or 1
    c09.check_files(os.path.dirname(prefix), prefix, spec, nf, case['chunk'], ctx)
    res = call(case, 'restore', prefix, spec, 'lay2', n, case['conc'])
    for i, r in enumerate(res):
      require(isinstance(r, int), f'restored on process {i}: {r}')
    r = ops.restore(prefix, spec, 'lay2', n, case['conc'])
    require(isinstance(r, int), f'restored by one process: {r}')
    ctx.more(sum(res))
    if sum(res):
      ctx.nontriv()
    ctx.event('saved_by_' + case['save'])
  finally:
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------- mesh, barriers
@st.composite
def mesh_cases(draw):
  return dict(cluster=SHAPE, parts=draw(st.lists(st.integers(1, 8), min_size=1, max_size=8)))


def run_mesh(case, ctx):
  n, d = case['cluster']
  res = same_everywhere(call(case, 'meshes', case['parts']), 'logical mesh')
  for p, (names, grid, procs) in zip(case['parts'], res):
    p = min(p, n * d)
    if names == 'error':
      require((n * d) % p != 0, 'a possible number of partitions is rejected', parts=p, error=grid)
      continue
    grid, procs = np.asarray(grid), np.asarray(procs)
    require(names == ('expert', 'replica') and grid.shape == (p, n * d // p), 'shape of the mesh', names=names, shape=grid.shape, parts=p)
    require(sorted(grid.ravel().tolist()) == list(range(n * d)), 'devices are not used exactly once', got=grid)
    for q in range(n):
      idx = np.argwhere(procs == q)
      require(int(np.prod(idx.max(0) - idx.min(0) + 1)) == len(idx) == d, 'the devices of a process are not a contiguous slice', got=procs)
    ctx.nontriv('mesh', p)


@st.composite
def barrier_cases(draw):
  n = SHAPE[0]
  out = []
  for _ in range(draw(st.integers(1, 5))):
    base = draw(st.sampled_from(['a', 'ckpt', 'train:ckpt', 'training:ckpt-last', 'checkpoints:mkdir:/a/b', '', 'é']))
    # Names which only differ in one of their parts.
    names = draw(st.lists(st.sampled_from([base, base, base + ':1', base + ':2', base + '/c', base + ' ', 'x:' + base, base.upper()]), min_size=n, max_size=n))
    if draw(st.booleans()):
      names = [names[0]] * n
    out.append(dict(names=names, main=draw(st.integers(0, n - 1))))
  return dict(cluster=SHAPE, barriers=out)


def run_barrier(case, ctx):
  n = case['cluster'][0]
  args = [([b['names'][i] for b in case['barriers']], [b['main'] for b in case['barriers']]) for i in range(n)]
  res = call(case, 'barriers', each=args)
  for j, b in enumerate(case['barriers']):
    for i in range(n):
      want = b['names'][i] != b['names'][b['main']]
      require(res[i][j] == want, 'a barrier passed with another name than the main process' if want else 'a barrier failed', names=b['names'], main=b['main'], process=i)
    if len(set(b['names'])) > 1:
      ctx.nontriv('barrier', j)


# --------------------------------------------------------------------- data
@st.composite
def data_cases(draw):
  return dict(cluster=SHAPE, mesh=draw(meshes), mult=draw(st.integers(1, 3)), valid=draw(st.lists(st.sampled_from(['all', 'all', 'none', 'tail', 'random', 'head']), min_size=1, max_size=4)),
              C=draw(st.sampled_from([2, 4])), prefetch=draw(st.sampled_from([None, 1, 2, 5])), seed=draw(seeds))


def run_prefetch(case, ctx):
  n = total(case)
  res = call(case, 'prefetched', case, n)
  batches = ops.random_batches(case, n)
  order = list(ops.make_mesh(case['mesh'], n).devices.flatten())
  pos = {dev: i for i, dev in enumerate(ops.devices(n))}
  where = {pos[dev]: i for i, dev in enumerate(order)}
  for i, r in enumerate(res):
    require(len(r) == len(batches), f'number of batches on process {i}', got=len(r), want=len(batches))
  m = case['mult']
  for t, b in enumerate(batches):
    seen = set()
    for r in res:
      for dev, feats in r[t].items():
        require(set(feats) == set(b) and dev not in seen, 'features and devices', got=sorted(feats), device=dev)
        seen.add(dev)
        for k, (start, v) in feats.items():
          want = b[k][where[dev] * m:(where[dev] + 1) * m]
          require(start == where[dev] * m and v.dtype == want.dtype and np.array_equal(v, want), 'the global batch is not the batch of the processes in the order of the mesh', feature=k, device=dev, start=start)
    require(len(seen) == n, 'devices with data', got=sorted(seen))
  ctx.nontriv('prefetch')


def run_eval(case, ctx):
  n = total(case)
  res = same_everywhere(call(case, 'evaluate', case, n), 'metrics of the evaluation')
  w = ops.eval_params(case).astype(np.float64)
  num = correct = loss = 0.0
  tie = 0
  for b in ops.random_batches(case, n):
    v = b['__valid__']
    z = b['image'].reshape(len(v), -1).astype(np.float64) @ w
    lse = np.log(np.exp(z - z.max(1, keepdims=True)).sum(1, keepdims=True)) + z.max(1, keepdims=True)
    num += v.sum()
    correct += (b['labels'][np.arange(len(v)), z.argmax(1)] * v).sum()
    loss += ((b['labels'] * (lse - z)).sum(1) * v).sum()
    srt = np.sort(z, 1)
    tie += ((srt[:, -1] - srt[:, -2] < 1e-4) & v).sum()
  require(sorted(res) == [1, 2], 'steps evaluated', got=sorted(res))
  for s in res:
    npu.close(res[s]['d/loss'], loss / num, 'loss over the processes', rtol=1e-4, atol=1e-5)
    require(abs(res[s]['d/prec@1'] - correct / num) <= (tie + 1e-3) / num, 'accuracy over the processes', got=res[s]['d/prec@1'], want=correct / num)
  ctx.nontriv('eval')


def run_few(case, ctx):
  n = total(case)
  case = dict(case, valid=['all'] + case['valid'][1:])
  res = same_everywhere(call(case, 'few', case, n), 'few-shot metrics')
  want = ops.few(case, n)
  require(sorted(res) == sorted(want) == [1, 2], 'steps of the few-shot evaluation', got=sorted(res))
  for s in want:
    require(set(res[s]) == set(want[s]) and want[s], 'few-shot metrics', got=sorted(res[s]))
    for k in want[s]:
      # One example on the decision boundary may change sides.
      require(abs(res[s][k] - want[s][k]) <= 1.5 / (n * case['mult']), f'{k} differs from one process', got=res[s][k], want=want[s][k])
  ctx.nontriv('few')


@st.composite
def action_cases(draw):
  return dict(cluster=SHAPE, which=draw(st.integers(0, SHAPE[0] - 1)), steps=draw(st.integers(1, 6)))


def run_actions(case, ctx):
  steps = list(range(1, case['steps'] + 1))
  res = call(case, 'actions', case['which'], steps)
  for i, (ran, rets, prog, prog_all) in enumerate(res):
    mine = i == case['which']
    require(ran == (steps if mine else []) and rets == [mine] * len(steps), 'steps at which the action of one process runs', process=i, ran=ran, returned=rets, chosen=case['which'])
    # The first step only starts the clock of the report.
    require(prog == (steps[1:] if mine else []), 'steps reported', process=i, got=prog)
    require(prog_all == steps[1:], 'steps reported by all processes', process=i, got=prog_all)
  ctx.nontriv('actions')


# ----------------------------------------------------------------- training
@st.composite
def train_cases(draw):
  total_steps = draw(st.integers(2, 4))
  return dict(cluster=SHAPE, total=total_steps, every=draw(st.sampled_from([1, 2])), at=draw(st.integers(2, 4)), first=draw(st.sampled_from(['cluster', 'cluster', 'single'])), then=draw(st.sampled_from(['cluster', 'single'])),
              keep=None, multiple=None, dropout=draw(st.sampled_from([0.0, 0.3])), opt=draw(st.sampled_from(['adam', 'sgd'])), mesh=draw(meshes), mixup=draw(st.booleans()), seed=draw(st.integers(0, 1000)),
              prefetch=1, microsteps=None)


def run_train(case, ctx):
  n = total(case)
  tmp = tempfile.mkdtemp(prefix='c32_')
  try:
    _run_train(case, ctx, n, tmp)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def near(got, want, what):
  require(set(got) == set(want), f'{what}: names', got=sorted(got), want=sorted(want))
  for k in want:
    npu.close(got[k], want[k], f'{what}: {k}', rtol=5e-3, atol=5e-4)


def _run_train(case, ctx, n, tmp):
  ref_dir, work = os.path.join(tmp, 'ref'), os.path.join(tmp, 'work')
  crashed, ref_metrics = ops.train(dict(case, every=1), n, ref_dir, 0, None)
  require(not crashed, 'uninterrupted run')
  ref = {s: c27.load_step(ref_dir, s)[0] for s in range(case['total'] + 1)}
  start = 0
  runs = [(case['first'], case['at'] if case['at'] <= case['total'] else None)]
  if runs[0][1] is not None:
    runs.append((case['then'], None))
  saved = {0}
  for where, fail in runs:
    if where == 'cluster':
      res = call(case, 'train', case, n, work, start, fail)
      require(all(r[0] == (fail is not None) for r in res), 'processes that stopped early', got=[r[0] for r in res], fail=fail)
      metrics = res[0][1]
      # Progress is reported by process 0 only; evaluations are computed by all of them.
      for i, r in enumerate(res[1:], 1):
        for s, m in r[1].items():
          require(not any(k.startswith('train/') for k in m), f'process {i} reports training progress', step=s, got=sorted(m))
          near({k: v for k, v in m.items() if k.startswith('val/')}, {k: v for k, v in metrics.get(s, {}).items() if k.startswith('val/')}, f'evaluation at step {s} on process {i}')
    else:
      crashed, metrics = ops.train(case, n, work, start, fail)
      require(crashed == (fail is not None), 'the run stopped early', fail=fail)
    last = (fail - 1 if fail is not None else case['total'])
    for s in range(start + 1, last + (fail is None)):
      # Losses are reported after the first step of a run, evaluations always.
      m = metrics.get(s, {})
      require(any(k.startswith('val/') for k in m), 'evaluations', step=s, got=sorted(m))
      for k, v in m.items():
        if k in ref_metrics.get(s, {}):
          npu.close(v, ref_metrics[s][k], f'{k} at step {s}', rtol=5e-3, atol=5e-4)
    # The step before the failing one may not have been started (prefetching).
    saved |= {s for s in range(start + 1, case['total'] + 1) if s % case['every'] == 0 and s < (fail or 99)} | ({case['total']} if fail is None else set())
    on_disk = c27.steps_on_disk(work)
    require(set(on_disk) <= saved and (set(on_disk) == saved or (fail is not None and set(on_disk) >= {s for s in saved if s < fail - 1})), 'steps saved', got=on_disk, want=sorted(saved))
    saved = set(on_disk)
    for s in on_disk:
      got, it = c27.load_step(work, s)
      c27_same(got, ref[s], f'state of step {s} saved by {where}')
      require(it == {'last_seen_index': s * c27.BATCH}, 'last seen index', got=it, step=s)
    start = max(on_disk)
    ctx.event(f'run_on_{where}')
  ctx.nontriv('train', *(w for w, _ in runs))


def c27_same(got, want, what):
  require(set(got) == set(want), f'{what}: leaves', missing=sorted(set(want) - set(got))[:3])
  for k in want:
    npu.close(got[k], want[k], f'{what}: {k}', rtol=2e-3, atol=2e-4)


# ------------------------------------------------------------------ attacks
@st.composite
def attack_cases(draw):
  n = SHAPE[0] * SHAPE[1]
  return dict(draw(data_cases()), parts=draw(st.sampled_from([p for p in range(1, n + 1) if n % p == 0])), updates=draw(st.integers(1, 3)), every=draw(st.integers(1, 3)))


def run_attack(case, ctx):
  n, nproc = total(case), case['cluster'][0]
  tmp = tempfile.mkdtemp(prefix='c32_')
  try:
    os.makedirs(os.path.join(tmp, 'one'))
    want, _ = ops.attack(case, n, os.path.join(tmp, 'one'), 'x')
    os.makedirs(os.path.join(tmp, 'all'))
    res = call(case, 'attack', case, n, os.path.join(tmp, 'all'), 'x')
    same_everywhere([r[0] for r in res], 'statistics of the attack')
    near_scalars(res[0][0], want)

    def load(path):
      with np.load(path) as f:
        return {k: f[k] for k in f.files}
    s0, s1 = (load(os.path.join(tmp, w, 'pgd_state.npz')) for w in ('one', 'all'))
    require(set(s0) == set(s1), 'saved statistics', got=sorted(s1), want=sorted(s0))
    for k in s0:
      npu.close(s1[k], s0[k], f'saved statistics: {k}', rtol=1e-3, atol=1e-4)
    names = sorted(f for f in os.listdir(os.path.join(tmp, 'all')) if f.startswith('examples'))
    require(names == [f'examples-{i:03d}-of-{nproc:03d}' for i in range(nproc)], 'files of examples', got=names)
    one = load(os.path.join(tmp, 'one', 'examples-000-of-001'))
    batches, size, m = len(case['valid']), n * case['mult'], case['mult']
    for i, name in enumerate(names):
      got = load(os.path.join(tmp, 'all', name))
      require(set(got) == set(one), 'stored arrays', got=sorted(got), want=sorted(one))
      rows = np.concatenate([np.arange(p * m, (p + 1) * m) for p in res[0][1][i]])
      for k in one:
        w = one[k].reshape((batches, size) + one[k].shape[1:])[:, rows].reshape((-1,) + one[k].shape[1:])
        require(got[k].shape == w.shape, f'examples {k} stored by process {i}: shape', got=got[k].shape, want=w.shape)
        if k in ('x_0', 'y', 'valid'):
          npu.exact(got[k], w, f'examples {k} stored by process {i}')
        elif k == 'x_m':
          # Signs of vanishing gradients may differ.
          require(np.mean(np.abs(got[k] - w) > 1e-3) < 0.05, f'examples {k} stored by process {i}')
    ctx.nontriv('attack')
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def near_scalars(got, want):
  require(set(got) == set(want), 'steps written by the attack', got=sorted(got), want=sorted(want))
  for s in want:
    require(set(got[s]) == set(want[s]), 'statistics written', got=sorted(got[s]), want=sorted(want[s]))
    for k in want[s]:
      npu.close(got[s][k], want[s][k], f'{k} after {s} updates', rtol=1e-3, atol=1e-3)


SUBS = [
    Sub('mesh', mesh_cases(), run_mesh, quick=10, thorough=200),
    Sub('barrier', barrier_cases(), run_barrier, quick=20, thorough=600),
    Sub('actions', action_cases(), run_actions, quick=6, thorough=60),
    Sub('prefetch', data_cases(), run_prefetch, quick=40, thorough=1500),
    Sub('checkpoints', ck_cases(), run_ck, quick=50, thorough=3000),
    Sub('evaluate', data_cases(), run_eval, quick=20, thorough=800),
    Sub('fewshot', data_cases(), run_few, quick=12, thorough=400),
    Sub('attack', attack_cases(), run_attack, quick=10, thorough=300),
    Sub('train', train_cases(), run_train, quick=6, thorough=300),
]
