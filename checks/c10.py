"""C10: crashes while saving or removing checkpoints; discovery of complete steps."""
import contextlib
import os
import re
import shutil
import tempfile
from multiprocessing.pool import ThreadPool

from hypothesis import strategies as st
import jax
import numpy as np
import tensorflow as tf
from vmoe.checkpoints import base
from vmoe.checkpoints import partitioned
from vlib.core import Sub, require, seeds, Violation
from vlib.faultfs import FaultFS, Crash

TIME_GUARD = {'quick': 420, 'thorough': 3000}
PREFIXES = ['ckpt', 'model_3', 'a.b', 'x', 'm[1]']
# Directories of the checkpoints: special characters of patterns are names as any other.
DIRS = ['work', 'work', 'run[1]', 'lr=0.1,wd_0.05', 'a*c', 'q?', '[ab]_3', 'x_7.data-00000-of-00002', 'sp ace']


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='c10_')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def data(step, attempt=0):
  rng = np.random.default_rng([step, attempt])
  return {'w': rng.normal(size=(3, 4)).astype(np.float32), 'b': {'c': rng.integers(0, 100, size=(5,)).astype(np.int32)}, 'step': np.int32(step)}


def shards_of(step):
  return 1 + step % 4


class Model:
  """What should be on disk."""

  def __init__(self, root, prefix, kind):
    self.root, self.prefix, self.kind = root, os.path.join(root, prefix), kind
    self.files = {}     # final basename -> content (attempt) or None if partial remove.
    self.attempts = {}

  def final_names(self, step):
    bn = os.path.basename(self.prefix)
    if self.kind == 'single':
      return [f'{bn}_{step}']
    if self.kind == 'suffix':
      return [f'{bn}_{step}.foo']
    n = shards_of(step)
    return [f'{bn}_{step}.index'] + [f'{bn}_{step}.data-{i:05d}-of-{n:05d}' for i in range(n)]

  @property
  def suffixes(self):
    return {'single': None, 'suffix': ('.foo',), 'part': ('.index', '.data')}[self.kind]


def do_save(m, step, attempt, overwrite, pool, makedirs=True):
  if m.kind == 'part':
    tree = jax.tree_util.tree_map(jax.numpy.asarray, data(step))
    return partitioned.save_checkpoint(f'{m.prefix}_{step}', tree, num_shards=shards_of(step), overwrite=overwrite, thread_pool=pool, max_chunk_bytes=16, makedirs=makedirs).get()
  path = os.path.join(os.path.dirname(m.prefix), m.final_names(step)[0])
  if attempt % 2:
    return base.save_checkpoint_async(path, data(step, attempt), overwrite=overwrite, thread_pool=pool, makedirs=makedirs).get()
  return base.save_checkpoint(path, data(step, attempt), overwrite=overwrite, makedirs=makedirs)


def read(path):
  with open(path, 'rb') as f:
    return f.read()


def equal(got, want, what):
  ga, wa = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)
  require(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want), f'{what}: structure', got=got)
  for g, w in zip(ga, wa):
    require(np.array_equal(np.asarray(g), w) and np.asarray(g).dtype == np.asarray(w).dtype, f'{what}: content', got=g, want=w)


def listing(m):
  d = os.path.dirname(m.prefix)
  return sorted(os.listdir(d)) if os.path.isdir(d) else []


def run_op(m, op, fs, pool, state):
  """Runs an operation under the fault-injecting file system. Returns the exception or None."""
  try:
    with fs:
      if op['op'] == 'save':
        do_save(m, op['step'], op['attempt'], op['overwrite'], pool)
      else:
        victims = [os.path.join(os.path.dirname(m.prefix), f) for f in listing(m) if not f.startswith('.')]
        base.remove_checkpoints(victims, lambda p: to_remove(m, p, op), thread_pool=pool)
  except Exception as e:  # pylint: disable=broad-except
    return e
  return None


def to_remove(m, path, op):
  if step_of(m, path) not in op['steps']:
    return False
  # Optionally only some of the shards.
  return op.get('shard') is None or os.path.basename(path).endswith(op['shard'])


def step_of(m, path):
  mm = re.match(re.escape(os.path.basename(m.prefix)) + r'_([0-9]+)(\.|$)', os.path.basename(path))
  return int(mm.group(1)) if mm else None


def contents(m, state):
  """Reads all final files and checks that each is a complete content that it may have."""
  names = listing(m)
  d = os.path.dirname(m.prefix)
  return {f: read(os.path.join(d, f)) for f in names}


def check_state(m, before, op, err, known, ctx, what):
  """Invariants after an operation (interrupted or not).

  before: directory content before the operation.
  known: the content of each file after the complete operation.
  """
  after = contents(m, None)
  d = os.path.dirname(m.prefix)
  mine = set(m.final_names(op['step'])) if op['op'] == 'save' else None
  partial = False
  for f in set(before) | set(after) | (mine or set()):
    is_final = f in known['finals']
    if not is_final:
      if op['op'] == 'save':
        # Temporary files: only of this step; those of other steps are untouched.
        if f in before and step_in(m, f) != op['step']:
          require(after.get(f) == before[f], f'{what}: leftover of another step changed', file=f)
        if f in after:
          partial = True
      continue
    old, new = before.get(f), known['new'].get(f)
    got = after.get(f)
    if op['op'] == 'save':
      if f in mine:
        if err is None:
          require(got is not None and got == new, f'{what}: the save succeeded but the file is not the complete new content', file=f, size=None if got is None else len(got), want=len(new))
        else:
          require(got == old or got == new, f'{what}: a visible file is neither the complete previous nor the complete new content', file=f,
                  got=None if got is None else len(got), old=None if old is None else len(old), new=None if new is None else len(new))
          partial |= got != new
      else:
        require(got == old, f'{what}: the file of another step changed', file=f)
    else:
      match = to_remove(m, f, op)
      if not match:
        require(got == old, f'{what}: a file that does not match was removed', file=f)
      elif err is None:
        require(got is None, f'{what}: a matching file was not removed', file=f)
      else:
        require(got in (None, old), f'{what}: a file changed while removing', file=f)
        partial |= got is not None
  # Discovery.
  want = []
  for s in known['steps']:
    names = m.final_names(s)
    complete = all(f in after for f in names)
    leftover = any(step_in(m, f) == s and f not in known['finals'] for f in after)
    if complete and not leftover:
      want.append(s)
  want.sort()
  got = list(base.iterate_complete_steps_for_prefix(m.prefix, m.suffixes))
  require(got == want, f'{what}: complete steps', got=got, want=want, files=sorted(after))
  got = list(base.iterate_complete_steps_for_prefix(m.prefix, m.suffixes, decreasing=True))
  require(got == want[::-1], f'{what}: complete steps in decreasing order', got=got, want=want[::-1])
  latest = base.find_latest_complete_checkpoint_for_prefix(m.prefix, m.suffixes)
  require(latest == (f'{m.prefix}_{want[-1]}' if want else None), f'{what}: latest complete checkpoint', got=latest, want=want, files=sorted(after))
  if latest is not None:
    s = want[-1]
    if m.kind == 'part':
      equal(partitioned.restore_checkpoint(latest, None), data(s), f'{what}: restored step {s}')
    else:
      p = os.path.join(d, m.final_names(s)[0])
      tree = base.restore_checkpoint(p)
      attempts = [a for a in range(known['attempts'] + 1) if np.array_equal(data(s, a)['w'], tree['w'])]
      require(attempts, f'{what}: restored step {s} is none of the saved contents')
      equal(tree, data(s, attempts[0]), f'{what}: restored step {s}')
      equal(base.restore_checkpoint(p, data(0)), data(s, attempts[0]), f'{what}: restored step {s} with a template')
  return partial


def step_in(m, f):
  """The step that a (possibly temporary) file belongs to."""
  mm = re.search(re.escape(os.path.basename(m.prefix)) + r'_([0-9]+)(?![0-9_])', f)
  return int(mm.group(1)) if mm else None


@st.composite
def hist_cases(draw):
  kind = draw(st.sampled_from(['part', 'part', 'single', 'suffix']))
  n = draw(st.integers(0, 4))
  steps = st.sampled_from([1, 2, 3, 9, 10, 11, 100, 99_999_999, 10**9])
  ops = []
  for i in range(n + 1):
    if draw(st.integers(0, 4)) < (4 if i else 5):
      op = dict(op='save', step=draw(steps), overwrite=draw(st.integers(0, 4)) > 0)
    else:
      op = dict(op='remove', steps=draw(st.lists(steps, min_size=1, max_size=3, unique=True)), shard=draw(st.sampled_from([None, None, '-00001-of-00002', '.index', '-of-00002'])))
    # The fault is a number of points, or none.
    op['fault'] = draw(st.sampled_from([None, None, 'crash', 'crash', 'error']))
    op['at'] = draw(st.integers(0, 40))
    ops.append(op)
  return dict(kind=kind, prefix=draw(st.sampled_from(PREFIXES)), dir=draw(st.sampled_from(DIRS)), ops=ops, vec=draw(st.lists(st.lists(st.integers(0, 9), min_size=6, max_size=6), min_size=2, max_size=2)))


def new_contents(m, op, ctxdir):
  """The complete content of the files after the save: made in another directory."""
  if op['op'] != 'save':
    return {}
  other = Model(ctxdir, os.path.basename(m.prefix), m.kind)
  pool = ThreadPool(1)
  do_save(other, op['step'], op['attempt'], True, pool)
  pool.close()
  d = os.path.dirname(other.prefix)
  return {f: read(os.path.join(d, f)) for f in os.listdir(d)}


def run_hist(case, ctx):
  with scratch() as root:
    m = Model(os.path.join(root, case.get('dir', 'work')), case['prefix'], case['kind'])
    known = dict(finals=set(), steps=set(), attempts=len(case['ops']), new={})
    pool = ThreadPool(1)
    for i, op in enumerate(case['ops']):
      op = dict(op, attempt=i)
      last = i == len(case['ops']) - 1
      known['new'] = new_contents(m, op, os.path.join(root, f'new{i}'))
      if op['op'] == 'save':
        known['finals'] |= set(m.final_names(op['step']))
        known['steps'].add(op['step'])
        got = set(known['new'])
        require(got == set(m.final_names(op['step'])), 'files of a complete save', got=sorted(got), want=m.final_names(op['step']))
      before = contents(m, None)
      if not last:
        fs = FaultFS(op['at'] if op['fault'] else None, op['fault'] or 'crash')
        err = run_op(m, op, fs, pool, None)
        expected_error(op, before, m, err, fs, 'op %d' % i)
        check_state(m, before, op, err, known, ctx, f'after op {i} ({op["op"]}, {op["fault"]}@{op["at"]})')
        continue
      # Enumerate every fault point of the last operation.
      snap = os.path.join(root, 'snap')
      work = os.path.dirname(m.prefix)
      if os.path.isdir(work):
        shutil.copytree(work, snap)

      def reset():
        if os.path.isdir(work):
          shutil.rmtree(work)
        if os.path.isdir(snap):
          shutil.copytree(snap, work)
      fs = FaultFS()
      err = run_op(m, op, fs, pool, None)
      expected_error(op, before, m, err, fs, 'last op')
      check_state(m, before, op, err, known, ctx, 'after the last operation')
      points = fs.count
      # The thorough and the quick tier enumerate the same points: all of them.
      for kind in ('crash', 'error'):
        for k in range(points):
          reset()
          fs = FaultFS(k, kind)
          err = run_op(m, op, fs, pool, None)
          if kind == 'crash' and err is None:
            raise Violation(f'a crash at point {k} was swallowed')
          part = check_state(m, before, op, err, known, ctx, f'{kind} at point {k}/{points} {fs.trace[-1] if fs.trace else None}')
          ctx.more(1)
          if part:
            ctx.nontriv(kind, k)
          # A retry after the failure succeeds and repairs everything.
          if k % 5 == i % 5:
            mid = contents(m, None)
            retry = dict(op, overwrite=True) if op['op'] == 'save' else op
            err = run_op(m, retry, FaultFS(), pool, None)
            require(err is None, f'retry after a {kind} at point {k} failed', err=err)
            check_state(m, mid, retry, None, known, ctx, f'retry after a {kind} at point {k}')
      # Arbitrary interleavings of the writers.
      if op['op'] == 'save' and m.kind == 'part':
        for vec in case['vec']:
          reset()
          names = m.final_names(op['step'])
          fs = FaultFS(per_file={f: vec[j % len(vec)] for j, f in enumerate(names)})
          p8 = ThreadPool(len(names) * 2)
          err = run_op(m, op, fs, p8, None)
          p8.close()
          if check_state(m, before, op, err, known, ctx, f'writers stopped at {fs.per_file}'):
            ctx.nontriv('vec', vec)
          ctx.more(1)
      ctx.event(f'{m.kind}:{op["op"]}')
    pool.close()


def expected_error(op, before, m, err, fs, what):
  """Without a fault, only a refused overwrite is an error."""
  if fs.fault_at is not None and fs.count > fs.fault_at:
    return
  if op['op'] == 'save' and not op['overwrite'] and any(f in before for f in m.final_names(op['step'])):
    require(err is not None, f'{what}: overwrite=False replaced an existing checkpoint')
    return
  require(err is None, f'{what}: failed', err=err)


# --- discovery on arbitrary listings ---
@st.composite
def list_cases(draw):
  files = []
  for _ in range(draw(st.integers(0, 5))):
    step = draw(st.sampled_from([0, 1, 2, 9, 10, 99, 100, 99_999, 100_000, 10**7, 10**9, 2**31 + 1, 2**53 + 1]))
    for suf in draw(st.lists(st.sampled_from(['', '.index', '.data', '.foo']), min_size=1, max_size=3, unique=True)):
      n = draw(st.sampled_from([0, 0, 1, 2, 3, 10]))
      if n == 0:
        files.append([step, suf, '', False, ''])
      else:
        missing = draw(st.sampled_from([None, None, None, 0, n - 1]))
        for i in range(n):
          if i != missing:
            files.append([step, suf, f'-{i:05d}-of-{n:05d}', False, ''])
    if draw(st.integers(0, 3)) == 0:
      files.append([step, draw(st.sampled_from(['', '.index', '.data', '.foo'])), draw(st.sampled_from(['', '-00000-of-00003'])), True, ''])
    if draw(st.integers(0, 3)) == 0:
      files.append([draw(st.sampled_from([3, 7, 1000])), draw(st.sampled_from(['', '.index', '.data', '.foo'])), '', draw(st.booleans()), draw(st.sampled_from(['_best', '2', '_7', '.x']))])
  return dict(prefix=draw(st.sampled_from(PREFIXES)), dir=draw(st.sampled_from(DIRS)), files=files, suffixes=draw(st.sampled_from([None, [], ['.index'], ['.data'], ['.index', '.data'], ['.foo'], ['.index', '.foo']])),
              real=draw(st.booleans()))


def run_list(case, ctx):
  with scratch() as root:
    d = os.path.join(root, case.get('dir', 'work'))
    os.makedirs(d)
    # A directory that the name of the other one matches when taken as a pattern.
    if 'aXc' not in d:
      os.makedirs(os.path.join(root, 'aXc'))
      for f in (f'{case["prefix"]}_77', f'.tmp.{case["prefix"]}_1'):
        with open(os.path.join(root, 'aXc', f), 'wb'):
          pass
    prefix = os.path.join(d, case['prefix'])
    groups, temps, steps = {}, set(), set()
    for step, suf, shard, tmp, other in case['files']:
      name = ('.tmp.' if tmp else '') + f'{case["prefix"]}{other}_{step}{suf}{shard}'
      with open(os.path.join(d, name), 'wb'):
        pass
      if other:
        continue
      if tmp:
        temps.add(step)
      else:
        steps.add(step)
        i, n = map(int, shard[1:].split('-of-')) if shard else (0, 1)
        groups.setdefault((step, suf, n), set()).add(i)
    want = []
    for s in sorted(steps):
      need = set(case['suffixes'] or [''])
      have = {suf for (st_, suf, _) in groups if st_ == s}
      full = all(len(v) == n for (st_, _, n), v in groups.items() if st_ == s)
      if s not in temps and full and need <= have:
        want.append(s)
    for dec in (False, True):
      got = list(base.iterate_complete_steps_for_prefix(prefix, case['suffixes'], decreasing=dec))
      require(got == (want[::-1] if dec else want), 'complete steps of a listing', got=got, want=want, decreasing=dec, files=sorted(os.listdir(d)))
    got = base.find_latest_complete_checkpoint_for_prefix(prefix, case['suffixes'])
    require(got == (f'{prefix}_{want[-1]}' if want else None), 'latest complete checkpoint', got=got, want=want)
    if want and len(steps) > len(want):
      ctx.nontriv()


# --- shard suffixes ---
@st.composite
def suffix_cases(draw):
  n = draw(st.sampled_from([1, 2, 3, 10, 100, 99999, 123456]))
  return dict(path=draw(st.sampled_from(['', '/a/b.c/', '/x_3/'])) + draw(st.sampled_from(['ckpt', 'ckpt_3', 'ckpt_3.data', 'a-b', 'x-00001-of-00002', 'ckpt_1.index', 'a.b_7.data'])), n=n, i=draw(st.integers(0, n - 1)))


def run_suffix(case, ctx):
  p = base.add_shard_suffix(case['path'], case['i'], case['n'])
  require(base.remove_shard_suffix(p) == case['path'], 'removing the added shard suffix', got=base.remove_shard_suffix(p), want=case['path'])
  require(base.remove_shard_suffix(case['path']) == re.sub(r'-[0-9]+-of-[0-9]+$', '', case['path']), 'removing the shard suffix', got=base.remove_shard_suffix(case['path']))
  m = re.fullmatch(re.escape(case['path']) + r'-([0-9]{5,})-of-([0-9]{5,})', p)
  require(m is not None and int(m.group(1)) == case['i'] and int(m.group(2)) == case['n'], 'shard suffix', got=p)
  if case['n'] > 1:
    ctx.nontriv()


SUBS = [
    Sub('histories', hist_cases(), run_hist, quick=105, thorough=3500),
    Sub('listings', list_cases(), run_list, quick=420, thorough=6000),
    Sub('suffixes', suffix_cases(), run_suffix, quick=60, thorough=200, max_shards=1),
]
