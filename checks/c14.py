"""C14: evaluation and training data of every process."""
import atexit
import collections
import contextlib
import os
import shutil
import tempfile
from unittest import mock

from hypothesis import strategies as st
import jax
import ml_collections
import numpy as np
import tensorflow as tf
import tensorflow_datasets.public_api as tfds
from vmoe.data import input_pipeline
from vlib.core import Sub, require, seeds

TIME_GUARD = {'quick': 420, 'thorough': 2700}
SIZES = [1, 2, 3, 5, 8, 13, 16, 31, 64, 100]
tfds.disable_progress_bar()


class VerifToy(tfds.core.GeneratorBasedBuilder):
  VERSION = tfds.core.Version('1.0.0')

  def _info(self):
    return tfds.core.DatasetInfo(builder=self, features=tfds.features.FeaturesDict({
        'image': tfds.features.Image(shape=(2, 2, 3), encoding_format='png'), 'label': tfds.features.ClassLabel(num_classes=10), 'id': np.int64, 'w': tfds.features.Tensor(shape=(2,), dtype=np.float32), 'tags': tfds.features.Sequence(np.int64)}))

  def _split_generators(self, dl_manager):
    return {f's{n}': self._gen(n) for n in SIZES}

  def _generate_examples(self):
    raise NotImplementedError

  def _gen(self, n):
    for i in range(n):
      yield i, example(1000 * n + i)


def example(i):
  return {'image': np.full((2, 2, 3), 1 + i % 200, np.uint8), 'label': i % 10, 'id': i, 'w': np.asarray([i + 0.5, -i], np.float32), 'tags': tags(i)}


def tags(i):
  return sorted({i % 10, i * i % 7}) if i % 3 else []


_DIR = []


def data_dir():
  if not _DIR:
    _DIR.append(tempfile.mkdtemp(prefix='c14_'))
    atexit.register(shutil.rmtree, _DIR[0], True)
  return _DIR[0]


_TRUTH = {}
_BUILDER = []


def truth(split):
  """The ids of the examples of a split, read directly."""
  if split not in _TRUTH:
    if not _BUILDER:
      _BUILDER.append(VerifToy(data_dir=os.path.join(data_dir(), 'truth')))
      _BUILDER[0].download_and_prepare()
    _TRUTH[split] = sorted(int(e['id']) for e in tfds.as_numpy(_BUILDER[0].as_dataset(split=split)))
  return _TRUTH[split]


@contextlib.contextmanager
def process(p, P, local):
  with mock.patch.object(jax, 'process_index', return_value=p), mock.patch.object(jax, 'process_count', return_value=P), \
       mock.patch.object(jax, 'device_count', return_value=P * local), mock.patch.object(jax, 'local_device_count', return_value=local):
    yield


@st.composite
def splits(draw):
  n = draw(st.sampled_from(SIZES))
  kind = draw(st.sampled_from(['all', 'slice', 'percent', 'sum', 'tail']))
  if kind == 'slice':
    a = draw(st.integers(0, n - 1))
    return f's{n}[{a}:{draw(st.integers(a + 1, n))}]'
  if kind == 'percent' and n >= 8:
    return f's{n}[{draw(st.sampled_from([0, 10, 25]))}%:{draw(st.sampled_from([50, 75, 100]))}%]'
  if kind == 'sum':
    m = draw(st.sampled_from([k for k in SIZES if k != n]))
    return f's{n}+s{m}'
  if kind == 'tail' and n > 2:
    return f's{n}[-{draw(st.integers(1, n))}:]'
  return f's{n}'


PROCESS = ['keep("id","w","image")|decode|central_crop(2)', 'keep("id","w","image")|decode|central_crop(2)|value_range(-1,1)', 'decode|central_crop(2)|copy("id","idx")|onehot(10, key="label", outkey="labels")|keep("id","idx","image","labels","w")', 'keep("id","w")',
           'ignore_no_labels(labels_key="tags")|onehot(10, key="tags")|keep("id","tags","w")']


@st.composite
def cases(draw):
  return dict(split=draw(splits()), P=draw(st.sampled_from([1, 1, 2, 3, 4, 5])), local=draw(st.sampled_from([1, 1, 2])), mult=draw(st.sampled_from([1, 2, 3, 4, 7, 16, 40])), process=draw(st.sampled_from(PROCESS)),
              variant=draw(st.sampled_from(['eval', 'test', 'val', 'validation'])), cache=draw(st.sampled_from([None, None, 'loaded', 'batched'])), prefetch=draw(st.sampled_from([None, 1, 'autotune'])), via=draw(st.booleans()),
              seed=draw(st.sampled_from([None, 3])), calls=draw(st.sampled_from([1, 4, 128])))


def kwargs(case):
  return dict(name='verif_toy', data_dir=data_dir(), split=case['split'], batch_size=case['P'] * case['local'] * case['mult'], process=case['process'], cache=case['cache'], prefetch=case['prefetch'], num_parallel_calls=case['calls'], shuffle_seed=case['seed'])


def get(case, variant, **extra):
  kw = dict(kwargs(case), **extra)
  if case['via']:
    cfg = {variant: {k: v for k, v in kw.items()}}
    cfg[variant]['prefetch_device'] = 2
    return input_pipeline.get_datasets(ml_collections.ConfigDict(cfg))[variant]
  return input_pipeline.get_dataset(variant=variant, **kw)


def check_example(case, batch, i, eid, what):
  ex = example(eid)
  proc = case['process']
  npw = np.asarray(batch['w'][i])
  require(np.array_equal(npw, ex['w']), f'{what}: feature of another example', id=eid, got=npw, want=ex['w'])
  if 'image' in batch:
    want = ex['image'].astype(np.float64)
    if 'value_range' in proc:
      want = want / 255. * 2 - 1
    require(np.allclose(np.asarray(batch['image'][i], np.float64), want, atol=1e-5), f'{what}: image of another example or not preprocessed', id=eid, got=batch['image'][i].ravel()[:3], want=want.ravel()[:3])
  if 'labels' in batch:
    require(np.array_equal(batch['labels'][i], np.eye(10)[ex['label']]), f'{what}: labels', id=eid)
  if 'tags' in batch:
    require(np.array_equal(batch['tags'][i], [float(k in tags(eid)) for k in range(10)]), f'{what}: tags', id=eid)
  if 'idx' in batch:
    require(int(batch['idx'][i]) == eid, f'{what}: copied feature', id=eid)


def some_process_empty(case):
  return all(len(truth(part)) < case['P'] for part in case['split'].split('+'))


def run_eval(case, ctx):
  ids = truth(case['split'])
  N, P = len(ids), case['P']
  if some_process_empty(case):
    ctx.event('process_without_examples')
    return
  bs = case['local'] * case['mult']
  dataset, seen, counts = None, [collections.Counter(), collections.Counter()], []
  fakes, mine = 0, []
  for p in range(P):
    with process(p, P, case['local']):
      dataset = get(case, case['variant'])
      for rep in range(2):
        if rep:
          dataset.reset()
        nb = 0
        for batch in dataset:
          nb += 1
          require('__valid__' in batch, 'no valid flag in evaluation data')
          valid = np.asarray(batch['__valid__'])
          require(valid.dtype == np.bool_ and valid.shape == (bs,), 'valid flag', dtype=valid.dtype, shape=valid.shape, want=bs)
          for k, v in batch.items():
            require(np.shape(v)[0] == bs, 'batch not full', key=k, got=np.shape(v), want=bs)
          for i in range(bs):
            eid = int(batch['id'][i])
            if 'ignore' in case['process'] and eid:
              require(bool(valid[i]) == bool(tags(eid)), 'an example that the preprocessing marks as not valid is valid, or the other way around', id=eid, valid=valid[i])
              ctx.event('valid' if valid[i] else 'ignored')
            if valid[i] or ('ignore' in case['process'] and eid):
              seen[rep][eid] += 1
              check_example(case, batch, i, eid, 'evaluation')
            else:
              fakes += not rep
              for k, v in batch.items():
                require(not np.any(np.asarray(v[i])), 'a padding example is not zero', key=k, got=v[i])
        counts.append(nb)
        mine.append(sum(seen[rep].values()))
  want_batches = -(-max([b - a for a, b in zip([0] + mine[::2], mine[::2])]) // bs)
  require(set(counts) == {want_batches}, 'number of batches of each process and pass', got=counts, want=want_batches, examples=N, processes=P, batch=bs)
  want = collections.Counter(ids)
  for rep in range(2):
    require(seen[rep] == want, 'the examples of the split are not delivered exactly once', missing=sorted((want - seen[rep]).elements())[:10], extra=sorted((seen[rep] - want).elements())[:10])
  if fakes or P > 1:
    ctx.nontriv()
  if fakes:
    ctx.event('padded')
  with process(0, P, case['local']):
    n = input_pipeline.get_data_num_examples(ml_collections.ConfigDict(dict(kwargs(case), prefetch_device=1)))
  require(n == N, 'number of examples', got=n, want=N)


def run_train(case, ctx):
  ids = set(truth(case['split']))
  N, P = len(ids), case['P']
  if some_process_empty(case):
    return
  bs = case['local'] * case['mult']
  buf = 5
  owner = {}
  steps = max(2, -(-(2 * (N // P + 1) + 7) // bs))
  for p in range(P):
    with process(p, P, case['local']):
      dataset = get(case, 'train', shuffle_buffer=buf)
      it = iter(dataset)
      cnt = collections.Counter()
      for _ in range(steps):
        batch = next(it)
        for k, v in batch.items():
          require(np.shape(v)[0] == bs, 'training batch not full', key=k, got=np.shape(v), want=bs)
        if 'ignore' not in case['process']:
          require(np.all(batch.get('__valid__', True)), 'padding in training data')
        for i in range(bs):
          eid = int(batch['id'][i])
          require(eid in ids, 'training example not in the split', id=eid)
          check_example(case, batch, i, eid, 'training')
          cnt[eid] += 1
      own = -(-N // P) if p < N % P or N % P == 0 else N // P
      # The first n examples come from the first n + buffer examples of the repeated data.
      # (Parallel calls may overtake each other.)
      n, late = steps * bs, buf + case['calls']
      # (Every part of a sum of splits is divided over the processes on its own.)
      parts = case['split'].count('+')
      lim = -(-(n + late) // max(1, N // P - parts))
      require(max(cnt.values()) <= lim, 'an example is repeated more often than passes over the data', counts=max(cnt.values()), limit=lim)
      # Of the first n + buffer examples of the repeated data only those in the buffer are missing.
      low = (n + buf) // (-(-N // P) + parts)
      missing = sum(max(0, low - c) for c in cnt.values()) + max(0, N // P - parts - len(cnt)) * low
      require(missing <= late, 'examples are left out of the training data', missing=missing, low=low, counts=cnt, examples=N, processes=P)
      for e in cnt:
        require(owner.setdefault(e, p) == p, 'an example is given to two processes', id=e)
      require(len(cnt) <= own + 1, 'too many examples for a process')
  ctx.nontriv()


@st.composite
def bad_cases(draw):
  return dict(P=draw(st.sampled_from([2, 3, 4])), local=draw(st.sampled_from([1, 2, 4])), batch=draw(st.integers(1, 25)))


def run_bad(case, ctx):
  P, D = case['P'], case['P'] * case['local']
  bad = case['batch'] % D != 0
  with process(0, P, case['local']):
    try:
      input_pipeline.get_dataset(variant='test', name='verif_toy', data_dir=data_dir(), split='s16', batch_size=case['batch'], process='keep("id")')
    except ValueError:
      require(bad, 'a valid batch size is rejected', batch=case['batch'], devices=D)
      ctx.nontriv()
      return
  require(not bad, 'a batch size that is not a multiple of the devices is accepted', batch=case['batch'], devices=D)


SUBS = [
    Sub('eval', cases(), run_eval, quick=133, thorough=2000),
    Sub('train', cases(), run_train, quick=35, thorough=500),
    Sub('batch_size', bad_cases(), run_bad, quick=28, thorough=100),
]
