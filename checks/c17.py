"""C17: few-shot evaluation."""
import itertools
import math
from unittest import mock

from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.evaluate import fewshot
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu
from checks.c15 import Dataset, Writer

TIME_GUARD = {'quick': 420, 'thorough': 2700}
DEVICES = jax.devices()
VALID = '__valid__'
TOL = 0.02
MAX_SUBSETS = 40


def scores(x, y, C, xt, l2):
  """Scores of the regularised least-squares classifier, in float64, with the dual (kernel) form when there are fewer points than dimensions and the primal form otherwise."""
  x, xt = x.astype(np.float64), xt.astype(np.float64)
  mean, std = x.mean(0), x.std(0) + 1e-5
  aug = lambda a: np.concatenate([(a - mean) / std, np.full((len(a), 1), 100.0)], 1)
  a, t = aug(x), 2.0 * np.eye(C)[y] - 1.0
  if len(a) <= a.shape[1]:
    w = a.T @ np.linalg.solve(a @ a.T + l2 * np.eye(len(a)), t)
  else:
    w = np.linalg.solve(a.T @ a + l2 * np.eye(a.shape[1]), a.T @ t)
  return aug(xt) @ w


def interval(x, y, C, xt, yt, l2):
  """Number of test examples certainly right, and possibly right within rounding."""
  s = scores(x, y, C, xt, l2)
  tol = TOL * (1 + np.abs(s).max(1))
  certain = possible = 0
  for i, c in enumerate(yt):
    others = np.delete(s[i], c) if C > 1 else np.array([-np.inf])
    certain += s[i, c] > others.max() + tol[i] if C > 1 else 1
    possible += s[i, c] >= others.max() - tol[i] if C > 1 else 1
  return certain, possible


def subsets(y, C, shot):
  """All choices of min(shot, available) examples per class, or None if too many."""
  per = []
  n = 1
  for c in range(C):
    idx = np.where(y == c)[0]
    k = min(shot, len(idx))
    n *= math.comb(len(idx), k)
    if n > MAX_SUBSETS:
      return None
    per.append(list(itertools.combinations(idx, k)))
  return [np.array([i for p in choice for i in p], int) for choice in itertools.product(*per)]


def ok_subset(x):
  return len(x) > 1 and x.std(0).min() > 0.05


@st.composite
def cases(draw):
  C = draw(st.integers(2, 5))
  kind = draw(st.sampled_from(['all', 'few', 'few', 'many']))
  counts = [draw(st.integers(0 if kind == 'all' else 1, 6 if kind != 'few' else 3)) for _ in range(C)]
  if sum(counts) < 2:
    counts[0] += 2
  return dict(C=C, counts=counts, kind=kind, D=draw(st.integers(1, 12)), nte=draw(st.integers(1, 30)), shots=draw(st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True)) + ([50] if kind == 'all' else []),
              l2=draw(st.lists(st.sampled_from([0.5, 1.0, 4.0, 16.0, 256.0]), min_size=1, max_size=3, unique=True)), bs=draw(st.integers(1, 9)), bs2=draw(st.integers(1, 9)), seed=draw(seeds), pseed=draw(st.integers(0, 1000)), sep=draw(st.sampled_from([0.3, 1.0, 3.0])), junk=draw(st.sampled_from([0.0, 1e6])))


def data(rng, case):
  C, D = case['C'], case['D']
  mu = rng.normal(size=(C, D)) * case['sep']
  y = np.repeat(np.arange(C), case['counts'])
  y = y[rng.permutation(len(y))]
  x = (mu[y] + rng.normal(size=(len(y), D)) + 0.7).astype(np.float32)
  yt = rng.integers(0, C, case['nte'])
  xt = (mu[yt] + rng.normal(size=(len(yt), D)) + 0.7).astype(np.float32)
  return x, y.astype(np.int32), xt, yt.astype(np.int32)


def batches(rng, x, y, bs, C, junk, nd=1):
  """Batches of bs with padding scattered everywhere, including whole batches."""
  bs = bs * nd
  n = len(y)
  total = -(-n // bs) * bs + bs * int(rng.integers(0, 2))
  pos = np.sort(rng.permutation(total)[:n]) if rng.random() < 0.7 else np.arange(n)
  img = (junk * rng.normal(size=(total, x.shape[1]))).astype(np.float32)
  lab = rng.integers(0, C, total).astype(np.int32)
  v = np.zeros(total, bool)
  img[pos], lab[pos], v[pos] = x, y, True
  return [{'image': img[i:i + bs], 'label': lab[i:i + bs], VALID: v[i:i + bs]} for i in range(0, total, bs)]


def check_acc(acc, x, y, C, xt, yt, shot, l2, ctx, what):
  acc = float(np.asarray(acc))
  sub = subsets(y, C, shot)
  if sub is None:
    ctx.event('too_many_subsets')
    return None
  n = len(yt)
  matches, poss = 0, []
  for s in sub:
    if not ok_subset(x[s]):
      return None
    lo, hi = interval(x[s], y[s], C, xt, yt, l2)
    poss.append((lo, hi))
    matches += lo - 1e-3 <= acc * n <= hi + 1e-3
  require(matches, f'{what}: accuracy of no choice of {shot} examples per class', got=acc * n, of=n, possible=sorted(set(poss)), l2=l2, examples=np.bincount(y, minlength=C).tolist(), dim=x.shape[1])
  return len(sub)


def run_metrics(case, ctx):
  rng = np.random.default_rng(case['seed'])
  x, y, xt, yt = data(rng, case)
  C = case['C']

  def rep(state, variables, images, labels, mask):
    return state + 1, images * variables, labels, mask

  def once(bs, bs2, shots, l2):
    return fewshot._compute_fewshot_metrics(representation_fn=rep, shots=shots, l2_regs=l2, num_classes=C, state=0, variables=np.float32(1), tr_iter=batches(rng, x, y, bs, C, case['junk']), te_iter=batches(rng, xt, yt, bs2, C, case['junk']), seed=case['pseed'])

  res = once(case['bs'], case['bs2'], case['shots'], case['l2'])
  require(set(res) == set(itertools.product(case['shots'], case['l2'])), 'results for other shots or regularisations', got=sorted(res))
  for (shot, l2), acc in res.items():
    npu.same_shape(acc, (), 'accuracy')
    n = check_acc(acc, x, y, C, xt, yt, shot, l2, ctx, 'few-shot')
    ctx.more(1)
    if n is not None:
      ctx.nontriv(shot, l2)
      ctx.event('one_subset' if n == 1 else 'several_subsets')
  # Independent of batching, padding and of which other shots/regularisations are asked for.
  shot, l2 = case['shots'][-1], case['l2'][0]
  again = once(case['bs2'], case['bs'], [shot], [l2])
  npu.close(again[shot, l2], res[shot, l2], 'accuracy with other batches and fewer shots', rtol=1e-6)


@st.composite
def action_cases(draw):
  nds = draw(st.sampled_from([1, 2, 3, 3, 4]))
  ds = [draw(cases()) for _ in range(nds)]
  return dict(ds=ds, shots=draw(st.lists(st.sampled_from([1, 2, 3, 60]), min_size=1, max_size=2, unique=True)), l2=draw(st.integers(0, 3).flatmap(lambda n: st.lists(st.sampled_from([0.5, 1.0, 4.0, 16.0, 256.0, 4096.0, 1e5]), min_size=max(1, n), max_size=max(1, n), unique=True))), nd=draw(st.sampled_from([1, 1, 2, 4])),
              seeds=draw(st.sampled_from([1, 1, 2, 3])), fold=draw(st.booleans()), rngs=draw(st.sampled_from([[], ['dropout'], ['a', 'b']])), main=draw(st.sampled_from([None, 0, -1])), seed=draw(seeds), bs=draw(st.integers(1, 5)), prefetch=draw(st.sampled_from([None, 0, 2])),
              share=draw(st.booleans()))


@st.composite
def choice_cases(draw):
  """Several tasks whose accuracies depend on the regularisation."""
  D = draw(st.integers(5, 12))
  ds = [dict(C=C, counts=[draw(st.integers(2, 5)) for _ in range(C)], kind='few', D=D, nte=120, shots=[2], l2=[1.0], bs=40, bs2=40, seed=0, pseed=0, sep=draw(st.sampled_from([0.3, 0.6, 1.0])), junk=0.0)
        for C in draw(st.lists(st.integers(2, 4), min_size=3, max_size=5))]
  return dict(ds=ds, shots=[draw(st.integers(2, 3))], l2=draw(st.lists(st.sampled_from([0.5, 1.0, 10., 100., 1000., 1e4, 1e5, 1e6]), min_size=3, max_size=5, unique=True)), nd=1, seeds=draw(st.sampled_from([1, 1, 2])), fold=True, rngs=[],
              main=draw(st.sampled_from([None, -1])), seed=draw(seeds), bs=40, prefetch=None, share=False)


def run_action(case, ctx):
  rng = np.random.default_rng(case['seed'])
  D = case['ds'][0]['D']
  info, raw = {}, {}
  C_of = {}
  for i, d in enumerate(case['ds']):
    d = dict(d, D=D)
    name = f'tf/{i}'
    raw[f'd{i}'] = data(rng, d)
    C_of[f'd{i}'] = d['C']
    x, y, xt, yt = raw[f'd{i}']
    info[name, 'train'] = batches(rng, x, y, case['bs'], d['C'], d['junk'], case['nd'])
    info[name, 'test'] = batches(rng, xt, yt, case['bs'], d['C'], d['junk'], case['nd'])
  datasets = {f'd{i}': (f'tf/{i}', 'train', 'test') for i in range(len(case['ds']))}
  if case['share'] and len(case['ds']) > 1:
    # Two tasks with the same training data and another test split.
    info['tf/0', 'test1'] = batches(rng, *raw['d0'][2:], case['bs'], C_of['d0'], 1.0, case['nd'])
    datasets['d1'] = ('tf/0', 'train', 'test1')
    raw['d1'] = raw['d0']
    C_of['d1'] = C_of['d0']

  def get_dataset(*, variant, name, split, **kw):
    require(kw == {'batch_size': 7}, 'options of the dataset', got=kw)
    return Dataset(info[name, split])

  def builder(name):
    m = mock.MagicMock()
    m.info.features = {'label': mock.MagicMock(num_classes=C_of['d' + name[3:]])}
    return m

  seen = []

  def apply_fn(variables, images, rngs=None):
    require(set(rngs) == set(case['rngs']), 'rngs given to the model', got=sorted(rngs))
    for k in sorted(rngs):
      jax.debug.callback(lambda v, k=k: seen.append((k, tuple(np.asarray(v).ravel().tolist()))), rngs[k])
    return images * variables['params']['s'], {'aux': 1.0}

  devs = np.array(DEVICES[:case['nd']])
  mesh = jax.sharding.Mesh(devs.reshape(-1, 1), ('expert', 'replica'))

  def run(l2s, steps):
    w = Writer()
    with mock.patch.object(fewshot.vmoe.data.input_pipeline, 'get_dataset', get_dataset), mock.patch.object(fewshot.tfds, 'builder', builder), mesh:
      act = fewshot.FewShotPeriodicAction(shots=case['shots'], l2_regs=l2s, metric_writer=w, datasets=datasets, apply_fn=apply_fn, rng_keys=case['rngs'], seed=5, seed_fold_in_step=case['fold'], seeds_per_step=case['seeds'],
                                          main_task=None if case['main'] is None else (f"d{len(case['ds']) - 1 if case['main'] else 0}", case['shots'][0]), on_steps=steps, prefetch_to_device=case['prefetch'], batch_size=7)
      variables = {'params': {'s': jnp.float32(1)}}
      for s in range(1, max(steps) + 1):
        act(s, variables=variables, extra=s / 2)
        if s not in steps:
          require(s not in w.scalars, 'few-shot evaluation at a step not asked for', step=s)
    jax.effects_barrier()
    return w.scalars

  names = [n if case['seeds'] == 1 else f'{n}-seed-{k}' for k in range(case['seeds']) for n in datasets]
  base = lambda n: n.split('-seed-')[0]
  single = {}
  steps = [2, 3] if len(case['l2']) == 1 else [2]
  for l2 in case['l2']:
    out = run([l2], steps)
    if l2 == case['l2'][0] and case['rngs'] and case['nd'] == 1:
      # Different randomness for each batch, seed and (if folded in) step.
      nb = sum(len(info[t[0], t[1]]) + len(info[t[0], t[2]]) for t in datasets.values())
      most = max(len(info[t[0], t[1]]) + len(info[t[0], t[2]]) for t in datasets.values())
      for k in case['rngs']:
        distinct = len({v for kk, v in seen if kk == k})
        require(distinct >= most * case['seeds'] * (len(steps) if case['fold'] else 1), 'randomness reused between batches, seeds or steps', distinct=distinct, batches=most, seeds=case['seeds'], steps=len(steps))
    for s in steps:
      for n, shot in itertools.product(names, case['shots']):
        key = f'fewshot/{n}/{shot}shot'
        require(key in out.get(s, {}), 'metric missing', key=key, got=sorted(out.get(s, {})))
        acc = out[s][key]
        x, y, xt, yt = raw[base(n)]
        k = check_acc(acc, x, y, C_of[base(n)], xt, yt, shot, l2, ctx, f'{n} at step {s}')
        ctx.more(1)
        if k is not None:
          ctx.nontriv(n, shot, l2, s)
        if s == 2:
          single[n, shot, l2] = float(acc)
        elif not case['fold']:
          npu.close(acc, single[n, shot, l2], 'a repeated evaluation differs', rtol=1e-6)
      require(float(out[s]['extra']) == s / 2, 'extra metric')
  if len(case['l2']) == 1:
    multi = out[2]
  else:
    multi = run(case['l2'], [2])[2]
  for shot in case['shots']:
    best = multi.get(f'fewshot/{shot}shot_best_l2')
    require(best in case['l2'], 'chosen regularisation is not one of the candidates', got=best, candidates=case['l2'])
    lo = {l: np.mean([sum(single[n, shot, o] < single[n, shot, l] for o in case['l2']) for n in names]) for l in case['l2']}
    hi = {l: np.mean([sum(single[n, shot, o] <= single[n, shot, l] for o in case['l2']) - 1 for n in names]) for l in case['l2']}
    require(all(hi[best] >= lo[l] - 1e-9 for l in case['l2']), 'the chosen regularisation does not have the best mean rank', shot=shot, chosen=best, accuracies={l: [single[n, shot, l] for n in names] for l in case['l2']})
    for n in names:
      npu.close(multi[f'fewshot/{n}/{shot}shot'], single[n, shot, best], f'accuracy reported for {n} is not the one of the chosen regularisation', rtol=1e-6)
  if case['main'] is not None:
    n, shot = f"d{len(case['ds']) - 1 if case['main'] else 0}", case['shots'][0]
    best = multi[f'fewshot/{shot}shot_best_l2']
    want = np.mean([single[m, shot, best] for m in names if base(m) == n])
    npu.close(multi.get(f'0/{n}/{shot}shot', np.nan), want, 'accuracy of the main task', rtol=1e-5)
  else:
    require(not [k for k in multi if k.startswith('0/')], 'main task reported although there is none')


@st.composite
def rank_cases(draw):
  l2 = draw(st.lists(st.sampled_from([0.5, 1.0, 4.0, 16.0, 256.0, 1e4]), min_size=1, max_size=6, unique=True))
  names = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'd', 'ee', 'a-seed']), min_size=1, max_size=5, unique=True))
  return dict(l2=l2, names=names, shots=draw(st.lists(st.sampled_from([1, 5, 10]), min_size=1, max_size=3, unique=True)), seeds=draw(st.sampled_from([1, 1, 2, 3])), seed=draw(seeds), main=draw(st.integers(-1, len(names) - 1)),
              prefix=draw(st.sampled_from(['0', 'main'])), report=draw(st.sampled_from(['fewshot', 'fs/x'])))


def run_rank(case, ctx):
  """The choice among given accuracies: those of the tasks are replaced by a table."""
  rng = np.random.default_rng(case['seed'])
  names, nseeds = case['names'], case['seeds']
  keys = list(itertools.product(case['shots'], case['l2']))
  # Distinct accuracies for each task and number of shots: ranks are without ties.
  table = {(n, k): {(s, l): float(a) for s in case['shots'] for l, a in zip(case['l2'], np.sort(rng.permutation(1000)[:len(case['l2'])] / 1000.0)[rng.permutation(len(case['l2']))])} for n in names for k in range(nseeds)}
  calls = []

  def fake(*args, **kw):
    classes = [a for a in list(args) + list(kw.values()) if isinstance(a, int) and 7000 <= a < 7000 + len(names)]
    if len(classes) != 1:
      raise Skip()
    n = names[classes[0] - 7000]
    k = sum(c == n for c in calls)
    calls.append(n)
    return dict(table[n, k])

  def builder(name):
    m = mock.MagicMock()
    m.info.features = {'label': mock.MagicMock(num_classes=7000 + names.index(name[3:]))}
    return m

  w = Writer()
  with mock.patch.object(fewshot.vmoe.data.input_pipeline, 'get_dataset', lambda **kw: Dataset([{'image': np.zeros((1, 1), np.float32), 'label': np.zeros(1, np.int32), VALID: np.ones(1, bool)}])), mock.patch.object(fewshot.tfds, 'builder', builder), mock.patch.object(fewshot, '_compute_fewshot_metrics', fake), jax.sharding.Mesh(np.array(DEVICES[:1]).reshape(1, 1), ('expert', 'replica')):
    act = fewshot.FewShotPeriodicAction(shots=case['shots'], l2_regs=case['l2'], metric_writer=w, datasets={n: (f'tf/{n}', 'train', 'test') for n in names}, apply_fn=lambda v, x, rngs=None: (x, {}), rng_keys=(), seed=5, seeds_per_step=nseeds,
                                        main_task=None if case['main'] < 0 else (names[case['main']], case['shots'][0]), main_task_prefix=case['prefix'], report_progress_name=case['report'], on_steps=[1])
    try:
      act(1, variables={'params': {}})
    except Skip:
      ctx.event('cannot_replace')
      return
  if len(calls) != len(names) * nseeds:
    ctx.event('cannot_replace')
    return
  got = w.scalars[1]
  best = {}
  for s in case['shots']:
    tasks = list(table)
    mean = {l: np.mean([sum(table[t][s, o] < table[t][s, l] for o in case['l2']) for t in tasks]) for l in case['l2']}
    best[s] = got.get(f"{case['report']}/{s}shot_best_l2")
    require(best[s] in mean, 'chosen regularisation is not one of the candidates', got=best[s])
    require(mean[best[s]] >= max(mean.values()) - 1e-9, 'the chosen regularisation does not have the best mean rank', chosen=best[s], ranks=mean, accuracies={str(t): table[t] for t in tasks})
    for n, k in table:
      name = n if nseeds == 1 else f'{n}-seed-{k}'
      npu.close(got.get(f"{case['report']}/{name}/{s}shot", np.nan), table[n, k][s, best[s]], f'accuracy reported for {name}', rtol=1e-6)
  if case['main'] >= 0:
    n, s = names[case['main']], case['shots'][0]
    npu.close(got.get(f"{case['prefix']}/{n}/{s}shot", np.nan), np.mean([table[n, k][s, best[s]] for k in range(nseeds)]), 'accuracy of the main task', rtol=1e-6)
  ctx.more(len(keys))
  if len(case['l2']) > 1 and len(table) > 1:
    ctx.nontriv(len(case['l2']), len(table), len(case['shots']))


class Skip(Exception):
  """The table could not be put in place of the accuracies."""


SUBS = [
    Sub('metrics', cases(), run_metrics, quick=160, thorough=4000),
    Sub('action', action_cases(), run_action, quick=50, thorough=1500),
    Sub('choice', choice_cases(), run_action, quick=14, thorough=600),
    Sub('rank', rank_cases(), run_rank, quick=100, thorough=3000),
]
