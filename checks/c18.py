"""C18: ensemble losses and predictions."""
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.evaluate import ensemble
from vlib.core import Sub, require, seeds
from vlib import npu

SIZES = [(1, 1, 4), (4, 1, 3), (3, 2, 5), (2, 3, 3), (1, 4, 2), (5, 2, 1), (2, 2, 2)]
TIME_GUARD = {'quick': 420, 'thorough': 1800}


def lse(a, axis):
  m = a.max(axis, keepdims=True)
  m = np.where(np.isfinite(m), m, 0)
  with np.errstate(divide='ignore'):
    return np.log(np.exp(a - m).sum(axis)) + m.squeeze(axis)


def log_softmax(z):
  return z - lse(z, -1)[..., None]


def log_sigmoid(z):
  with np.errstate(over='ignore'):
    return -np.logaddexp(0, -z)


def mul(y, l):
  return np.where(y == 0, 0, y * np.where(y == 0, 0, l))


@st.composite
def cases(draw):
  B, M, C = draw(st.sampled_from(SIZES))
  return dict(B=B, M=M, C=C, scale=draw(st.sampled_from([0.1, 1, 1, 10, 100, 3000])), kind=draw(st.sampled_from(['normal', 'normal', 'disagree', 'ties', 'outlier', 'neginf'])),
              labels=draw(st.sampled_from(['onehot', 'soft', 'multi', 'zero', 'smooth'])), jit=draw(st.sampled_from([False, False, False, False, False, True])), seed=draw(seeds), dtype=draw(st.sampled_from(['float32', 'float32', 'float32', 'float32', 'float32', 'float32', 'bfloat16'])))


def make(case):
  rng = np.random.default_rng(case['seed'])
  B, M, C = case['B'], case['M'], case['C']
  z = rng.normal(size=(B, M, C)) * case['scale']
  if case['kind'] == 'ties':
    z = np.round(z / case['scale']) * case['scale']
  if case['kind'] == 'disagree':  # Confident members that contradict each other.
    z = case['scale'] * np.eye(C)[rng.integers(0, C, (B, M))]
  if case['kind'] == 'outlier':
    z[:, rng.integers(M)] *= 50
  if case['kind'] == 'neginf' and C > 1:
    mask = rng.random((B, M, C)) < 0.3
    mask[..., rng.integers(C)] = False
    z[mask] = -np.inf
  y = {'onehot': lambda: np.eye(C)[rng.integers(0, C, B)], 'soft': lambda: rng.dirichlet(np.ones(C), B), 'multi': lambda: rng.integers(0, 2, (B, C)).astype(float), 'zero': lambda: np.eye(C)[rng.integers(0, C, B)] * rng.integers(0, 2, (B, 1)),
       'smooth': lambda: np.eye(C)[rng.integers(0, C, B)] * 0.9 + 0.1 / C}[case['labels']]()
  z = jnp.asarray(z.reshape(B * M, C), case['dtype'])
  y = jnp.asarray(y, z.dtype)
  return z, y, npu.f64(z).reshape(B, M, C), npu.f64(y)


def check_pred(got, logp, B, tol, what):
  got = np.asarray(got)
  npu.same_shape(got, (B,), what)
  require(got.dtype.kind in 'iu' and (got >= 0).all() and (got < logp.shape[-1]).all(), f'{what}: not a class index', got=got)
  top = logp.max(-1)
  mine = logp[np.arange(B), got]
  require(np.all(mine >= top - tol * (1 + np.abs(top))), f'{what}: not the most probable class of the ensemble', got=got, logp=logp)


def run_losses(case, ctx):
  z, y, z64, y64 = make(case)
  B, M, C = z64.shape
  bf = case['dtype'] == 'bfloat16'
  tol = 4e-2 if bf else 2e-5
  scale = np.where(np.isfinite(z64), np.abs(z64), 0).max() + 1
  tight = dict(rtol=tol, atol=tol * scale * C)
  call = lambda f, *a: (jax.jit(f, static_argnums=(len(a) - 1,)) if case['jit'] else f)(*a)
  inf = not np.isfinite(z64).all()
  with np.errstate(invalid='ignore'):
    logp = log_softmax(z64)
    ens = lse(logp, 1) - np.log(M)
    got = call(ensemble.ensemble_softmax_xent_eval, z, y, M)
    npu.close(got, -mul(y64, ens).sum(-1), 'softmax evaluation loss', **tight)
    check_pred(call(ensemble.label_pred_ensemble_softmax, z, M), ens, B, tol, 'softmax prediction')
    if not inf:
      want = -mul(y64[:, None], logp).sum(-1).reshape(-1)
      npu.close(call(ensemble.ensemble_softmax_xent_train, z, y, M), want, 'softmax training loss', **tight)
      lp, ln = log_sigmoid(z64), log_sigmoid(-z64)
      want = -(y64[:, None] * lp + (1 - y64[:, None]) * ln).sum(-1).reshape(-1)
      npu.close(call(ensemble.ensemble_sigmoid_xent_train, z, y, M), want, 'sigmoid training loss', **tight)
      ep, en = lse(lp, 1) - np.log(M), lse(ln, 1) - np.log(M)
      npu.close(call(ensemble.ensemble_sigmoid_xent_eval, z, y, M), -(y64 * ep + (1 - y64) * en).sum(-1), 'sigmoid evaluation loss', **tight)
      check_pred(call(ensemble.label_pred_ensemble_sigmoid, z, M), ep, B, tol, 'sigmoid prediction')
  ctx.more(5)
  if M > 1:
    ctx.nontriv()
  else:
    ctx.event('single_member')


SUBS = [Sub('losses', cases(), run_losses, quick=560, thorough=20000)]
