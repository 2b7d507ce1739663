"""Reference formulas of the router's auxiliary losses (float64)."""
import math
import numpy as np


def softmax(x, axis=-1):
  x = x - x.max(axis=axis, keepdims=True)
  e = np.exp(x)
  return e / e.sum(axis=axis, keepdims=True)


def importance(gates):  # (S, E)
  imp = gates.sum(0)
  return float((imp.std() / imp.mean())**2)


def gshard(gates):
  S, E = gates.shape
  frac = np.bincount(gates.argmax(1), minlength=E) / S
  return float(np.mean(frac * gates.mean(0)) * E**2)


def load(logits, noisy, noise_std, k):
  S, E = logits.shape
  p = np.zeros((S, E))
  for s in range(S):
    thr = sorted(noisy[s], reverse=True)[k - 1]
    for e in range(E):
      p[s, e] = 0.5 * math.erfc((thr - logits[s, e]) / noise_std / math.sqrt(2))
  pm = p.mean(0)
  return float((pm.std() / pm.mean())**2)


def margin(gates, k, batch_priority):
  """Smallest difference between values whose order decides the routing."""
  m = np.inf
  for row in gates:
    r = np.sort(row)[::-1]
    if len(r) > 1:
      # The order of all the first k (ranks) and of the k-th and k+1-th.
      m = min(m, np.min(-np.diff(r[:k + 1])))
  if batch_priority and len(gates) > 1:
    m = min(m, np.min(np.diff(np.sort(gates.max(1)))))
  return m


def margin_items(gates):
  m = np.inf
  if len(gates) > 1:
    m = np.min(np.diff(np.sort(gates, axis=0), axis=0))
  return m


def mixed(x, case):
  """Inputs of a router, and its options: in some cases the activations are bfloat16 and the router is computed in float32."""
  import jax.numpy as jnp
  if not case.get('mixed'):
    return x, {}
  return x.astype(jnp.bfloat16), dict(dtype=jnp.float32)
