"""Reference models of the routing algorithms (plain Python loops)."""
import numpy as np


def top_experts_reference(gates, k, capacity, batch_priority):
  """gates: (S, E). Returns {(item, expert): gate} of the kept assignments."""
  num_items, num_experts = gates.shape
  prefs = []
  for s in range(num_items):
    # Decreasing gate; ties: lower expert index.
    prefs.append(sorted(range(num_experts), key=lambda e: (-gates[s, e], e))[:k])
  order = list(range(num_items))
  if batch_priority:
    order.sort(key=lambda s: (-max(gates[s]), s))
  load = [0] * num_experts
  kept, dropped = {}, set()
  for rank in range(k):
    for s in order:
      e = prefs[s][rank]
      if load[e] < capacity:
        load[e] += 1
        kept[(s, e)] = gates[s, e]
      else:
        dropped.add((s, e))
  return kept, dropped


def top_items_reference(gates, capacity):
  num_items, num_experts = gates.shape
  kept = {}
  for e in range(num_experts):
    for s in sorted(range(num_items), key=lambda s: (-gates[s, e], s))[:capacity]:
      kept[(s, e)] = gates[s, e]
  return kept


def make_gates(rng, style, shape):
  """(..., S, E) float64 gates in the given style, exactly representable."""
  *lead, s, e = shape
  if style == 'softmax':
    x = rng.normal(size=shape)
    x = np.exp(x - x.max(-1, keepdims=True))
    g = x / x.sum(-1, keepdims=True)
  elif style == 'peaked':
    x = rng.normal(size=shape) * 0.3
    x[..., 0] += 2.0
    x = np.exp(x - x.max(-1, keepdims=True))
    g = x / x.sum(-1, keepdims=True)
  elif style == 'ties':
    g = rng.integers(0, 4, size=shape) / 4.0
  elif style == 'equal':
    g = np.full(shape, 1.0 / 4)
  elif style == 'itemties':  # Distinct within an item, items tied on their max.
    base = np.array([(i + 1) / 16 for i in range(e)])
    g = np.stack([rng.permutation(base) for _ in range(int(np.prod(lead)) * s)]).reshape(shape)
  elif style == 'sparse':  # Many exact zeros.
    g = np.where(rng.random(shape) < 0.6, 0.0, rng.integers(1, 64, size=shape) / 64.0)
  elif style == 'signed':
    g = rng.integers(-32, 32, size=shape) / 8.0
  elif style == 'large':
    g = rng.random(shape) * 1e6
  else:
    raise ValueError(style)
  return g + 0.0  # No negative zeros.


STYLES = ['softmax', 'peaked', 'ties', 'equal', 'itemties', 'sparse', 'signed', 'large']


def extract(dispatcher, num_groups, group_size):
  """Observes a dispatcher's decisions only through dispatch and combine.

  Returns (holds, weights): holds[e, slot, g*S+s] is what slot of expert e got of
  item (g, s); weights[g, s, e, slot] is the weight of that slot for the item.
  """
  import jax.numpy as jnp
  n = num_groups * group_size
  eye = jnp.eye(n, dtype=jnp.float32).reshape(num_groups, group_size, n)
  holds = dispatcher.dispatch(eye)
  e, slots = holds.shape[:2]
  basis = jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots)
  weights = dispatcher.combine(basis)
  return np.asarray(holds, np.float64), np.asarray(weights, np.float64).reshape(num_groups, group_size, e, slots)


def observe_ids(dispatcher, num_groups, group_size, rng):
  """Like extract, for big groups: every slot is probed with ids and labels.

  Returns (ids, out, probe): ids[e, slot] is the id (1-based, over all groups) of
  the item in the slot, 0 if empty; out[g, s] is the combination of probe[e, slot].
  """
  import jax.numpy as jnp
  n = num_groups * group_size
  ids = dispatcher.dispatch(jnp.arange(1, n + 1, dtype=jnp.float32).reshape(num_groups, group_size, 1))
  e, slots = ids.shape[:2]
  probe = rng.integers(1, 64, size=(e, slots, 2)).astype(np.float64)
  out = dispatcher.combine(jnp.asarray(probe, jnp.float32))
  return np.asarray(ids, np.float64)[..., 0], np.asarray(out, np.float64), probe


def check_ids(ids, out, probe, expected, G, S, E, C, what, require, rtol=1e-4):
  """expected: per group, {(item, expert): gate} that must be processed."""
  require(ids.shape == (E, G * C), f'{what}: dispatched data has a wrong shape', got=ids.shape, want=(E, G * C))
  require(out.shape == (G, S, 2), f'{what}: combined data has a wrong shape', got=out.shape)
  slot_of = {}
  for e in range(E):
    for c in range(G * C):
      i = ids[e, c]
      if i == 0:
        continue
      require(i == int(i) and 1 <= i <= G * S, f'{what}: slot {c} of expert {e} does not hold exactly one item', got=float(i))
      require((e, int(i) - 1) not in slot_of, f'{what}: item {int(i) - 1} occupies two slots of expert {e}')
      slot_of[(e, int(i) - 1)] = c
  want, scale = np.zeros((G, S, 2)), np.zeros((G, S, 2))
  total = 0
  for g in range(G):
    for (s, e), w in expected[g].items():
      key = (e, g * S + s)
      require(key in slot_of, f'{what}: expert {e} did not get item {s} of group {g}')
      want[g, s] += w * probe[e, slot_of[key]]
      scale[g, s] += abs(w) * probe[e, slot_of[key]]
      total += 1
  require(total == len(slot_of), f'{what}: experts hold items that must not be there', got=len(slot_of), want=total)
  bad = np.argwhere(~(np.abs(out - want) <= rtol * scale + 1e-30))
  if len(bad):
    b = tuple(int(v) for v in bad[0])
    require(False, f'{what}: combined output of item {b}', got=out[b], want=want[b])
