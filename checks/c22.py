"""C22: initialisation of a tree from another one, by rules."""
import json
import os
import re
import shutil
import tempfile

import flax.core
import flax.serialization
import flax.struct
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
from jax.sharding import NamedSharding, PartitionSpec as P
import ml_dtypes
import numpy as np
import orbax.checkpoint as ocp
from vmoe.checkpoints import base
from vmoe.checkpoints import partitioned
from vmoe.initialization import initialization
from vmoe.initialization import mapping
from vmoe.initialization import rules as rules_lib
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 2400}
ASYNC = None


@flax.struct.dataclass
class State:
  step: object
  params: object
  opt: object


class Bad(Exception):
  """The reference says that the call has to fail."""


EMPTY = '<empty>'


def np_dtype(name):
  return np.dtype(ml_dtypes.bfloat16) if name == 'bfloat16' else np.dtype(name)


def values(shape, dtype, seed):
  rng = np.random.default_rng(seed)
  x = rng.integers(-120, 121, size=shape)
  return (x if dtype == 'int32' else x / 4).astype(np_dtype(dtype))


# ---------------------------------------------------------------------------
# Reference.


def natural(name):
  return [(0, int(c)) if c.isdigit() else (1, c) for c in re.split(r'(\d+)', name)]


def ref_transform(rule, srcs, tshape):
  """The array prescribed by the rule, before matching the target's shape and dtype."""
  kind = rule[2] if len(rule) > 2 else 'copy'
  x = srcs[0]
  try:
    if kind == 'copy':
      return x
    if kind == 'reshape':
      return x.reshape(tuple(rule[3]) if len(rule) > 3 else tshape)
    if kind == 'squeeze':
      return np.squeeze(x, axis=rule[3])
    if kind == 'stack':
      if len({s.shape for s in srcs}) > 1:
        raise Bad('stack of different shapes')
      return np.stack(srcs, axis=rule[3])
    if kind == 'expand_tile':
      axes = [rule[3]] if isinstance(rule[3], int) else list(rule[3])
      reps = [rule[4]] if isinstance(rule[4], int) else list(rule[4])
      if len(axes) != len(reps):
        raise Bad('lengths')
      nd = x.ndim + len(axes)
      norm = [a % nd for a in axes]
      shape, it = [], iter(x.shape)
      for d in range(nd):
        shape.append(1 if d in norm else next(it))
      y = x.reshape(shape)
      for a, r in zip(norm, reps):
        y = np.concatenate([y] * r, axis=a)
      return y
  except (ValueError, IndexError) as e:
    raise Bad(str(e)) from e
  raise HarnessError(kind)


def reference(src, dst, rules, flags):
  """Flat expected output: {target name: np array or KEEP}."""
  used, out = {}, {}
  for s in sorted(src, key=natural):
    rule = next((r for r in rules if re.compile(r[0]).search(s)), None)
    if rule is None:
      if flags['raise_if_source_unmatched']:
        raise Bad(f'source {s} unmatched')
      rule, d = ['', 'x'], s
    elif not rule[1] and len(rule) == 2:
      continue
    else:
      d = re.sub(rule[0], rule[1], s)
    if d not in dst:
      raise Bad(f'{s} -> {d} does not exist')
    stack = len(rule) > 2 and rule[2] == 'stack'
    if (src[s] is EMPTY) != (dst[d] is EMPTY):
      raise Bad('empty node')
    if src[s] is EMPTY:
      if d in used:
        raise Bad('twice')
      used[d] = None
      continue
    if d in used:
      if not stack or used[d] is not rule:
        raise Bad(f'{d} set twice')
      out[d][1].append(src[s])
      continue
    used[d] = rule
    out[d] = (rule, [src[s]])
  for d, v in dst.items():
    if d not in used and v is not EMPTY and flags['raise_if_target_unmatched']:
      raise Bad(f'target {d} unmatched')
  res = {}
  for d, (rule, srcs) in out.items():
    t = dst[d]
    y = ref_transform(rule, srcs, t.shape)
    if y.dtype != t.dtype:
      if flags['raise_if_dtype_mismatched']:
        raise Bad(f'{d} dtype')
      y = y.astype(t.dtype)
    if y.shape != t.shape:
      if flags['raise_if_shape_mismatched']:
        raise Bad(f'{d} shape')
      try:
        y = np.broadcast_to(y, t.shape)
      except ValueError as e:
        raise Bad(str(e)) from e
    res[d] = y
  return res


# ---------------------------------------------------------------------------
# Generators.

shapes_st = st.lists(st.sampled_from([1, 2, 3, 4, 8]), max_size=3)
dtypes_st = st.sampled_from(['float32', 'float32', 'float32', 'bfloat16', 'int32', 'float16'])


@st.composite
def map_cases(draw):
  n = draw(st.integers(1, 6))
  src, dst, rules = {}, {}, []
  seed = draw(seeds)
  # Whole-tree situation: 0 = everything matches, else faults are possible.
  faulty = draw(st.integers(0, 2)) == 0

  def put_src(path, shape, dtype):
    src[path] = dict(shape=list(shape), dtype=dtype)

  def put_dst(path, shape, dtype):
    if dtype != 'same' and faulty and draw(st.integers(0, 5)) == 0:
      dtype = draw(dtypes_st)
    shape = list(shape)
    if faulty and draw(st.integers(0, 6)) == 0:
      shape = draw(st.sampled_from([shape + [2], [3] + shape, [v + 1 for v in shape] or [2], [1] + shape]))
    if faulty and draw(st.integers(0, 12)) == 0:
      return
    dst[path] = dict(shape=shape, dtype=dtype)

  for i in range(n):
    kind = draw(st.sampled_from(['copy', 'copy', 'group', 'swap', 'many', 'many_group', 'twice', 'toint', 'drop', 'reshape', 'squeeze', 'stack', 'stack', 'stack2', 'expand_tile', 'ident']))
    top = draw(st.sampled_from(['params', 'params', 'opt/0', 'opt/1']))
    leaf = draw(st.sampled_from(['kernel', 'bias', 'w']))
    dtype = draw(dtypes_st)
    shape = draw(shapes_st)
    s = f'{top}/m{i}x/sub/{leaf}'
    how = draw(st.sampled_from(['exact', 'part', 'search']))
    tname = f'{top}/t{i}x/sub/{leaf}'

    def pat(stem_src, stem_dst):
      if how == 'exact':
        return ['^' + re.escape(s) + '$', tname]
      if how == 'part':
        return [rf'(.*)/{stem_src}/(.*)/({leaf})', rf'\1/{stem_dst}/\2/\3']
      return [rf'/{stem_src}/', f'/{stem_dst}/']

    if kind == 'copy':
      put_src(s, shape, dtype)
      put_dst(tname, shape, dtype)
      rules.append(pat(f'm{i}x', f't{i}x'))
    elif kind == 'group':
      # One rule renames several leaves by captured groups.
      ids = draw(st.lists(st.integers(0, 12), min_size=2, max_size=4, unique=True))
      for j in ids:
        sh = draw(shapes_st)
        put_src(f'{top}/g{i}x_{j}/{leaf}', sh, dtype)
        put_dst(f'{top}/{leaf}/q{i}_{j}', sh, dtype)
      rules.append([rf'/g{i}x_(\d+)/(\w+)$', rf'/\2/q{i}_\1'])
    elif kind == 'many':
      # The pattern matches several parts of the name: all of them are replaced.
      put_src(f'{top}/m{i}x/m{i}x_{leaf}/am{i}x', shape, dtype)
      put_dst(f'{top}/t{i}x/t{i}x_{leaf}/at{i}x', shape, dtype)
      rules.append([f'm{i}x', f't{i}x'])
    elif kind == 'many_group':
      a, b = draw(st.integers(0, 12)), draw(st.integers(0, 12))
      put_src(f'{top}/c{i}x_{a}/c{i}x_{b}/{leaf}', shape, dtype)
      put_dst(f'{top}/{a}_d{i}x/{b}_d{i}x/{leaf}', shape, dtype)
      rules.append([rf'c{i}x_(\d+)', rf'\1_d{i}x'])
    elif kind == 'twice':
      # Two leaves matched by one rule, or by rules of other kinds, want the same target.
      put_src(f'{top}/m{i}x_0/{leaf}', [1] + shape, dtype)
      put_src(f'{top}/m{i}x_1/{leaf}', [1] + shape, dtype)
      put_dst(f'{top}/t{i}x/{leaf}', [1] + shape, dtype)
      extra = [[], ['reshape'], ['squeeze', 0], ['expand_tile', 0, 1], ['stack', 0]]
      if not faulty:
        rules.append([f'm{i}x_0', f't{i}x'])
        rules.append([f'm{i}x_1', None])
      elif draw(st.booleans()):
        rules.append([rf'm{i}x_\d', f't{i}x'] + draw(st.sampled_from(extra[:4])))
      else:
        rules.append([f'm{i}x_0', f't{i}x'] + draw(st.sampled_from(extra)))
        rules.append([f'm{i}x_1', f't{i}x'] + draw(st.sampled_from(extra)))
    elif kind == 'toint':
      # Another type than that of the source.
      put_src(s, shape, draw(st.sampled_from(['float32', 'int32', 'float16', 'bfloat16'])))
      put_dst(tname, shape, draw(st.sampled_from(['int32', 'float16', 'float32'])))
      rules.append(pat(f'm{i}x', f't{i}x'))
    elif kind == 'swap':
      # Two leaves of the same shape exchange their names, leaf a is tried by a later rule too.
      put_src(f'{top}/m{i}x/a', shape, dtype)
      put_src(f'{top}/m{i}x/b', shape, dtype)
      put_dst(f'{top}/m{i}x/a', shape, dtype)
      put_dst(f'{top}/m{i}x/b', shape, dtype)
      rules.append([f'm{i}x/a$', f'm{i}x/b'])
      rules.append([f'm{i}x/b$', f'm{i}x/a'])
    elif kind == 'drop':
      put_src(s, shape, dtype)
      rules.append([f'm{i}x', draw(st.sampled_from([None, '']))])
      if draw(st.booleans()):
        put_dst(s, shape, dtype)   # Stays unmatched.
    elif kind == 'reshape':
      put_src(s, shape, dtype)
      size = int(np.prod(shape))
      cand = [[size], [1, size], list(reversed(shape)) or [1], [size, 1], shape[:1] + [size // max(1, int(np.prod(shape[:1])))]]
      ts = draw(st.sampled_from(cand))
      # Without raising, the reshaped array is broadcast to the target.
      put_dst(tname, [3] + ts if faulty and draw(st.integers(0, 3)) == 0 else ts, dtype)
      rules.append(pat(f'm{i}x', f't{i}x') + ['reshape'] + ([draw(st.sampled_from([ts, ts, [-1] if len(ts) == 1 else ts] + ([draw(st.sampled_from(cand))] if faulty else [])))] if draw(st.booleans()) else []))
    elif kind == 'squeeze':
      ax = draw(st.integers(0, len(shape)))
      put_src(s, shape[:ax] + [1 if not (faulty and draw(st.booleans())) else 2] + shape[ax:], dtype)
      put_dst(tname, shape, dtype)
      rules.append(pat(f'm{i}x', f't{i}x') + ['squeeze', draw(st.sampled_from([ax, ax - len(shape) - 1]))])
    elif kind == 'stack':
      ids = draw(st.lists(st.sampled_from([0, 1, 2, 3, 9, 10, 11, 20, 100]), min_size=1, max_size=6, unique=True))
      for j in ids:
        sh = shape + [2] if faulty and draw(st.integers(0, 15)) == 0 else shape
        put_src(f'{top}/m{i}x_{j}/{leaf}', sh, dtype)
      ax = draw(st.integers(0, len(shape)))
      put_dst(f'{top}/s{i}x/{leaf}', shape[:ax] + [len(ids)] + shape[ax:], dtype)
      rules.append([rf'm{i}x_\d+', f's{i}x', 'stack', draw(st.sampled_from([ax, ax - len(shape) - 1]))])
    elif kind == 'stack2':
      ids = draw(st.lists(st.tuples(st.sampled_from([1, 2, 10]), st.sampled_from([0, 3, 12])), min_size=2, max_size=5, unique=True))
      for a, b in ids:
        put_src(f'{top}/b{a}y{i}x/l{b}/{leaf}', shape, dtype)
      put_dst(f'{top}/z{i}x/{leaf}', [len(ids)] + shape, dtype)
      rules.append([rf'b\d+y{i}x/l\d+', f'z{i}x', 'stack', 0])
    elif kind == 'expand_tile':
      put_src(s, shape, dtype)
      if draw(st.booleans()):
        ax = draw(st.integers(0, len(shape)))
        r = draw(st.sampled_from([1, 2, 4]))
        put_dst(tname, shape[:ax] + [r] + shape[ax:], dtype)
        tx = ['expand_tile', draw(st.sampled_from([ax, ax - len(shape) - 1])), r]
      else:
        nd = len(shape) + 2
        axes = draw(st.lists(st.integers(0, nd - 1), min_size=2, max_size=2, unique=True))
        reps = [draw(st.sampled_from([1, 2, 3])) for _ in axes]
        ts, it = [], iter(shape)
        for d in range(nd):
          ts.append(reps[axes.index(d)] if d in axes else next(it))
        put_dst(tname, ts, dtype)
        tx = ['expand_tile', axes, reps if not (faulty and draw(st.integers(0, 3)) == 0) else reps[:1]]
      rules.append(pat(f'm{i}x', f't{i}x') + tx)
    else:
      # No rule of its own; the same name exists in the target.
      put_src(s, shape, dtype)
      put_dst(s, shape, dtype)
  if faulty and draw(st.integers(0, 3)) == 0:
    rules = rules[1:]
  if faulty and draw(st.integers(0, 4)) == 0:
    put_dst('params/extra', draw(shapes_st), 'float32')
  if faulty and draw(st.integers(0, 4)) == 0:
    put_src('params/lonely', draw(shapes_st), 'float32')
  if faulty and len(src) > 1 and draw(st.integers(0, 4)) == 0:
    # Two leaves want the same target.
    names = sorted(src)
    a = draw(st.sampled_from(names))
    if dst:
      rules.insert(0, ['^' + re.escape(a) + '$', draw(st.sampled_from(sorted(dst)))])
  if draw(st.integers(0, 4)) == 0:
    src['params/void'] = EMPTY
    if not faulty or draw(st.booleans()):
      dst['params/void'] = EMPTY
    elif draw(st.booleans()):
      dst['params/void'] = dict(shape=[2], dtype='float32')
  has_ident = any(not any(re.search(r[0], s) for r in rules) for s in src)
  # A catch-all rule at the end: earlier rules win.
  tail = draw(st.sampled_from(['none', 'identity', 'drop', 'bogus']))
  if tail == 'identity':
    rules.append(['^(.*)$', r'\1'])
  elif tail == 'drop' and not has_ident:
    rules.append(['.', None])
  elif tail == 'bogus' and not has_ident:
    rules.append([r'^params/(.*)$', r'nowhere/\1', draw(st.sampled_from(['reshape', 'zoom', 'vit_zoom']))])
  flags = {k: draw(st.booleans()) for k in ('raise_if_dtype_mismatched', 'raise_if_shape_mismatched', 'raise_if_source_unmatched', 'raise_if_target_unmatched')}
  if not faulty and draw(st.integers(0, 3)):
    flags['raise_if_source_unmatched'] = tail == 'identity' and flags['raise_if_source_unmatched']
    flags['raise_if_target_unmatched'] = False
  return dict(src=src, dst=dst, rules=rules, flags=flags, seed=seed, order=draw(st.integers(0, 999)), box=draw(st.sampled_from(['dict', 'frozen', 'struct'])),
              layout=draw(st.sampled_from(['default', 'default', 'numpy', 'mesh', 'mesh', 'mesh2'])), structs=draw(st.integers(0, 3)), defaults=draw(st.booleans()))


@st.composite
def single_cases(draw):
  """One departure from a perfect match, with the option deciding it on or off."""
  fault = draw(st.sampled_from(['shape', 'shape', 'dtype', 'both', 'void', 'source', 'target', 'twice', 'missing']))
  shape = draw(st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=3))
  dt = draw(st.sampled_from(['float32', 'float32', 'bfloat16', 'int32']))
  src = {'params/a/w': dict(shape=shape, dtype=dt), 'opt/0/b': dict(shape=[2], dtype='float32')}
  dst = {k: dict(v) for k, v in src.items()}
  kind = draw(st.sampled_from(['copy', 'reshape', 'stack', 'expand_tile']))
  if kind == 'copy':
    rules = [['^params/a/w$', 'params/a/w']]
  elif kind == 'reshape':
    rules = [['^params/a/w$', 'params/a/w', 'reshape', shape]]
  elif kind == 'stack':
    rules = [['^params/a/w$', 'params/a/w', 'stack', 0]]
    dst['params/a/w']['shape'] = [1] + shape
  else:
    rules = [['^params/a/w$', 'params/a/w', 'expand_tile', 0, 2]]
    dst['params/a/w']['shape'] = [2] + shape
  rest = [['opt/(.*)', r'opt/\1']]
  got = dst['params/a/w']['shape']
  if fault in ('shape', 'both'):
    # Often of the same rank or with leading dimensions, so that it can be broadcast.
    ones = [i for i, v in enumerate(got) if v == 1]
    cand = [[3] + got, [1] + got, [2, 1] + got, got + [2], [v + 1 for v in got], got[1:]]
    if ones:
      cand += [got[:i] + [4] + got[i + 1:] for i in ones]
    dst['params/a/w']['shape'] = draw(st.sampled_from(cand))
  if fault in ('dtype', 'both'):
    dst['params/a/w']['dtype'] = draw(st.sampled_from([d for d in ('float32', 'bfloat16', 'float16', 'int32') if d != dt]))
  if fault == 'void':
    way = draw(st.integers(0, 2))
    if way != 1:
      src['opt/1'] = EMPTY
    if way != 0:
      dst['opt/1'] = EMPTY
    if way == 0:
      dst['opt/1'] = dict(shape=[2], dtype='float32')
    elif way == 1:
      src['opt/1'] = dict(shape=[2], dtype='float32')
  elif fault == 'source':
    src['params/lone'] = dict(shape=[2], dtype='float32')
    if draw(st.booleans()):
      dst['params/lone'] = dict(shape=[2], dtype='float32')
  elif fault == 'target':
    dst['params/lone'] = dict(shape=[2], dtype='float32')
  elif fault == 'twice':
    src['opt/1/b'] = dict(shape=[2], dtype='float32')
    rest = [['opt/.*', 'opt/0/b'] + draw(st.sampled_from([[], ['reshape']]))]
  elif fault == 'missing':
    del dst[draw(st.sampled_from(sorted(dst)))]
  flags = {k: draw(st.booleans()) for k in ('raise_if_dtype_mismatched', 'raise_if_shape_mismatched', 'raise_if_source_unmatched', 'raise_if_target_unmatched')}
  return dict(src=src, dst=dst, rules=rules + rest, flags=flags, seed=draw(seeds), order=draw(st.integers(0, 999)), box=draw(st.sampled_from(['dict', 'frozen', 'struct'])),
              layout=draw(st.sampled_from(['default', 'numpy', 'mesh'])), structs=draw(st.sampled_from([0, 0, 1, 2])), defaults=draw(st.integers(0, 3)) == 0)


def spec_for(shape, names, sizes, rng):
  free = list(range(len(names)))
  out = []
  for d in shape:
    c = [a for a in free if d % sizes[a] == 0]
    if c and rng.integers(2):
      a = c[int(rng.integers(len(c)))]
      free.remove(a)
      out.append(names[a])
    else:
      out.append(None)
  return P(*out)


def nest(flat):
  out = {}
  for k, v in flat.items():
    *head, last = k.split('/')
    d = out
    for h in head:
      d = d.setdefault(h, {})
    d[last] = {} if v is EMPTY else v
  return out


def box_up(flat, box, step):
  tree = nest(flat)
  if box == 'dict':
    return tree
  if box == 'frozen':
    return flax.core.freeze(tree)
  opt = tree.get('opt', {})
  return State(step=step, params=tree.get('params', {}), opt=(opt.get('0', {}), opt.get('1', {})))


def flat_of(x, prefix=''):
  """Flat names of a nested output."""
  if isinstance(x, State):
    x = dict(step=x.step, params=x.params, opt={str(i): v for i, v in enumerate(x.opt)})
  out = {}
  if isinstance(x, (dict, flax.core.FrozenDict)):
    if not x:
      return {prefix: EMPTY} if prefix else {}
    for k in x:
      out.update(flat_of(x[k], f'{prefix}/{k}' if prefix else str(k)))
    return out
  return {prefix: x}


def check_output(out, want, target_flat, box, what):
  got = flat_of(out)
  require(set(got) == set(target_flat), f'{what}: the output has other leaves than the target', missing=sorted(set(target_flat) - set(got)), extra=sorted(set(got) - set(target_flat)))
  for k, t in target_flat.items():
    g = got[k]
    if t is EMPTY:
      require(g is EMPTY, f'{what}: {k} should be empty')
    elif k in want:
      require(not isinstance(g, jax.ShapeDtypeStruct), f'{what}: {k} was not initialised')
      g_np = np.asarray(g)
      require(g_np.dtype == want[k].dtype, f'{what}: {k} has the wrong dtype', got=g_np.dtype, want=want[k].dtype)
      npu.exact(g_np.astype(np.float64), want[k].astype(np.float64), f'{what}: {k}')
      sh = getattr(t['obj'], 'sharding', None)
      if isinstance(sh, NamedSharding):
        require(g.sharding.is_equivalent_to(sh, g_np.ndim), f'{what}: {k} is not laid out as the target', got=g.sharding, want=sh)
    elif isinstance(t['obj'], jax.ShapeDtypeStruct):
      require(isinstance(g, jax.ShapeDtypeStruct) and g.shape == t['obj'].shape and g.dtype == t['obj'].dtype, f'{what}: unmatched {k} changed', got=g)
    else:
      require(np.asarray(g).dtype == t['np'].dtype, f'{what}: unmatched {k} changed its dtype')
      npu.exact(np.asarray(g).astype(np.float64), t['np'].astype(np.float64), f'{what}: unmatched {k}')
  if box == 'frozen':
    require(isinstance(out, flax.core.FrozenDict), f'{what}: type of the output', got=type(out))
  elif box == 'struct':
    require(isinstance(out, State) and isinstance(out.opt, tuple), f'{what}: type of the output', got=type(out))


def run_map(case, ctx):
  rng = np.random.default_rng(case['order'])
  layout = case['layout']
  mesh = None
  if layout == 'mesh':
    mesh = jax.sharding.Mesh(np.array(jax.devices()), ('d',))
  elif layout == 'mesh2':
    mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(2, 2), ('d', 'e'))

  def place(x, as_struct=False):
    if mesh is not None:
      names = mesh.axis_names
      sh = NamedSharding(mesh, spec_for(x.shape, names, [mesh.shape[a] for a in names], rng))
      return jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=sh) if as_struct else jax.device_put(x, sh)
    if as_struct:
      return jax.ShapeDtypeStruct(x.shape, x.dtype)
    return x if layout == 'numpy' else jnp.asarray(x)

  src, dst = dict(case['src']), dict(case['dst'])
  if case['box'] == 'struct':
    # The struct always has these leaves or empty nodes.
    for flat in (src, dst):
      flat['step'] = dict(shape=[], dtype='int32')
      for top in ('params', 'opt/0', 'opt/1'):
        if not any(k.startswith(top + '/') for k in flat):
          flat[top] = EMPTY
  src_np, src_tree, t_flat, t_tree = {}, {}, {}, {}
  keys = list(src)
  rng.shuffle(keys)
  for i, k in enumerate(keys):
    if src[k] is EMPTY or src[k] == EMPTY:
      src_np[k] = src_tree[k] = EMPTY
    else:
      src_np[k] = values(src[k]['shape'], src[k]['dtype'], [case['seed'], 1, i])
      src_tree[k] = place(src_np[k])
  keys = list(dst)
  rng.shuffle(keys)
  for i, k in enumerate(keys):
    if dst[k] == EMPTY:
      t_flat[k] = t_tree[k] = EMPTY
    else:
      x = values(dst[k]['shape'], dst[k]['dtype'], [case['seed'], 2, i])
      struct = case['structs'] == 3 or (case['structs'] == 2 and bool(rng.integers(2)))
      t_tree[k] = place(x, struct)
      t_flat[k] = dict(np=x, obj=t_tree[k])
  flags = dict(raise_if_dtype_mismatched=False, raise_if_shape_mismatched=True, raise_if_source_unmatched=True, raise_if_target_unmatched=True) if case['defaults'] else case['flags']
  box = case['box']
  src_step, t_step = src_tree.pop('step', None), t_tree.pop('step', None)
  source, target = box_up(src_tree, box, src_step), box_up(t_tree, box, t_step)
  rules = [tuple(tuple(e) if isinstance(e, list) else e for e in r) for r in case['rules']]
  try:
    want = reference(src_np, {k: (EMPTY if v is EMPTY else v['np']) for k, v in t_flat.items()}, case['rules'], flags)
  except Bad as e:
    want, why = None, str(e)
  # A tree of several rules may also be given already parsed.
  given = rules_lib.Rules.parse(rules) if case['order'] % 3 == 0 else (list(rules) if case['order'] % 3 == 1 else [rules_lib.Rules.parse([r]).rules[0] for r in rules])
  kw = {} if case['defaults'] else flags
  if want is None:
    try:
      out = mapping.map_state_dict(source, target, given, **kw)
    except Exception:  # pylint: disable=broad-except
      ctx.event('rejected')
      ctx.nontriv('rejected', re.sub(r'\d+', '', why)[:30])
      return
    require(False, f'the mapping should have been rejected ({why})', got={k: str(v)[:60] for k, v in flat_of(out).items()})
  try:
    out = mapping.map_state_dict(source, target, given, **kw)
  except Exception as e:  # pylint: disable=broad-except
    require(False, f'a valid mapping was rejected: {type(e).__name__}: {str(e)[:300]}')
  check_output(out, want, t_flat, box, 'map_state_dict')
  kinds = sorted({r[2] if len(r) > 2 else ('copy' if r[1] else 'drop') for r in case['rules']})
  if len(want) > 1 or kinds != ['copy']:
    ctx.nontriv(layout, box, *kinds)


@st.composite
def collide_cases(draw):
  """Two leaves of the source want the same leaf of the target."""
  ends = [['copy'], ['copy'], ['reshape'], ['reshape', [1, 2]], ['squeeze', 0], ['expand_tile', 0, 1], ['expand_tile', [0], [1]]]
  same_rule = draw(st.booleans())
  a = draw(st.sampled_from(ends))
  b = a if same_rule else draw(st.sampled_from(ends))
  shape = lambda e: [1, 1, 2] if e[0] == 'squeeze' else [2] if e[0] == 'expand_tile' else [1, 2]
  return dict(a=a, b=b, same=same_rule, sa=shape(a), sb=shape(b), flags=[draw(st.booleans()) for _ in range(4)], extra=draw(st.integers(0, 3)), void=draw(st.booleans()), order=draw(st.booleans()), seed=draw(seeds))


def run_collide(case, ctx):
  rng = np.random.default_rng(case['seed'])
  names = ['x_1', 'x_2'] if case['order'] else ['x_2', 'x_1']
  # The arrays of the source are consumed: each use has its own.
  data = {names[0]: rng.normal(size=case['sa']).astype(np.float32), names[1]: rng.normal(size=case['sb']).astype(np.float32)}
  new = {'t': np.zeros((1, 2), np.float32)}
  rule = lambda p, e: (p, 't') + (tuple(tuple(v) if isinstance(v, list) else v for v in e) if e[0] != 'copy' else ())
  rules = [rule(r'^x_\d$', case['a'])] if case['same'] else [rule(f'^{names[0]}$', case['a']), rule(f'^{names[1]}$', case['b'])]
  for i in range(case['extra']):
    data[f'w{i}'] = new[f'w{i}'] = np.asarray(i, np.float32)
    rules.append((f'^w{i}$', f'w{i}'))
  kw = dict(zip(('raise_if_dtype_mismatched', 'raise_if_shape_mismatched', 'raise_if_source_unmatched', 'raise_if_target_unmatched'), case['flags']))
  # Each of them alone is fine.
  for drop in names:
    out = mapping.map_state_dict({k: jnp.array(v) for k, v in data.items() if k != drop}, {k: jnp.array(v) for k, v in new.items()}, rules, **kw)
    keep = names[1 - names.index(drop)]
    npu.exact(np.asarray(out['t']).ravel(), data[keep].ravel(), 'one source')
  try:
    out = mapping.map_state_dict({k: jnp.array(v) for k, v in data.items()}, {k: jnp.array(v) for k, v in new.items()}, rules, **kw)
  except Exception:  # pylint: disable=broad-except
    ctx.nontriv(str(case['a']), str(case['b']), case['same'])
    return
  require(False, 'two sources of the same target were accepted', rules=rules, got=np.asarray(out['t']))


# ---------------------------------------------------------------------------
# Resizing.


def linear_matrix(n_in, n_out):
  """Interpolation matrix: end points map onto end points."""
  m = np.zeros((n_out, n_in))
  for i in range(n_out):
    pos = i * (n_in - 1) / (n_out - 1) if n_out > 1 else 0.0
    lo = min(int(np.floor(pos)), n_in - 1)
    hi = min(lo + 1, n_in - 1)
    m[i, lo] += 1 - (pos - lo)
    m[i, hi] += pos - lo
  return m


def resize(x, shape):
  y = x.astype(np.float64)
  for d, n in enumerate(shape):
    if n != x.shape[d]:
      y = np.moveaxis(np.tensordot(linear_matrix(x.shape[d], n), y, axes=(1, d)), 0, d)
  return y


@st.composite
def zoom_cases(draw):
  kind = draw(st.sampled_from(['vit_zoom', 'vit_zoom', 'vit_zoom', 'zoom']))
  if kind == 'zoom':
    nd = draw(st.integers(1, 3))
    ss = [draw(st.integers(1, 7)) for _ in range(nd)]
    ts = [draw(st.integers(1, 7)) for _ in range(nd)]
    bad = None
    gs = gt = st_tok = tt_tok = None
  else:
    gs, gt = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    st_tok, tt_tok = draw(st.booleans()), draw(st.booleans())
    h = draw(st.sampled_from([1, 3, 4]))
    ss, ts = [1, gs * gs + st_tok, h], [1, gt * gt + tt_tok, h]
    bad = draw(st.sampled_from([None] * 5 + ['hidden', 'batch', 'grid_src', 'grid_dst', 'ndim']))
    if bad == 'hidden':
      ts[2] += 1
    elif bad == 'batch':
      ss[0] = 2
    elif bad == 'grid_src':
      ss[1] = draw(st.sampled_from([3, 6, 7, 8, 11, 15]))
    elif bad == 'grid_dst':
      ts[1] = draw(st.sampled_from([3, 6, 7, 8, 11, 15]))
    elif bad == 'ndim':
      ss = ss[1:]
  return dict(kind=kind, ss=ss, ts=ts, gs=gs, gt=gt, st_tok=st_tok, tt_tok=tt_tok, bad=bad, seed=draw(seeds), struct=draw(st.booleans()), mesh=draw(st.integers(0, 3)) == 0, others=draw(st.booleans()))


def run_zoom(case, ctx):
  x = np.random.default_rng([case['seed'], 1]).normal(size=case['ss']).astype(np.float32)
  t = np.random.default_rng([case['seed'], 2]).normal(size=case['ts']).astype(np.float32)
  source, rules = {'old': jnp.asarray(x)}, [('old', 'new', case['kind'])]
  target = {'new': jax.ShapeDtypeStruct(t.shape, t.dtype) if case['struct'] else jnp.asarray(t)}
  if case['others']:
    source['w'] = jnp.asarray(t)
    target['w'] = jnp.zeros(t.shape, jnp.float32)
    rules.append(('^w$', 'w'))
  def call():
    if case['mesh']:
      mesh = jax.sharding.Mesh(np.array(jax.devices()), ('d',))
      rep = NamedSharding(mesh, P())
      put = lambda v: jax.ShapeDtypeStruct(v.shape, v.dtype, sharding=rep) if isinstance(v, jax.ShapeDtypeStruct) else jax.device_put(v, rep)
      s2, t2 = {k: put(v) for k, v in source.items()}, {k: put(v) for k, v in target.items()}
      with mesh:
        return mapping.map_state_dict(s2, t2, rules)
    return mapping.map_state_dict(source, target, rules)
  if case['bad']:
    try:
      call()
    except Exception:  # pylint: disable=broad-except
      ctx.nontriv('bad', case['bad'])
      return
    require(False, f'vit_zoom from {case["ss"]} to {case["ts"]} should have been rejected')
  out = call()
  got = np.asarray(out['new'])
  npu.same_shape(got, t.shape, case['kind'])
  if case['kind'] == 'zoom':
    npu.close(got, resize(x, t.shape), 'zoom', 1e-4, 1e-5)
  else:
    h = x.shape[2]
    grid = x[:, 1 if case['st_tok'] else 0:].reshape(1, case['gs'], case['gs'], h)
    want = resize(grid, (1, case['gt'], case['gt'], h)).reshape(1, -1, h)
    npu.close(got[:, 1 if case['tt_tok'] else 0:], want, 'vit_zoom: grid embeddings', 1e-4, 1e-5)
    if case['tt_tok']:
      if case['st_tok']:
        npu.exact(got[:, 0], x[:, 0], 'vit_zoom: token embedding')
      elif not case['struct']:
        npu.exact(got[:, 0], t[:, 0], 'vit_zoom: token embedding kept')
      else:
        require(np.isfinite(got[:, 0]).all(), 'vit_zoom: token embedding not finite')
  if case['others']:
    npu.exact(np.asarray(out['w']), t, 'other leaf')
  if case['ss'] != case['ts']:
    ctx.nontriv(case['kind'], case['st_tok'], case['tt_tok'], case['struct'])


# ---------------------------------------------------------------------------
# From files.


@st.composite
def file_cases(draw):
  n = draw(st.integers(1, 4))
  leaves = [dict(shape=draw(shapes_st), dtype=draw(st.sampled_from(['float32', 'bfloat16', 'int32'])), kind=draw(st.sampled_from(['copy', 'tile', 'drop', 'stack'])), sharded=draw(st.booleans()), tsharded=draw(st.booleans())) for _ in range(n)]
  return dict(fmt=draw(st.sampled_from(['vit', 'vmoe', 'vmoe', 'orbax'])), leaves=leaves, seed=draw(seeds), mesh2=draw(st.booleans()), regexes=draw(st.sampled_from([None, 'd', 'mixed'])), structs=draw(st.booleans()),
              chunks=draw(st.sampled_from([1, 2, 3])), pool=draw(st.booleans()), old=draw(st.sampled_from([None, 'same', 'same', 'same', 'other'])))


def run_file(case, ctx):
  rng = np.random.default_rng(case['seed'])
  mesh = jax.sharding.Mesh(np.array(jax.devices()).reshape(2, 2), ('d', 'e')) if case['mesh2'] else jax.sharding.Mesh(np.array(jax.devices()), ('d',))
  names, sizes = mesh.axis_names, [mesh.shape[a] for a in mesh.axis_names]
  src, dst, rules, regexes = {}, {}, [], []
  for i, l in enumerate(case['leaves']):
    # Old V-MoE checkpoints have no version, and the structure of the target.
    old = case.get('old') if case['fmt'] == 'vmoe' else None
    if old and l['kind'] == 'stack':
      l = dict(l, kind='copy')
    # Orbax array directories of the legacy format are named by dots.
    group = [f'params/old{i}_{j}/k' for j in ((3, 20, 100) if l['kind'] == 'stack' else (0,))]
    for j, g in enumerate(group):
      src[g] = values(l['shape'], l['dtype'], [case['seed'], i, j])
      if case['regexes']:
        spec = spec_for(l['shape'], names[:1] if case['regexes'] == 'd' else names, sizes, rng) if l['sharded'] else P()
        regexes.append((g, tuple(spec)))
    new = group[0] if old == 'same' else f'params/new{i}/k'
    to = new.split('/')[1]
    if l['kind'] == 'copy':
      dst[new] = l['shape']
      rules.append((rf'old{i}_\d+', to))
    elif l['kind'] == 'tile':
      dst[new] = [4] + l['shape']
      rules.append((rf'old{i}_\d+', to, 'expand_tile', 0, 4))
    elif l['kind'] == 'stack':
      dst[new] = [3] + l['shape']
      rules.append((rf'old{i}_\d+', to, 'stack', 0))
    else:
      rules.append((rf'old{i}_\d+', None))
      dst[new] = l['shape']
  t_flat, t_tree = {}, {}
  for i, l in enumerate(case['leaves']):
    new = f'params/old{i}_0/k' if old == 'same' else f'params/new{i}/k'
    x = values(dst[new], l['dtype'], [case['seed'], 99, i])
    sh = NamedSharding(mesh, spec_for(x.shape, names, sizes, rng) if l['tsharded'] else P())
    t_tree[new] = jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=sh) if case['structs'] else jax.device_put(x, sh)
    t_flat[new] = dict(np=x, obj=t_tree[new])
  flags = dict(raise_if_dtype_mismatched=False, raise_if_shape_mismatched=True, raise_if_source_unmatched=True, raise_if_target_unmatched=False)
  want = reference(src, {k: v['np'] for k, v in t_flat.items()}, [list(r) for r in rules], flags)
  target = nest(t_tree)
  kw = dict(target=target, rules=rules, mesh=mesh, axis_resources_regexes=regexes if case['regexes'] else None, raise_if_target_unmatched=False)
  tmp = tempfile.mkdtemp(prefix='verif_c22_')
  try:
    if case['fmt'] == 'vit':
      path = os.path.join(tmp, 'vit.npz')
      # As numpy stores it: bfloat16 becomes a raw 2-byte type.
      np.savez(path, **{k: (v.view('V2') if v.dtype == ml_dtypes.bfloat16 else v) for k, v in src.items()})
      out = initialization.initialize_from_vit(filepath=path, **kw)
    elif case['fmt'] == 'vmoe':
      prefix = os.path.join(tmp, 'ckpt_3')
      save_mesh = jax.sharding.Mesh(np.array(jax.devices())[::-1], ('x',))
      tree = nest({k: jax.device_put(v, NamedSharding(save_mesh, spec_for(v.shape, ('x',), [4], rng))) for k, v in src.items()})
      partitioned.save_checkpoint(prefix=prefix, tree=tree, num_shards=case['chunks']).get()
      pool = None
      if case['pool']:
        import multiprocessing.pool  # pylint: disable=g-import-not-at-top
        pool = multiprocessing.pool.ThreadPool(2)
      if old:
        ctx.event(f'unversioned {old}')
        index = base.restore_checkpoint(prefix + '.index')
        del index['version']
        base.save_checkpoint(prefix + '.index', index)
      try:
        out = initialization.initialize_from_vmoe(prefix=prefix, thread_pool=pool, **kw)
      except ValueError:
        if old != 'other':
          raise
        ctx.event('old checkpoint of another structure rejected')
        return
      if pool is not None:
        pool.terminate()
    else:
      path = os.path.join(tmp, 'orbax')
      with ocp.Checkpointer(ocp.PyTreeCheckpointHandler(use_ocdbt=False)) as c:
        c.save(path, nest({k: jnp.asarray(v) for k, v in src.items()}))
      with open(os.path.join(path, 'checkpoint'), 'wb') as f:
        f.write(flax.serialization.msgpack_serialize(nest({k: 'PLACEHOLDER://' + k.replace('/', '.') for k in src})))
      out = initialization.initialize_from_orbax(directory=path, **kw)
    check_output(out, want, t_flat, 'dict', f'initialize_from_{case["fmt"]}')
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  if len(src) > 1:
    ctx.nontriv(case['fmt'], case['regexes'], *sorted({l['kind'] for l in case['leaves']}))


SUBS = [
    Sub('map', map_cases(), run_map, quick=330, thorough=8000),
    Sub('single', single_cases(), run_map, quick=140, thorough=2500),
    Sub('collide', collide_cases(), run_collide, quick=28, thorough=400),
    Sub('zoom', zoom_cases(), run_zoom, quick=70, thorough=1200),
    Sub('files', file_cases(), run_file, quick=63, thorough=1000),
]
