"""C23: preprocessing ops and the pipeline strings."""
import io

from hypothesis import strategies as st
import numpy as np
import tensorflow as tf
from vmoe.data import input_pipeline
from vmoe.data import pp_ops
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 420, 'thorough': 1800}
VALID = '__valid__'


def image_of(shape, dtype, seed):
  rng = np.random.default_rng(seed)
  if dtype == 'float32':
    return rng.normal(size=shape).astype(np.float32) * 50
  return rng.integers(0, 256, size=shape).astype(dtype)


# ---------------------------------------------------------------------------
# References. Each returns (float64 array or exact array, mode) where the mode says how to compare.


def axis_bilinear(n_in, n_out):
  m = np.zeros((n_out, n_in))
  for i in range(n_out):
    pos = (i + 0.5) * n_in / n_out - 0.5
    lo = np.floor(pos)
    f = pos - lo
    m[i, int(np.clip(lo, 0, n_in - 1))] += 1 - f
    m[i, int(np.clip(lo + 1, 0, n_in - 1))] += f
  return m


def axis_area(n_in, n_out):
  m = np.zeros((n_out, n_in))
  sc = n_in / n_out
  for i in range(n_out):
    a, b = i * sc, (i + 1) * sc
    for j in range(n_in):
      m[i, j] = max(0.0, min(b, j + 1) - max(a, j)) / sc
  return m


def ref_resize(x, size, method):
  if tuple(x.shape[:2]) == tuple(size):
    return x.astype(np.float64)
  mk = {'bilinear': axis_bilinear, 'area': axis_area}[method]
  y = np.einsum('ah,hwc->awc', mk(x.shape[0], size[0]), x.astype(np.float64))
  return np.einsum('bw,awc->abc', mk(x.shape[1], size[1]), y)


def check_image(got, ref, dtype, what):
  """Resized values: an integer image is cast, so it can be off by less than one."""
  got = np.asarray(got)
  require(got.dtype == np.dtype(dtype), f'{what}: wrong dtype', got=got.dtype, want=dtype)
  npu.same_shape(got, ref.shape, what)
  scale = max(1.0, float(np.abs(ref).max())) if ref.size else 1.0
  tol = 5e-4 * scale + (1.0 if np.dtype(dtype).kind in 'iu' else 0.0)
  err = np.abs(got.astype(np.float64) - ref)
  require(err.size == 0 or err.max() <= tol, f'{what}: values differ', err=float(err.max()) if err.size else 0, tol=tol)


def is_window(full, win):
  """Offsets at which `win` is a contiguous window of `full`."""
  h, w = win.shape[:2]
  hh, ww = full.shape[:2]
  if h > hh or w > ww:
    return []
  return [(y, x) for y in range(hh - h + 1) for x in range(ww - w + 1) if np.array_equal(full[y:y + h, x:x + w], win)]


# ---------------------------------------------------------------------------
# Single ops.

OPS = ['central_crop', 'resize', 'resize', 'resize_small', 'flip_lr', 'value_range', 'value_range', 'onehot', 'onehot', 'reshape', 'inception_crop', 'inception_crop', 'decode', 'decode_jpeg', 'keep', 'copy', 'flatten', 'ignore_no_labels']


@st.composite
def op_cases(draw):
  op = draw(st.sampled_from(OPS))
  h, w, c = draw(st.integers(1, 24)), draw(st.integers(1, 24)), draw(st.sampled_from([1, 3, 3, 4]))
  case = dict(op=op, h=h, w=w, c=c, dtype=draw(st.sampled_from(['uint8', 'uint8', 'float32', 'int32'])), seed=draw(seeds), how=draw(st.sampled_from(['call', 'string', 'string', 'graph', 'graph_dyn'])),
              keys=draw(st.sampled_from(['default', 'default', 'key', 'inout', 'in', 'out'])))
  size_st = lambda n: st.integers(1, n)
  if op == 'central_crop':
    bad = draw(st.integers(0, 7)) == 0
    if draw(st.booleans()):
      a = draw(size_st(min(h, w)))
      case['args'] = [a + max(h, w) if bad else a]
    else:
      case['args'] = [[draw(size_st(h)) + (h if bad else 0), draw(size_st(w))]]
    case['bad'] = bad
  elif op == 'resize':
    case['args'] = [draw(st.one_of(size_st(30), st.lists(size_st(30), min_size=2, max_size=2)))]
    case['method'] = draw(st.sampled_from([None, 'bilinear', 'nearest', 'area']))
  elif op == 'resize_small':
    case['args'] = [draw(size_st(20))]
  elif op == 'value_range':
    vmin = draw(st.sampled_from([-1, 0, -0.5, 2, 0.0]))
    vmax = vmin + draw(st.sampled_from([1, 2, 0.5, 255]))
    case['args'] = [vmin, vmax]
    kind = draw(st.sampled_from(['default', 'scalar', 'list']))
    if kind == 'scalar':
      lo = draw(st.sampled_from([0, -128, 10, 100.5]))
      case['in'] = [lo, lo + draw(st.sampled_from([1, 127.5, 255, 64]))]
    elif kind == 'list':
      lo = [draw(st.sampled_from([0.0, 10.0, -3.0, 123.7])) for _ in range(c)]
      case['in'] = [lo, [l + draw(st.sampled_from([1.0, 58.4, 255.0])) for l in lo]]
    case['clip'] = draw(st.sampled_from([None, True, False]))
  elif op == 'onehot':
    depth = draw(st.integers(1, 12))
    rank = draw(st.sampled_from([0, 1, 1, 1]))
    multi = draw(st.sampled_from([None, True, False]))
    lo = -1 if (multi is False or rank == 0) else 0
    hi = depth + 1 if (multi is False or rank == 0) else depth - 1
    case['labels'] = draw(st.integers(lo, hi)) if rank == 0 else draw(st.lists(st.integers(lo, hi), max_size=7))
    case['args'] = [depth]
    case['multi'] = multi
    case['onoff'] = draw(st.sampled_from([None, [1.0, 0.0], [0.9, 0.1], [2.0, -1.0], [0.0, 1.0]]))
    case['ldtype'] = draw(st.sampled_from(['int64', 'int32']))
  elif op == 'reshape':
    size = h * w * c
    case['args'] = [draw(st.sampled_from([[size], [c, h, w], [h * w, c], [1, -1], [w, h, c]]))]
  elif op == 'inception_crop':
    case['resize'] = draw(st.sampled_from([None, 5, [4, 9]]))
    case['rmethod'] = draw(st.sampled_from([None, 'nearest', 'area', 'bilinear']))
    lo = draw(st.sampled_from([5, 5, 30, 80, 100]))
    case['area'] = draw(st.sampled_from([None, [lo, 100], [min(lo, 50), 60]]))
    case['h'], case['w'] = draw(st.integers(6, 24)), draw(st.integers(6, 24))
  elif op == 'decode':
    case['channels'] = draw(st.sampled_from([None, 1, 3]))
    case['fmt'] = draw(st.sampled_from(['png', 'png', 'bmp', 'jpeg']))
  elif op == 'decode_jpeg':
    case['resize'] = draw(st.sampled_from([None, 7]))
    case['area'] = draw(st.sampled_from([None, [100, 100], [40, 80]]))
    case['h'], case['w'] = draw(st.integers(8, 22)), draw(st.integers(8, 22))
  elif op == 'keep':
    case['names'] = draw(st.lists(st.sampled_from(['image', 'labels', 'aux', 'nothere', 'mask']), max_size=4))
    case['valid'] = draw(st.booleans())
  elif op == 'copy':
    case['pair'] = draw(st.sampled_from([['image', 'image2'], ['labels', 'image'], ['aux', 'labels'], ['image', 'image']]))
  elif op == 'ignore_no_labels':
    case['n'] = draw(st.sampled_from([0, 0, 1, 3]))
    case['valid'] = draw(st.sampled_from([None, True, False, 1, 0]))
    case['custom'] = draw(st.booleans())
  return case


def lit(v):
  return repr(tuple(v)) if isinstance(v, list) else repr(v)


def apply_op(name, args, kwargs, data, how):
  """Runs the op in one of the ways in which users run it; tensors back as NumPy."""
  if how == 'call':
    fn = getattr(pp_ops, name)(*args, **kwargs)
  else:
    fn = input_pipeline.get_data_process_fn(f'{name}(' + ', '.join([lit(a) for a in args] + [f'{k}={lit(v)}' for k, v in kwargs.items()]) + ')')
  return apply_fn(fn, data, how)


def apply_fn(fn, data, how):
  if how.startswith('graph'):
    if how == 'graph':
      ds = tf.data.Dataset.from_tensors(data)
    else:
      # Shapes unknown except for the number of channels, as for decoded images.
      def spec(path_v):
        v = path_v
        if isinstance(v, dict):
          return {k: spec(x) for k, x in v.items()}
        s = list(v.shape)
        return tf.TensorSpec(shape=[None] * len(s[:-1]) + s[-1:] if len(s) > 1 else [None] * len(s), dtype=v.dtype)
      ds = tf.data.Dataset.from_generator(lambda: iter([data]), output_signature=spec(data))
    out = list(ds.map(fn).as_numpy_iterator())
    require(len(out) == 1, 'number of elements changed')
    return out[0]
  out = fn(dict(data))
  return tf.nest.map_structure(lambda v: v.numpy() if isinstance(v, tf.Tensor) else v, out)


def run_op(case, ctx):
  op, how = case['op'], case['how']
  img = image_of([case['h'], case['w'], case['c']], case['dtype'], case['seed'])
  aux = image_of([3, 2], 'float32', [case['seed'], 1])
  data = {'image': tf.constant(img), 'aux': tf.constant(aux), 'labels': tf.constant([1, 2], tf.int64)}
  if how == 'graph_dyn' and (op in ('flatten', 'keep', 'copy', 'ignore_no_labels', 'decode', 'decode_jpeg') or (op == 'onehot')):
    how = 'graph'
  # Where the op reads and writes.
  kw = {}
  main = 'labels' if op == 'onehot' else 'image'
  ik = ok = main
  if op not in ('keep', 'copy', 'flatten', 'ignore_no_labels'):
    if case['keys'] == 'key':
      ik = ok = 'feat'
      kw = dict(key='feat')
    elif case['keys'] == 'inout':
      ik, ok = 'feat', 'res'
      kw = dict(inkey='feat', outkey='res')
    elif case['keys'] == 'in':
      ik = 'feat'
      kw = dict(inkey='feat')
    elif case['keys'] == 'out':
      ok = 'res'
      kw = dict(outkey='res')
  value = data[main]

  def go(name, args=(), op_kw=None, new_value=None):
    d = dict(data)
    if new_value is not None:
      v = new_value
    else:
      v = value
    if ik != main:
      d['feat'] = v
    else:
      d[main] = v
    before = {k: (x.numpy() if isinstance(x, tf.Tensor) else x) for k, x in d.items()}
    out = apply_op(name, list(args), {**(op_kw or {}), **kw}, d, how)
    require(set(out) == set(before) | {ok}, f'{op}: features changed', got=sorted(out), want=sorted(set(before) | {ok}))
    for k, x in before.items():
      if k != ok:
        require(np.array_equal(np.asarray(out[k]), np.asarray(x)), f'{op}: feature {k!r} it is not configured for was changed')
    return np.asarray(out[ok])

  ctx.event(op)
  if op == 'central_crop':
    a = case['args'][0]
    hh, ww = (a, a) if isinstance(a, int) else a
    if case['bad']:
      try:
        go('central_crop', [a])
      except Exception:  # pylint: disable=broad-except
        ctx.nontriv(op, 'rejected')
        return
      require(False, 'a crop larger than the image was accepted')
    got = go('central_crop', [a])
    y, x = (case['h'] - hh) // 2, (case['w'] - ww) // 2
    npu.exact(got, img[y:y + hh, x:x + ww], 'central_crop')
    require(got.dtype == img.dtype, 'central_crop: dtype')
    if (hh, ww) != (case['h'], case['w']):
      ctx.nontriv(op, case['h'] % 2, hh % 2, how)
  elif op == 'resize':
    a, m = case['args'][0], case['method']
    size = (a, a) if isinstance(a, int) else tuple(a)
    got = go('resize', [a], dict(resize_method=m) if m else {})
    if m == 'nearest':
      require(got.dtype == img.dtype, 'resize: dtype')
      npu.same_shape(got, size + (case['c'],), 'resize')
      def sources(n_in, n_out, i):
        p = (i + 0.5) * n_in / n_out
        return {int(np.clip(np.floor(p + e), 0, n_in - 1)) for e in (-1e-4, 0, 1e-4)}
      for y in range(size[0]):
        for x in range(size[1]):
          cands = [img[j, i] for j in sources(case['h'], size[0], y) for i in sources(case['w'], size[1], x)]
          require(any(np.array_equal(got[y, x], v) for v in cands), 'resize: not the nearest pixel', y=y, x=x)
    else:
      check_image(got, ref_resize(img, size, m or 'bilinear'), case['dtype'], 'resize')
    if size != (case['h'], case['w']):
      ctx.nontriv(op, m, case['dtype'], how)
  elif op == 'resize_small':
    n = case['args'][0]
    got = go('resize_small', [n])
    s = min(case['h'], case['w'])
    require(got.shape[2] == case['c'] and min(got.shape[:2]) == n, 'resize_small: the smaller side has the wrong size', got=got.shape, want=n)
    for g, o in zip(got.shape[:2], (case['h'], case['w'])):
      require(abs(g - o * n / s) <= 0.5 + 1e-3 * max(1, o * n / s), 'resize_small: aspect ratio not kept', got=got.shape, src=img.shape)
    ref = ref_resize(img, got.shape[:2], 'area')
    check_image(got.astype(np.float32), ref, 'float32', 'resize_small')
    if n != s:
      ctx.nontriv(op, case['h'] < case['w'], how)
  elif op == 'flip_lr':
    got = go('flip_lr')
    require(np.array_equal(got, img) or np.array_equal(got, img[:, ::-1]), 'flip_lr: neither the image nor its mirror image')
    require(got.dtype == img.dtype, 'flip_lr: dtype')
    if not np.array_equal(img, img[:, ::-1]):
      ctx.nontriv(op, bool(np.array_equal(got, img)), how)
  elif op == 'value_range':
    vmin, vmax = case['args']
    op_kw, lo, hi = {}, 0.0, 255.0
    if 'in' in case:
      lo, hi = case['in']
      op_kw = dict(in_min=lo, in_max=hi)
    if case['clip'] is not None:
      op_kw['clip_values'] = case['clip']
    got = go('value_range', [vmin, vmax], op_kw)
    lo, hi = np.asarray(lo, np.float64), np.asarray(hi, np.float64)
    want = vmin + (img.astype(np.float64) - lo) / (hi - lo) * (vmax - vmin)
    require(got.dtype == np.float32, 'value_range: dtype', got=got.dtype)
    if case['clip']:
      want = np.clip(want, vmin, vmax)
    # The unclipped intermediate values may be large.
    sc = float(np.abs((np.abs(img.astype(np.float64)) + np.abs(lo)) / (hi - lo) * (vmax - vmin)).max()) + abs(vmin)
    npu.close(got, want, 'value_range', 1e-5, 1e-5 * max(1.0, sc))
    if case['clip']:
      require(got.min() >= vmin - 1e-6 * max(1, abs(vmin)) and got.max() <= vmax + 1e-6 * max(1, abs(vmax)), 'value_range: outside of the range')
    ctx.nontriv(op, 'in' in case, case['clip'], how)
  elif op == 'onehot':
    depth, multi = case['args'][0], case['multi']
    on, off = case['onoff'] or (1.0, 0.0)
    op_kw = {} if multi is None else dict(multi=multi)
    if case['onoff']:
      op_kw.update(on=on, off=off)
    labels = np.asarray(case['labels'], dtype=case['ldtype'])
    got = go('onehot', [depth], op_kw, new_value=tf.constant(labels))
    if labels.ndim and multi is not False:
      want = np.full((depth,), off)
      want[labels] = on
    else:
      want = np.full(labels.shape + (depth,), off)
      for i in np.ndindex(*labels.shape):
        if 0 <= labels[i] < depth:
          want[i + (labels[i],)] = on
    npu.close(got, want, 'onehot', 1e-6, 1e-6)
    ctx.nontriv(op, multi, case['onoff'] is not None, labels.size > 1, len(set(labels.ravel().tolist())) < labels.size)
  elif op == 'reshape':
    got = go('reshape', [case['args'][0]])
    npu.exact(got, img.reshape(case['args'][0]), 'reshape')
    require(got.dtype == img.dtype, 'reshape: dtype')
    ctx.nontriv(op, how)
  elif op == 'inception_crop':
    op_kw = {}
    if case['resize'] is not None:
      op_kw['resize_size'] = case['resize']
      if case.get('rmethod'):
        op_kw['resize_method'] = case['rmethod']
    lo, hi = case['area'] or (5, 100)
    if case['area']:
      op_kw.update(area_min=lo, area_max=hi)
    got = go('inception_crop', [], op_kw)
    require(got.dtype == img.dtype, 'inception_crop: dtype')
    if case['resize'] is not None:
      want = (case['resize'],) * 2 if isinstance(case['resize'], int) else tuple(case['resize'])
      npu.same_shape(got, want + (case['c'],), 'inception_crop')
      require(float(got.min()) >= float(img.min()) - 1 and float(got.max()) <= float(img.max()) + 1, 'inception_crop: values outside of those of the image')
      if case.get('rmethod') == 'nearest':
        pixels = {p.tobytes() for p in np.asarray(img).reshape(-1, case['c'])}
        require(all(p.tobytes() in pixels for p in np.ascontiguousarray(got).reshape(-1, case['c'])), 'inception_crop: a nearest-neighbour resize made new pixels')
    else:
      require(bool(is_window(img, got)), 'inception_crop: not a window of the image', got=got.shape, image=img.shape)
      check_area(got.shape, img.shape, lo, hi)
    ctx.nontriv(op, case['resize'] is not None, how)
  elif op == 'decode':
    src = image_of([case['h'], case['w'], 3], 'uint8', case['seed'])
    enc = {'png': tf.io.encode_png, 'jpeg': tf.io.encode_jpeg}.get(case['fmt'])
    if case['fmt'] == 'bmp':
      import imageio  # pylint: disable=g-import-not-at-top
      f = io.BytesIO()
      imageio.imsave(f, src, format='bmp')
      raw = tf.constant(f.getvalue())
    else:
      raw = enc(tf.constant(src))
    ch = case['channels'] or 3
    if case['fmt'] == 'bmp' and ch == 1:
      return
    got = go('decode', [], {} if case['channels'] is None else dict(channels=ch), new_value=raw)
    npu.same_shape(got, (case['h'], case['w'], ch), 'decode')
    require(got.dtype == np.uint8, 'decode: dtype')
    if case['fmt'] != 'jpeg' and ch == 3:
      npu.exact(got, src, 'decode')
    elif case['fmt'] == 'jpeg':
      npu.exact(got, tf.io.decode_jpeg(raw, channels=ch).numpy(), 'decode')
    else:
      # Luminance of the decoded colours.
      lum = src.astype(np.float64) @ [0.299, 0.587, 0.114]
      require(np.abs(got[..., 0] - lum).max() <= 2, 'decode: grey values')
    ctx.nontriv(op, case['fmt'], ch)
  elif op == 'decode_jpeg':
    src = image_of([case['h'], case['w'], 3], 'uint8', case['seed'])
    raw = tf.io.encode_jpeg(tf.constant(src), quality=95, chroma_downsampling=False)
    full = tf.io.decode_jpeg(raw, channels=3).numpy()
    op_kw = {} if case['resize'] is None else dict(resize_size=case['resize'])
    lo, hi = case['area'] or (5, 100)
    if case['area']:
      op_kw.update(area_min=lo, area_max=hi)
    got = go('decode_jpeg_and_inception_crop', [], op_kw, new_value=raw)
    require(got.dtype == np.uint8, 'decode_jpeg_and_inception_crop: dtype')
    if case['resize'] is not None:
      npu.same_shape(got, (case['resize'], case['resize'], 3), 'decode_jpeg_and_inception_crop')
    else:
      require(bool(is_window(full, got)), 'decode_jpeg_and_inception_crop: not a window of the image', got=got.shape, image=full.shape)
      check_area(got.shape, full.shape, lo, hi)
    ctx.nontriv(op, case['resize'] is not None, case['area'] is not None)
  elif op == 'keep':
    d = dict(data)
    if case['valid']:
      d[VALID] = tf.constant(False)
    out = apply_op('keep', case['names'], {}, d, how) if how != 'graph' or (set(case['names']) & set(d)) or case['valid'] else {k: v for k, v in d.items() if k in case['names']}
    want = [k for k in d if k in case['names'] or k == VALID]
    require(sorted(out) == sorted(want), 'keep: wrong features', got=sorted(out), want=sorted(want))
    for k in want:
      npu.exact(np.asarray(out[k]), d[k].numpy(), f'keep: {k}')
    ctx.nontriv(op, len(want), case['valid'])
  elif op == 'copy':
    a, b = case['pair']
    out = apply_op('copy', [a, b], {}, data, how)
    want = {k: v.numpy() for k, v in data.items()}
    want[b] = want[a]
    require(sorted(out) == sorted(want), 'copy: features', got=sorted(out))
    for k in want:
      npu.exact(np.asarray(out[k]), want[k], f'copy: {k}')
    ctx.nontriv(op, a, b)
  elif op == 'flatten':
    nested = {'a': {'b': data['image'], 'c': {'d': data['aux']}}, 'e': data['labels'], 'a/x': data['aux']}
    if case['seed'] % 2:
      nested['a']['f'] = {'g': data['labels']}
    out = apply_op('flatten', [], {}, nested, how)
    want = {'a/b': img, 'a/c/d': aux, 'e': np.array([1, 2]), 'a/x': aux}
    if case['seed'] % 2:
      want['a/f/g'] = np.array([1, 2])
    require(sorted(out) == sorted(want), 'flatten: features', got=sorted(out))
    for k in want:
      npu.exact(np.asarray(out[k]), want[k], f'flatten: {k}')
    ctx.nontriv(op, how)
  else:
    d = dict(data)
    lk, vk = ('tags', 'mask') if case['custom'] else ('labels', VALID)
    d[lk] = tf.constant([5] * case['n'], tf.int32)
    if case['valid'] is not None:
      d[vk] = tf.constant(case['valid'])
    out = apply_op('ignore_no_labels', [], dict(labels_key=lk, valid_key=vk) if case['custom'] else {}, d, how)
    want = bool(case['valid'] is None or case['valid']) and case['n'] > 0
    require(sorted(out) == sorted(set(d) | {vk}), 'ignore_no_labels: features', got=sorted(out))
    require(bool(out[vk]) == want, 'ignore_no_labels: valid', got=out[vk], want=want)
    for k in d:
      if k != vk:
        npu.exact(np.asarray(out[k]), d[k].numpy(), f'ignore_no_labels: {k}')
    ctx.nontriv(op, case['n'] > 0, case['valid'])


def check_area(crop, full, lo, hi):
  """The sampled window has the requested area, up to rounding the sides, or is the whole image."""
  if tuple(crop[:2]) == tuple(full[:2]):
    return
  area = full[0] * full[1]
  slack = crop[0] + crop[1] + 2
  require(crop[0] * crop[1] >= lo / 100 * area - slack and crop[0] * crop[1] <= hi / 100 * area + slack, 'crop: area outside of the range', crop=crop, image=full, lo=lo, hi=hi)


# ---------------------------------------------------------------------------
# Random ops: statistics over many draws.


@st.composite
def random_cases(draw):
  return dict(op=draw(st.sampled_from(['flip', 'crop'])), seed=draw(seeds), area=draw(st.sampled_from([[10, 20], [50, 60], [5, 100]])))


def run_random(case, ctx):
  img = image_of([20, 16, 3], 'uint8', case['seed'])
  tf.random.set_seed(case['seed'] % 100003)
  n = 64
  if case['op'] == 'flip':
    fn = pp_ops.flip_lr()
    ds = tf.data.Dataset.from_tensors({'image': img}).repeat(n).map(fn)
    flips = [not np.array_equal(d['image'], img) for d in ds.as_numpy_iterator()]
    require(0 < sum(flips) < n, 'flip_lr never or always flips', flips=sum(flips))
    require(10 <= sum(flips) <= 54, 'flip_lr does not flip with probability 1/2', flips=sum(flips), n=n)
  else:
    lo, hi = case['area']
    fn = pp_ops.inception_crop(area_min=lo, area_max=hi)
    ds = tf.data.Dataset.from_tensors({'image': img}).repeat(n).map(fn)
    wins = []
    for d in ds.as_numpy_iterator():
      pos = is_window(img, d['image'])
      require(bool(pos), 'inception_crop: not a window')
      check_area(d['image'].shape, img.shape, lo, hi)
      wins.append((pos[0], d['image'].shape))
    require(len(set(wins)) > 5, 'inception_crop: the windows do not vary', n=len(set(wins)))
  ctx.more(n - 1)
  ctx.nontriv(case['op'], case['seed'] % 17, *case['area'])


# ---------------------------------------------------------------------------
# Pipelines.


@st.composite
def pipe_cases(draw):
  h, w = draw(st.integers(2, 14)), draw(st.integers(2, 14))
  steps, cur, have = [], (h, w), ['image']
  for _ in range(draw(st.integers(1, 5))):
    k = draw(st.sampled_from(['crop', 'resize', 'range', 'copy', 'onehot', 'keep', 'mirror_keys']))
    if k == 'crop':
      cur = (draw(st.integers(1, cur[0])), draw(st.integers(1, cur[1])))
      steps.append(['crop', list(cur)])
    elif k == 'resize':
      cur = (draw(st.integers(1, 16)), draw(st.integers(1, 16)))
      steps.append(['resize', list(cur)])
    elif k == 'range':
      steps.append(['range', draw(st.sampled_from([[-1, 1], [0, 1], [3, 7]]))])
    elif k == 'copy':
      steps.append(['copy', ['image', f'copy{len(steps)}']])
      have.append(f'copy{len(steps) - 1}')
    elif k == 'onehot':
      steps.append(['onehot', f'hot{len(steps)}'])
      have.append(f'hot{len(steps) - 1}')
    elif k == 'keep':
      steps.append(['keep', sorted(set(['image', 'labels'] + draw(st.lists(st.sampled_from(have), max_size=3))))])
    else:
      steps.append(['range_to', f'r{len(steps)}'])
      have.append(f'r{len(steps) - 1}')
  return dict(h=h, w=w, steps=steps, seed=draw(seeds), how=draw(st.sampled_from(['call', 'graph', 'graph_dyn'])), sp=draw(st.sampled_from(['|', '|', '|'])), labels=draw(st.lists(st.integers(0, 6), min_size=1, max_size=4)))


def run_pipe(case, ctx):
  img = image_of([case['h'], case['w'], 3], 'float32', case['seed'])
  labels = np.asarray(case['labels'], np.int64)
  cur = {'image': img.astype(np.float64), 'labels': labels.astype(np.float64), 'junk': np.ones(2), VALID: np.asarray(1.0)}
  ops = []
  gain = 100.0
  for k, a in case['steps']:
    if k == 'crop':
      ops.append(f'central_crop(({a[0]}, {a[1]}))')
      y, x = (cur['image'].shape[0] - a[0]) // 2, (cur['image'].shape[1] - a[1]) // 2
      cur['image'] = cur['image'][y:y + a[0], x:x + a[1]]
    elif k == 'resize':
      ops.append(f'resize([{a[0]}, {a[1]}])')
      cur['image'] = ref_resize(cur['image'], a, 'bilinear')
    elif k == 'range':
      ops.append(f'value_range({a[0]}, {a[1]})')
      cur['image'] = a[0] + cur['image'] / 255.0 * (a[1] - a[0])
    elif k == 'range_to':
      ops.append(f'value_range(-2, 3, in_max=10, outkey="{a}")')
      cur[a] = -2 + cur['image'] / 10.0 * 5
    elif k == 'copy':
      ops.append(f"copy('{a[0]}', outkey='{a[1]}')")
      cur[a[1]] = cur[a[0]]
    elif k == 'onehot':
      ops.append(f'onehot(7, outkey="{a}")')
      v = np.zeros(7)
      v[labels] = 1
      cur[a] = v
    else:
      ops.append('keep(' + ', '.join(repr(n) for n in a) + ')')
      cur = {n: v for n, v in cur.items() if n in a or n == VALID}
  text = case['sp'].join(ops)
  fn = input_pipeline.get_data_process_fn(text)
  data = {'image': tf.constant(img), 'labels': tf.constant(labels), 'junk': tf.ones(2), VALID: tf.constant(True)}
  out = apply_fn(fn, data, case['how'])
  require(sorted(out) == sorted(cur), 'pipeline: wrong features', got=sorted(out), want=sorted(cur), pipeline=text)
  for k, v in cur.items():
    npu.close(np.asarray(out[k]).astype(np.float64), v, f'pipeline {text}: {k}', 1e-4, 1e-3)
  if len(ops) > 1:
    ctx.nontriv(*[s[0] for s in case['steps']])


# ---------------------------------------------------------------------------
# Strings that have to be rejected.


@st.composite
def bad_cases(draw):
  return dict(s=draw(st.sampled_from(['nosuchop(3)', 'resize', 'resize(', 'resize(3)|', '|resize(3)', 'resize(3)||flip_lr', 'resize(x)', 'resize(1+__import__("os").getpid())', 'keep("a")|nosuch', 'resize((3, 4)', 'resize(open("/nonexistent"))', 'resize(3); flip_lr', 'lambda: 3', 'resize(resize_size=q)', 'resize(nosucharg=3)'])), data=draw(st.sampled_from(['dict', 'list', 'tensor', 'none'])))


def run_bad(case, ctx):
  if case['s'] in ('resize',):
    # A name without arguments is a call without arguments: the op needs one.
    pass
  try:
    fn = input_pipeline.get_data_process_fn(case['s'])
  except Exception:  # pylint: disable=broad-except
    ctx.nontriv('string', case['s'])
  else:
    require(False, f'pipeline {case["s"]!r} was accepted', fn=fn)
  fn = input_pipeline.get_data_process_fn('keep("image")')
  bad = {'list': [1], 'tensor': tf.ones(3), 'none': None}.get(case['data'])
  if case['data'] != 'dict':
    try:
      fn(bad)
    except TypeError:
      ctx.nontriv('data', case['data'])
    else:
      require(False, 'a pipeline accepted something which is not a dictionary of features', data=case['data'])


SUBS = [
    Sub('ops', op_cases(), run_op, quick=1100, thorough=20000),
    Sub('random', random_cases(), run_random, quick=28, thorough=300),
    Sub('pipelines', pipe_cases(), run_pipe, quick=250, thorough=5000),
    Sub('rejects', bad_cases(), run_bad, quick=40, thorough=100, max_shards=2),
]
