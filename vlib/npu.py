"""Numeric helpers."""
import numpy as np
from vlib.core import require, short


def to_np(x):
  return np.asarray(x)


def f64(x):
  return np.asarray(x).astype(np.float64)


def same_shape(got, want_shape, what):
  require(tuple(np.shape(got)) == tuple(want_shape), f'{what}: wrong shape', got=np.shape(got), want=tuple(want_shape))


def exact(got, want, what):
  got, want = np.asarray(got), np.asarray(want)
  same_shape(got, want.shape, what)
  if got.dtype.kind in 'fcV' or want.dtype.kind in 'fcV':
    ok = (got.astype(np.complex128) == want.astype(np.complex128)) | (
        np.isnan(got.astype(np.complex128)) & np.isnan(want.astype(np.complex128)))
  else:
    ok = got == want
  if not np.all(ok):
    i = tuple(int(v) for v in np.argwhere(~np.asarray(ok))[0]) if np.ndim(ok) else ()
    require(False, f'{what}: values differ at {i}', got=got[i], want=want[i])


def close(got, want, what, rtol=1e-5, atol=1e-6):
  got, want = f64(got), f64(want)
  same_shape(got, want.shape, what)
  with np.errstate(all='ignore'):
    err = np.abs(got - want)
    ok = (err <= atol + rtol * np.abs(want)) | (got == want) | (np.isnan(got) & np.isnan(want))
  if not np.all(ok):
    i = tuple(int(v) for v in np.argwhere(~ok)[0]) if np.ndim(ok) else ()
    require(False, f'{what}: values differ at {i}', got=float(got[i]), want=float(want[i]), rtol=rtol, atol=atol)
