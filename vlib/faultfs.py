"""A fault-injecting layer over tf.io.gfile: crashes and I/O errors at any file operation."""
import contextlib
import os
import threading
from unittest import mock

import tensorflow as tf


class Crash(Exception):
  """The process died here."""


class FaultFS:
  """Replaces the functions of tf.io.gfile that touch files.

  Every write, close, rename, remove... is a sequence of points. At the k-th
  point (fault_at) it crashes (every later operation has no effect and raises
  Crash) or raises an I/O error once. With per_file={basename: k} each file
  stops at its own k-th point, which is what a crash under an arbitrary
  interleaving of the threads writing them leaves behind.

  Written data only reaches the file completely when it is closed or flushed.
  """

  def __init__(self, fault_at=None, kind='crash', per_file=None):
    self.fault_at, self.kind = fault_at, kind
    self.per_file = per_file
    self.count = 0
    self.counts = {}
    self.crashed = False
    self.trace = []
    self.lock = threading.RLock()

  def point(self, op, path):
    with self.lock:
      if self.crashed:
        raise Crash('crashed before')
      k = self.count
      self.count += 1
      self.trace.append((op, os.path.basename(str(path))))
      if self.per_file is not None:
        for name, limit in self.per_file.items():
          if name in os.path.basename(str(path)):
            c = self.counts[name] = self.counts.get(name, 0) + 1
            if c > limit:
              raise Crash(f'file {name} stopped at {op}')
      elif self.fault_at is not None and k == self.fault_at:
        if self.kind == 'crash':
          self.crashed = True
          raise Crash(f'crash at point {k}: {op} {path}')
        raise tf.errors.UnknownError(None, None, f'injected I/O error at point {k}: {op} {path}')

  def dead(self, path):
    """True if operations on the path have no effect any more."""
    if self.crashed:
      return True
    if self.per_file is not None:
      for name, limit in self.per_file.items():
        if name in os.path.basename(str(path)) and self.counts.get(name, 0) > limit:
          return True
    return False

  def __enter__(self):
    fs = self
    gf = tf.io.gfile
    real = {n: getattr(gf, n) for n in ('GFile', 'rename', 'remove', 'makedirs', 'mkdir', 'copy', 'rmtree')}

    class FaultFile:
      """A file opened for writing."""

      def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.pending = b''
        self.fd = None
        self.closed = False
        fs.point('open', name)

      def _create(self):
        if self.fd is None:
          flags = 'ab' if 'a' in self.mode else 'wb'
          self.fd = open(self.name, flags, buffering=0)

      def write(self, data):
        fs.point('write', self.name)
        if isinstance(data, str):
          data = data.encode()
        self._create()
        fs.point('write:created', self.name)
        data = self.pending + bytes(data)
        n = (len(data) + 1) // 2
        self.fd.write(data[:n])
        self.pending = data[n:]
        fs.point('write:partial', self.name)
        return len(data)

      def flush(self):
        fs.point('flush', self.name)
        self._create()
        self.fd.write(self.pending)
        self.pending = b''

      def close(self):
        if self.closed:
          return
        self.closed = True
        try:
          if fs.dead(self.name):
            return
          fs.point('close', self.name)
          self._create()
          if self.pending:
            self.fd.write(self.pending)
            self.pending = b''
          fs.point('closed', self.name)
        finally:
          if self.fd is not None:
            self.fd.close()
            self.fd = None

      def __enter__(self):
        return self

      def __exit__(self, *a):
        self.close()
        return False

      def __del__(self):
        try:
          if self.fd is not None:
            self.fd.close()
        except Exception:  # pylint: disable=broad-except
          pass

    def gfile_open(name, mode='r', *a, **k):
      if any(c in mode for c in 'wa+'):
        return FaultFile(name, mode)
      if fs.dead(name):
        raise Crash('crashed before')
      return real['GFile'](name, mode, *a, **k)

    def two(opname):
      def fn(path, *a, **k):
        fs.point(opname, path)
        out = real[opname](path, *a, **k)
        fs.point(opname + ':done', path)
        return out
      return fn

    def rename(src, dst, overwrite=False):
      fs.point('rename', dst)
      real['rename'](src, dst, overwrite=overwrite)
      fs.point('rename:done', dst)

    def copy(src, dst, overwrite=False):
      fs.point('copy', dst)
      if os.path.exists(dst) and not overwrite:
        raise tf.errors.AlreadyExistsError(None, None, 'file already exists')
      with open(src, 'rb') as f:
        data = f.read()
      with open(dst, 'wb', buffering=0) as f:
        fs.point('copy:created', dst)
        f.write(data[:(len(data) + 1) // 2])
        fs.point('copy:partial', dst)
        f.write(data[(len(data) + 1) // 2:])
      fs.point('copy:done', dst)

    subs = dict(GFile=gfile_open, rename=rename, copy=copy, **{n: two(n) for n in ('remove', 'makedirs', 'mkdir', 'rmtree')})
    self.stack = contextlib.ExitStack()
    for n, f in subs.items():
      self.stack.enter_context(mock.patch.object(gf, n, f))
    return self

  def __exit__(self, *exc):
    self.stack.close()
    return False
