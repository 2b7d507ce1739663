"""A real cluster of JAX processes on this machine, driven from the check.

Each process is a separate Python interpreter with its own (forced host)
devices, joined by jax.distributed and Gloo collectives over the loopback.
"""
import atexit
import importlib
import os
import pickle
import select
import socket
import struct
import subprocess
import sys
import time

INFRA = ('gloo', 'deadline_exceeded', 'unavailable', 'connection reset', 'connection refused', 'barrier timed out', 'coordination service', 'address already in use',
         'connection closed', 'broken pipe', 'heartbeat', 'timed out')


class ClusterError(Exception):
  """The cluster could not be started or died."""


def free_port():
  with socket.socket() as s:
    s.bind(('127.0.0.1', 0))
    return s.getsockname()[1]


class Cluster:
  """n processes of d devices each; call() runs a function on all of them."""

  def __init__(self, n, d, timeout=120):
    self.n, self.d = n, d
    self.procs = []
    port = free_port()
    for i in range(n):
      env = dict(os.environ)
      flags = [f for f in env.get('XLA_FLAGS', '').split() if 'xla_force_host_platform_device_count' not in f]
      env['XLA_FLAGS'] = ' '.join([f'--xla_force_host_platform_device_count={d}'] + flags)
      r0, w0 = os.pipe()
      r1, w1 = os.pipe()
      p = subprocess.Popen([sys.executable, '-m', 'vlib.cluster', str(r0), str(w1), str(os.getpid()), f'127.0.0.1:{port}', str(n), str(i)], env=env, pass_fds=(r0, w1), stdin=subprocess.DEVNULL)
      os.close(r0)
      os.close(w1)
      self.procs.append((p, w0, r1))
    atexit.register(self.close)
    for i, (kind, val) in enumerate(self._collect(timeout, 60)):
      if kind != 'ok':
        self.close()
        raise ClusterError(f'process {i} did not start: {kind} {val}')

  def _collect(self, timeout, grace):
    """One reply per process: ('ok', value), ('err', text), ('dead', rc) or ('hang', None)."""
    out = [None] * self.n
    buf = [b''] * self.n
    end = time.time() + timeout
    while any(o is None for o in out):
      left = end - time.time()
      if left <= 0:
        break
      fds = {self.procs[i][2]: i for i in range(self.n) if out[i] is None}
      ready, _, _ = select.select(list(fds), [], [], min(left, 1.0))
      for fd in ready:
        i = fds[fd]
        data = os.read(fd, 1 << 20)
        if not data:
          out[i] = ('dead', self.procs[i][0].poll())
        else:
          buf[i] += data
          if len(buf[i]) >= 8 and len(buf[i]) >= 8 + struct.unpack('<q', buf[i][:8])[0]:
            out[i] = pickle.loads(buf[i][8:])
        if out[i] is not None and out[i][0] != 'ok':
          # The others probably wait for this one now.
          end = min(end, time.time() + grace)
    return [o or ('hang', None) for o in out]

  def call(self, module, fn, args, timeout=240, grace=15):
    """Runs module.fn(*args[i]) on process i. Closes the cluster if a process got stuck."""
    for (_, w, _), a in zip(self.procs, args):
      data = pickle.dumps((module, fn, a))
      try:
        os.write(w, struct.pack('<q', len(data)))
        while data:
          data = data[os.write(w, data):]
      except BrokenPipeError:
        pass
    res = self._collect(timeout, grace)
    if any(k in ('dead', 'hang') for k, _ in res):
      self.close()
    return res

  @property
  def alive(self):
    return bool(self.procs)

  def close(self):
    for p, w, r in self.procs:
      p.kill()
      os.close(w)
      os.close(r)
      p.wait()
    self.procs = []


def infrastructure(res):
  """Did the cluster itself fail, rather than the code run on it?"""
  return any(k in ('dead', 'hang') or (k == 'err' and any(s in v.lower() for s in INFRA)) for k, v in res)


def _worker():
  fd_in, fd_out, parent, addr, n, i = sys.argv[1:7]
  fd_in, fd_out = int(fd_in), int(fd_out)
  import ctypes
  import signal
  import traceback
  ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # Die with the parent.
  if os.getppid() != int(parent):
    os._exit(1)
  import logging
  logging.disable(logging.WARNING)

  def reply(r):
    data = pickle.dumps(r)
    data = struct.pack('<q', len(data)) + data
    while data:
      data = data[os.write(fd_out, data):]

  def read(k):
    data = b''
    while len(data) < k:
      d = os.read(fd_in, k - len(data))
      if not d:
        os._exit(0)
      data += d
    return data
  try:
    import jax
    jax.config.update('jax_cpu_collectives_implementation', 'gloo')
    jax.distributed.initialize(addr, int(n), int(i))
    assert jax.process_index() == int(i) and jax.process_count() == int(n)
    reply(('ok', [d.id for d in jax.local_devices()]))
  except BaseException:  # pylint: disable=broad-except
    reply(('err', traceback.format_exc()))
    os._exit(1)
  while True:
    module, fn, args = pickle.loads(read(struct.unpack('<q', read(8))[0]))
    try:
      out = ('ok', getattr(importlib.import_module(module), fn)(*args))
    except BaseException as e:  # pylint: disable=broad-except
      from vlib import core  # pylint: disable=g-import-not-at-top
      out = ('harness' if isinstance(e, Exception) and core.is_harness_exception(e) else 'err', traceback.format_exc())
    reply(out)


if __name__ == '__main__':
  _worker()
