"""Installs the seams. Must run before any vmoe module is imported."""
import sys
import threading
import time

_installed = False


def install():
  """Replaces the sources of nondeterminism that vmoe uses by simulated ones.

  All of them dispatch on "is the calling thread a simulated task?", so other
  threads (jax, tensorflow, this harness) keep the real behaviour.
  """
  global _installed
  if _installed:
    return
  _installed = True
  assert not any(m == 'vmoe' or m.startswith('vmoe.') for m in sys.modules), (
      'seams must be installed before vmoe is imported')

  import multiprocessing.pool
  import multiprocessing.dummy
  import concurrent.futures
  import jax
  import jax.experimental.multihost_utils as mhu
  import numpy as np
  import tensorflow as tf
  # Everything heavy is imported before patching, so that only vmoe sees it.
  import clu.data  # pylint: disable=unused-import
  import clu.periodic_actions  # pylint: disable=unused-import
  import clu.metric_writers  # pylint: disable=unused-import
  import flax.linen  # pylint: disable=unused-import
  import flax.serialization
  # msgpack splits arrays above this size (1 GiB): lowered, so that arrays of a
  # few hundred bytes take that path too.
  flax.serialization.MAX_CHUNK_SIZE = 96

  import warnings
  warnings.filterwarnings('ignore', message='Some donated buffers')

  from absl import logging as absl_logging
  absl_logging.set_verbosity(absl_logging.FATAL)

  from dst import jaxsim
  from dst import kernel as kernel_lib
  from dst import pool
  from dst import simfs
  from dst import sync
  from dst import world as world_lib

  def from_vmoe(frame):
    return (frame.f_code.co_filename.startswith(world_lib.REPO_PREFIX) or
            frame.f_globals.get('__name__', '').partition('.')[0] == 'vmoe')

  # --- thread pools ---------------------------------------------------------
  multiprocessing.pool.ThreadPool = pool.SimThreadPool
  multiprocessing.dummy.Pool = pool.SimThreadPool
  real_tpe = concurrent.futures.ThreadPoolExecutor

  class _Executor(real_tpe):

    def __new__(cls, *a, **kw):
      if kernel_lib.current_task() is not None or from_vmoe(sys._getframe(1)):
        return pool.SimExecutor(*a, **kw)
      return super().__new__(cls)

  concurrent.futures.ThreadPoolExecutor = _Executor
  pool.patch_futures(concurrent.futures)
  sync.install(from_vmoe)

  # --- threads started by vmoe code -------------------------------------------
  real_start, real_join = threading.Thread.start, threading.Thread.join
  real_alive = threading.Thread.is_alive

  def start(self):
    t = kernel_lib.current_task()
    if t is not None and sys._getframe(1).f_code.co_filename.startswith(
        world_lib.REPO_PREFIX):
      self._sim_task = t.kernel.spawn(self.run, f'{t.name}/thread', host=t.host)
      t.kernel.point('thread.start')
      return
    real_start(self)

  def join(self, timeout=None):
    st = getattr(self, '_sim_task', None)
    if st is not None:
      st.kernel.wait(lambda: st.finished, 'thread.join')
      return
    real_join(self, timeout)

  def is_alive(self):
    st = getattr(self, '_sim_task', None)
    if st is not None:
      return not st.finished
    return real_alive(self)

  threading.Thread.start = start
  threading.Thread.join = join
  threading.Thread.is_alive = is_alive

  # --- storage ----------------------------------------------------------------
  g = tf.io.gfile
  names = ['GFile', 'copy', 'exists', 'glob', 'isdir', 'join', 'listdir',
           'makedirs', 'mkdir', 'remove', 'rename', 'rmtree', 'stat', 'walk']
  real = {n: getattr(g, n) for n in names}
  api = simfs.GfileApi(real, world_lib.active)
  for n in names:
    setattr(g, n, getattr(api, n))

  # --- clocks -------------------------------------------------------------------
  real_time, real_mono, real_perf, real_sleep = (
      time.time, time.monotonic, time.perf_counter, time.sleep)

  def _world():
    t = kernel_lib.current_task()
    if t is None:
      return None
    w = t.kernel.world
    w.now += 1e-6       # no two readings are equal
    w.mono += 1e-6
    return w

  def sim_time():
    w = _world()
    return real_time() if w is None else w.now

  def sim_mono():
    w = _world()
    return real_mono() if w is None else w.mono

  def sim_perf():
    w = _world()
    return real_perf() if w is None else w.mono

  def sim_sleep(s):
    w = _world()
    if w is None:
      return real_sleep(s)
    w.now += s
    w.mono += s
    w.kernel.point('sleep')

  time.time, time.monotonic, time.perf_counter, time.sleep = (
      sim_time, sim_mono, sim_perf, sim_sleep)

  # --- jax process topology and collectives ----------------------------------------
  def by_host(real_fn, sim_fn):
    def fn(*a, **kw):
      h = world_lib.current_host()
      if h is None or not getattr(world_lib.active(), 'multihost', True):
        return real_fn(*a, **kw)
      return sim_fn(h)
    fn.__name__ = getattr(real_fn, '__name__', 'fn')
    return fn

  jax.process_index = by_host(jax.process_index, lambda h: h.index)
  jax.process_count = by_host(
      jax.process_count, lambda h: len(world_lib.active().hosts))
  jax.local_device_count = by_host(
      jax.local_device_count, lambda h: h.num_devices)
  jax.device_count = by_host(
      jax.device_count,
      lambda h: sum(x.num_devices for x in world_lib.active().hosts))

  real_pmap = jax.pmap
  jitted = {}

  def sim_pmap(fun, axis_name=None, *args, **kwargs):
    real_fn = None

    def call(*xs):
      nonlocal real_fn
      h = world_lib.current_host()
      if h is None:
        if real_fn is None:
          real_fn = real_pmap(fun, axis_name, *args, **kwargs)
        return real_fn(*xs)
      w = world_lib.active()
      xs = [np.asarray(x) for x in xs]
      for x in xs:
        if x.shape[0] != h.num_devices:
          raise ValueError(f'pmap: leading axis {x.shape[0]} differs from the '
                           f'number of local devices {h.num_devices}')

      def combine(values):
        sizes = [v[0].shape[0] for v in values]
        cat = [np.concatenate([v[i] for v in values])
               for i in range(len(values[0]))]
        key = (fun, axis_name)
        if key not in jitted:
          jitted[key] = jax.jit(jax.vmap(fun, axis_name=axis_name))
        out = np.asarray(jitted[key](*cat))
        pos, res = 0, []
        for s in sizes:
          res.append(out[pos:pos + s])
          pos += s
        return res

      return w.collective(xs, combine, 'collective')

    return call

  jax.pmap = sim_pmap

  real_cb = jax.make_array_from_callback

  def make_array_from_callback(shape, sharding, data_callback, *a, **kw):
    if isinstance(sharding, jaxsim.SimSharding):
      return jaxsim.make_array_from_callback(shape, sharding, data_callback)
    return real_cb(shape, sharding, data_callback, *a, **kw)

  jax.make_array_from_callback = make_array_from_callback

  real_sync = mhu.sync_global_devices

  def sync_global_devices(name):
    h = world_lib.current_host()
    if h is None:
      return real_sync(name)
    names_ = world_lib.active().collective(
        name, lambda vs: [vs] * len(vs), 'sync_global')
    if any(n != names_[0] for n in names_):
      raise AssertionError(f'sync_global_devices name mismatch: {names_}')

  mhu.sync_global_devices = sync_global_devices


# --- hash() ---------------------------------------------------------------------
# The hash of a string is different in every process (PYTHONHASHSEED).


def _has_str(v):
  if isinstance(v, (str, bytes)):
    return True
  if isinstance(v, (tuple, frozenset)):
    return any(_has_str(x) for x in v)
  return False


def sim_hash(v):
  import builtins
  import zlib
  from dst import world as world_lib
  h = world_lib.current_host()
  if h is None or not _has_str(v):
    return builtins.hash(v)
  builtins.hash(v)       # unhashable values still raise
  if isinstance(v, frozenset):
    v = tuple(sorted(v, key=repr))
  salt = f'{world_lib.active().tag}/{h.index}/{v!r}'.encode()
  out = zlib.crc32(salt) | zlib.crc32(salt[::-1]) << 32
  return out - (1 << 63)


def shadow_hash():
  """Gives every imported vmoe module the hash function of its process."""
  for name, m in list(sys.modules.items()):
    if (name == 'vmoe' or name.startswith('vmoe.')) and m is not None:
      if 'hash' not in m.__dict__:
        m.__dict__['hash'] = sim_hash
