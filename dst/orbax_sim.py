"""A stand-in for orbax.checkpoint.CheckpointManager on the simulated storage.

It has the documented semantics of the parts that vmoe uses: saves on an
interval (or if forced), asynchronous writes that all processes take part in,
an atomic commit by the main process once all parts are written, retention,
errors of the background work raised by the next call, and restores of the
committed steps. Only committed steps survive a crash.
"""
import json
import numpy as np

from dst import kernel as kernel_lib
from dst import world as world_lib

_installed = False


class SaveFailed(Exception):
  pass


class StepAlreadyExists(ValueError):
  pass


def flat(tree):
  import flax.serialization
  import flax.traverse_util
  d = flax.serialization.to_state_dict(tree)
  return flax.traverse_util.flatten_dict(d, sep='/', keep_empty_nodes=True)


def is_empty(v):
  import flax.traverse_util
  return v is flax.traverse_util.empty_node


class Store:
  """Committed checkpoints of one directory (survives crashes)."""

  def __init__(self):
    self.steps = {}       # step -> {item: value}
    self.log = []         # ('commit'|'delete'|'start'|'restore', step, world tag)
    self.overwritten = []


def store_of(fs, directory):
  stores = fs.__dict__.setdefault('orbax_stores', {})
  return stores.setdefault(str(directory).rstrip('/'), Store())


class _Job:
  """One save in progress, shared by the hosts of a world."""

  def __init__(self, step, hosts):
    self.step = step
    self.items = None
    self.parts = set()
    self.hosts = hosts
    self.state = 'writing'    # committed | failed


class CheckpointManager:

  def __init__(self, directory, checkpointers=None, options=None, metadata=None,
               **kw):
    del metadata, kw
    self.w = world_lib.active()
    self.h = world_lib.current_host()
    self.directory = str(directory).rstrip('/')
    self.options = options
    self.items = (None if checkpointers is None
                  else set(checkpointers) if isinstance(checkpointers, dict)
                  else {'default'})
    self.store = store_of(self.w.fs, self.directory)
    self.w.kernel.point('orbax.open')
    # The list of steps is read by all processes together.
    steps = self.w.collective(
        None, lambda vs: [sorted(self.store.steps)] * len(vs), 'orbax.open')
    self.w.fs.add_dirs(self.directory)
    self.known = list(steps)
    self.current = None
    self.error = None
    self.closed = False

  # -- queries

  def all_steps(self, read=False):
    del read
    return sorted(self.known)

  def latest_step(self):
    return max(self.known) if self.known else None

  def should_save(self, step):
    o = self.options
    latest = self.latest_step()
    if latest is not None and latest >= step:
      return False
    interval = getattr(o, 'save_interval_steps', 1) or 1
    if latest is None:
      return True
    return step % interval == 0

  # -- saving

  def save(self, step, items=None, save_kwargs=None, metrics=None, force=False,
           *, args=None):
    del save_kwargs, metrics
    step = int(step)
    self._raise()
    if not force and not self.should_save(step):
      return False
    self.wait_until_finished()
    if step in self.known:
      raise StepAlreadyExists(f'step {step} exists')
    if args is not None:
      items = {k: getattr(v, 'item', v) for k, v in args.items()}
    if self.items is not None and set(items) - self.items:
      raise ValueError(f'unknown items {set(items) - self.items}')
    # Device to host, before returning.
    snap = {k: snapshot(v) for k, v in items.items()}
    w, h = self.w, self.h

    def combine(values):
      if any(v[0] != values[0][0] for v in values):
        return [ValueError(
            f'processes save different steps: {[v[0] for v in values]}')] * len(
                values)
      job = _Job(values[0][0], len(values))
      job.items = [v[1] for v in values]
      w.__dict__.setdefault('orbax_jobs', []).append(job)
      return [job] * len(values)

    job = w.collective((step, snap), combine, 'orbax.save')
    if isinstance(job, Exception):
      raise job
    self.known.append(step)
    self.current = job
    self.store.log.append(('start', step, h.index))
    w.kernel.spawn(lambda: self._background(job), f'orbax{h.index}',
                   host=h.index)
    return True

  def _background(self, job):
    w, h = self.w, self.h
    for k in range(3):
      w.kernel.point(f'orbax.write{k}')
    f = w.fs_point('orbax.write', f'{self.directory}/{job.step}')
    if f is not None:
      job.state = 'failed'
      self.error = SaveFailed(f'step {job.step}: {f["err"]}')
      return
    job.parts.add(h.index)

    def gone():
      return any(i not in job.parts and (not x.alive or x.main.finished)
                 for i, x in enumerate(w.hosts))

    if h.index == 0:
      w.kernel.wait(lambda: len(job.parts) == job.hosts
                    or job.state == 'failed' or gone(), 'orbax.parts')
      if job.state == 'failed' or len(job.parts) < job.hosts:
        job.state = 'failed'
        self.error = SaveFailed(f'step {job.step}: a process failed')
        return
      f = w.fs_point('orbax.commit', f'{self.directory}/{job.step}')
      if f is not None:
        job.state = 'failed'
        self.error = SaveFailed(f'step {job.step}: {f["err"]}')
        return
      self._commit(job)
      w.kernel.point('orbax.committed')
      self._retain()
    else:
      w.kernel.wait(lambda: job.state != 'writing' or gone()
                    or not w.hosts[0].alive or w.hosts[0].main.finished,
                    'orbax.commit')
      if job.state != 'committed':
        self.error = SaveFailed(f'step {job.step}: no commit')

  def _commit(self, job):
    path = f'{self.directory}/{job.step}'
    if job.step in self.store.steps:
      self.store.overwritten.append(job.step)
    self.store.steps[job.step] = {'hosts': job.items}
    self.store.log.append(('commit', job.step, self.h.index))
    self.w.__dict__.setdefault('orbax_committed', {})[job.step] = job.items
    self.w.fs.dirs.add(path)
    job.state = 'committed'

  def _retain(self):
    o = self.options
    keep, period = o.max_to_keep, o.keep_period
    if keep is None:
      return
    steps = sorted(self.store.steps)
    for s in steps[:max(0, len(steps) - keep)]:
      if period is not None and s % period == 0:
        continue
      self.w.kernel.point('orbax.delete')
      del self.store.steps[s]
      self.store.log.append(('delete', s, None))
      self.w.fs.dirs.discard(f'{self.directory}/{s}')

  def wait_until_finished(self):
    job, w, h = self.current, self.w, self.h
    if job is not None:
      h.waiting_collective = 'orbax'
      w.kernel.wait(lambda: job.state != 'writing' or self.error is not None,
                    'orbax.wait')
      h.waiting_collective = None
      self.current = None
    self._raise()

  def _raise(self):
    if self.error is not None:
      e, self.error = self.error, None
      raise e

  check_for_errors = _raise

  def close(self):
    self.wait_until_finished()
    self.closed = True

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  # -- restoring

  def restore(self, step, items=None, restore_kwargs=None, directory=None, *,
              args=None):
    del directory
    w = self.w
    step = int(step) if step is not None else self.latest_step()
    if w.fs_point('orbax.restore', f'{self.directory}/{step}') is not None:
      raise OSError(f'cannot read step {step}')
    if step not in self.store.steps:
      raise FileNotFoundError(f'{self.directory}/{step}')
    self.store.log.append(('restore', step, self.h.index))
    saved = self.store.steps[step]['hosts'][0]
    out = {}
    if args is not None:
      wanted = dict(args.items())
    else:
      wanted = {k: (items or {}).get(k) for k in saved}
    for name, a in wanted.items():
      if name not in saved:
        raise KeyError(name)
      template = getattr(a, 'item', a)
      ra = getattr(a, 'restore_args', None)
      if ra is None and restore_kwargs:
        ra = (restore_kwargs.get(name) or {}).get('restore_args')
      if template is None:
        out[name] = _copy(saved[name][1])
        continue
      out[name] = rebuild(saved[name], template, ra)
    w.kernel.point('orbax.restored')
    return out


def snapshot(tree):
  fl = flat(tree)
  vals = {}
  for k, v in fl.items():
    if is_empty(v):
      continue
    vals[k] = np.array(v) if hasattr(v, 'shape') else v
  raw = None
  if isinstance(tree, dict) and all(
      isinstance(v, (int, float, str, bool, type(None))) for v in tree.values()):
    raw = dict(tree)
  return (vals, raw)


def _copy(raw):
  return None if raw is None else dict(raw)


def rebuild(saved, template, restore_args):
  import flax.serialization
  import flax.traverse_util
  import jax
  vals = saved[0]
  fl = flat(template)
  want = {k for k, v in fl.items() if not is_empty(v)}
  if want != set(vals):
    raise ValueError(f'tree structures differ: {sorted(want ^ set(vals))}')
  ra = None if restore_args is None else flat(restore_args)
  out = {}
  for k, t in fl.items():
    if is_empty(t):
      out[k] = t
      continue
    v = vals[k]
    r = ra[k] if ra is not None else None
    sharding = getattr(r, 'sharding', None)
    if sharding is None:
      sharding = getattr(t, 'sharding', None)
    dtype = getattr(r, 'dtype', None) or t.dtype
    if tuple(v.shape) != tuple(t.shape):
      raise ValueError(f'{k}: shapes differ: {v.shape} and {t.shape}')
    v = v.astype(dtype)
    out[k] = (jax.device_put(v, sharding) if sharding is not None
              else jax.numpy.asarray(v))
  return flax.serialization.from_state_dict(
      template, flax.traverse_util.unflatten_dict(out, sep='/'))


def install():
  global _installed
  if _installed:
    return
  _installed = True
  import orbax.checkpoint as ocp
  real_manager = ocp.CheckpointManager

  def manager(*a, **kw):
    if kernel_lib.current_task() is not None:
      return CheckpointManager(*a, **kw)
    return real_manager(*a, **kw)

  ocp.CheckpointManager = manager

  def quiet(cls):
    real_init = cls.__init__

    def init(self, *a, **kw):
      if kernel_lib.current_task() is None:
        real_init(self, *a, **kw)
      else:
        self._handler = a[0] if a else kw.get('handler')

    cls.__init__ = init

  quiet(ocp.AsyncCheckpointer)
  quiet(ocp.Checkpointer)
  ocp.AsyncCheckpointer.__del__ = lambda self: None

  def simulated(real, sim):
    def fn(self, directory, *args, **kw):
      if kernel_lib.current_task() is None:
        return real(self, directory, *args, **kw)
      return sim(str(directory), *args, **kw)
    return fn

  ocp.AsyncCheckpointer.restore = simulated(
      ocp.AsyncCheckpointer.restore, restore_directory)
  ocp.PyTreeCheckpointHandler._read_aggregate_file = simulated(  # pylint: disable=protected-access
      ocp.PyTreeCheckpointHandler._read_aggregate_file,  # pylint: disable=protected-access
      lambda d: _parse(_read(f'{d}/checkpoint')))


# -- checkpoints of a single tree (as written before OCDBT) ---------------------

HOLDER = 'PLACEHOLDER://'


def put_directory(fs, directory, flat_values):
  """Writes a checkpoint: one directory per array, other values in a file."""
  tree = {}
  for key, v in flat_values.items():
    d = tree
    *parts, last = key.split('/')
    for p in parts:
      d = d.setdefault(p, {})
    if not hasattr(v, 'shape'):
      d[last] = v
      continue
    name = key.replace('/', '.')
    d[last] = HOLDER + name
    dtype = str(v.dtype) if v.dtype.kind == 'V' else v.dtype.str
    fs.put(f'{directory}/{name}/.zarray', json.dumps(
        {'shape': list(v.shape), 'dtype': dtype}).encode())
    fs.put(f'{directory}/{name}/0', v.tobytes())
  fs.put(f'{directory}/checkpoint', json.dumps(tree).encode())


def _read(path):
  import tensorflow as tf
  with tf.io.gfile.GFile(path, 'rb') as f:
    return f.read()


def _parse(data):
  return json.loads(data)


def restore_directory(directory, *args, restore_args=None, **kw):
  import jax
  import orbax.checkpoint as ocp
  if args or kw:
    raise NotImplementedError(f'orbax stand-in: {args} {sorted(kw)}')

  def value(v, ra):
    if isinstance(v, dict):
      return {k: value(v[k], None if ra is None else ra[k]) for k in v}
    if not (isinstance(v, str) and v.startswith(HOLDER)):
      return v
    path = f'{directory}/{v[len(HOLDER):]}'
    meta = _parse(_read(f'{path}/.zarray'))
    dtype = jax.numpy.dtype(meta['dtype'])
    x = np.frombuffer(_read(f'{path}/0'), dtype).reshape(meta['shape'])
    if getattr(ra, 'dtype', None) is not None:
      x = x.astype(ra.dtype)
    if not isinstance(ra, ocp.ArrayRestoreArgs):
      return x
    if ra.global_shape is not None and tuple(ra.global_shape) != x.shape:
      raise ValueError(f'{path}: {x.shape} is not {ra.global_shape}')
    return jax.device_put(x, ra.sharding)

  return value(_parse(_read(f'{directory}/checkpoint')), restore_args)
