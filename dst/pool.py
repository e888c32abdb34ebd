"""Simulated `multiprocessing.pool.ThreadPool` (and ThreadPoolExecutor)."""
import itertools

from dst import kernel as kernel_lib


class _Result:
  """ApplyResult/MapResult semantics of CPython."""

  def __init__(self, nchunks, length, single, callback=None,
               error_callback=None):
    self._left = nchunks
    self._value = [None] * length
    self._single = single
    self._ok = True
    self._ready = nchunks == 0
    self._cb, self._ecb = callback, error_callback

  def _set(self, start, success, value):
    self._left -= 1
    if success and self._ok:
      self._value[start:start + len(value)] = value
    elif not success and self._ok:
      self._ok, self._value = False, value
    if self._left == 0:
      if self._ok and self._cb:
        self._cb(self._value[0] if self._single else self._value)
      if not self._ok and self._ecb:
        self._ecb(self._value)
      self._ready = True

  def ready(self):
    return self._ready

  def successful(self):
    if not self._ready:
      raise ValueError(f'{self!r} not ready')
    return self._ok

  def wait(self, timeout=None):
    t = kernel_lib.current_task()
    if t is None:
      if not self._ready:
        raise RuntimeError('waiting for a simulated result outside a task')
      return
    if timeout is not None:
      # Bounded number of scheduling rounds stands for the timeout.
      for _ in range(50):
        if self._ready:
          return
        t.kernel.point('poll')
      return
    t.kernel.wait(lambda: self._ready, 'pool.get')

  def get(self, timeout=None):
    self.wait(timeout)
    if not self._ready:
      import multiprocessing
      raise multiprocessing.TimeoutError
    if self._ok:
      return self._value[0] if self._single else self._value
    raise self._value


class SimThreadPool:
  """Thread pool whose workers are simulated tasks."""

  def __init__(self, processes=None, initializer=None, initargs=(), **_):
    t = kernel_lib.current_task()
    self._procs = processes
    self._queue = []
    self._workers = 0
    self._closed = False
    self._terminated = False
    self._init = (initializer, initargs)
    self._outstanding = 0
    self._spawned = 0
    if processes is not None and processes < 1:
      raise ValueError('Number of processes must be at least 1')
    if t is not None:
      t.kernel.world.pools_created = getattr(
          t.kernel.world, 'pools_created', 0) + 1

  @property
  def _processes(self):
    return self._limit()

  def _limit(self):
    t = kernel_lib.current_task()
    if self._procs is not None:
      return min(self._procs, 8)
    return t.kernel.world.pool_procs if t is not None else 1

  def _check(self):
    if self._closed:
      raise ValueError('Pool not running')

  def _submit(self, items):
    """items: list of (result, start, thunk)."""
    t = kernel_lib.current_task()
    self._outstanding += len(items)
    if t is None:
      for res, start, thunk in items:
        self._run_one(res, start, thunk)
      return
    self._queue.extend(items)
    k = t.kernel
    for _ in range(min(self._limit() - self._workers, len(self._queue))):
      self._workers += 1
      self._spawned += 1
      k.spawn(self._worker, f'{t.name.split("/")[0]}/w{self._spawned}',
              host=t.host)
    k.point('pool.submit')

  def _run_one(self, res, start, thunk):
    try:
      value, ok = thunk(), True
    except Exception as e:  # pylint: disable=broad-except
      value, ok = e, False
    self._outstanding -= 1
    res._set(start, ok, value)  # pylint: disable=protected-access

  def _worker(self):
    t = kernel_lib.current_task()
    try:
      if self._init[0] is not None:
        self._init[0](*self._init[1])
      while self._queue:
        res, start, thunk = self._queue.pop(0)
        t.kernel.point('pool.take')
        self._run_one(res, start, thunk)
    finally:
      self._workers -= 1

  # -- public API ----------------------------------------------------------------

  def apply_async(self, func, args=(), kwds=None, callback=None,
                  error_callback=None):
    self._check()
    res = _Result(1, 1, True, callback, error_callback)
    self._submit([(res, 0, lambda: [func(*args, **(kwds or {}))])])
    return res

  def apply(self, func, args=(), kwds=None):
    return self.apply_async(func, args, kwds).get()

  def _map_async(self, func, iterable, chunksize, callback, error_callback):
    self._check()
    iterable = list(iterable)
    if chunksize is None:
      chunksize, extra = divmod(len(iterable), self._limit() * 4)
      if extra:
        chunksize += 1
    if not iterable:
      chunksize = 0
    if chunksize and chunksize < 1:
      raise ValueError(f'Chunksize must be 1+, not {chunksize}')
    chunks = []
    i = 0
    while i < len(iterable):
      chunks.append((i, iterable[i:i + chunksize]))
      i += chunksize
    res = _Result(len(chunks), len(iterable), False, callback, error_callback)
    self._submit([
        (res, s, (lambda c=c: [func(x) for x in c])) for s, c in chunks])
    return res

  def map_async(self, func, iterable, chunksize=None, callback=None,
                error_callback=None):
    return self._map_async(func, iterable, chunksize, callback, error_callback)

  def map(self, func, iterable, chunksize=None):
    return self.map_async(func, iterable, chunksize).get()

  def starmap_async(self, func, iterable, chunksize=None, callback=None,
                    error_callback=None):
    return self._map_async(lambda a: func(*a), iterable, chunksize, callback,
                           error_callback)

  def starmap(self, func, iterable, chunksize=None):
    return self.starmap_async(func, iterable, chunksize).get()

  def imap(self, func, iterable, chunksize=1):
    results = [self.apply_async(func, (x,)) for x in iterable]
    return (r.get() for r in results)

  def imap_unordered(self, func, iterable, chunksize=1):
    results = [self.apply_async(func, (x,)) for x in iterable]

    def gen():
      pending = list(results)
      while pending:
        t = kernel_lib.current_task()
        if t is not None:
          t.kernel.wait(lambda: any(r.ready() for r in pending), 'pool.imap')
        r = next(r for r in pending if r.ready())
        pending.remove(r)
        yield r.get()

    return gen()

  def close(self):
    self._closed = True

  def terminate(self):
    # Like CPython: queued work is dropped; what already started runs on.
    self._closed = self._terminated = True
    self._queue.clear()

  def join(self):
    if not self._closed:
      raise ValueError('Pool is still running')
    t = kernel_lib.current_task()
    if t is not None:
      t.kernel.wait(lambda: self._workers == 0, 'pool.join')

  def __enter__(self):
    self._check()
    return self

  def __exit__(self, *exc):
    self.terminate()


class SimFuture:

  def __init__(self, res):
    self._res = res
    self._callbacks = []

  def result(self, timeout=None):
    return self._res.get(timeout)

  def exception(self, timeout=None):
    self._res.wait(timeout)
    return None if self._res._ok else self._res._value  # pylint: disable=protected-access

  def done(self):
    return self._res.ready()

  def running(self):
    return not self._res.ready()

  def cancelled(self):
    return False

  def cancel(self):
    return False

  def add_done_callback(self, fn):
    if self._res.ready():
      fn(self)
    else:
      prev = self._res._cb, self._res._ecb  # pylint: disable=protected-access
      def cb(_):
        fn(self)
      self._res._cb = self._res._ecb = cb  # pylint: disable=protected-access
      del prev


class SimExecutor:
  """ThreadPoolExecutor over SimThreadPool."""

  def __init__(self, max_workers=None, *_, **__):
    self._pool = SimThreadPool(max_workers)

  def submit(self, fn, *args, **kwargs):
    return SimFuture(self._pool.apply_async(fn, args, kwargs))

  def map(self, fn, *iterables, timeout=None, chunksize=1):
    futs = [self.submit(fn, *a) for a in zip(*iterables)]
    return (f.result() for f in futs)

  def shutdown(self, wait=True, cancel_futures=False):
    self._pool.close()
    if wait:
      self._pool.join()

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    self.shutdown(True)


def patch_futures(module):
  """concurrent.futures.wait and as_completed of simulated futures."""
  real_wait, real_completed = module.wait, module.as_completed

  def completed(fs, timeout=None):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
      yield from real_completed(fs, timeout)
      return
    while fs:
      t = kernel_lib.current_task()
      if t is not None:
        t.kernel.wait(lambda: any(f.done() for f in fs), 'futures')
      f = next(f for f in fs if f.done())
      fs.remove(f)
      yield f

  def wait(fs, timeout=None, return_when=module.ALL_COMPLETED):
    fs = list(fs)
    if not any(isinstance(f, SimFuture) for f in fs):
      return real_wait(fs, timeout, return_when)

    def enough():
      if return_when == module.FIRST_COMPLETED:
        return any(f.done() for f in fs)
      if return_when == module.FIRST_EXCEPTION and any(
          f.done() and f.exception() is not None for f in fs):
        return True
      return all(f.done() for f in fs)

    t = kernel_lib.current_task()
    if t is not None and fs:
      t.kernel.wait(enough, 'futures')
    done = {f for f in fs if f.done()}
    return real_wait.__globals__['DoneAndNotDoneFutures'](done, set(fs) - done)

  module.as_completed, module.wait = completed, wait
