"""Locks, conditions, events, semaphores and queues of vmoe code.

A real lock would block the thread that has the baton of the kernel. These wait
in the kernel instead, so that they are scheduling points too.
"""
import queue as queue_lib
import threading
import types

from dst import kernel as kernel_lib

MAX_POLLS = 50      # scheduling rounds that stand for a timeout


def _me():
  t = kernel_lib.current_task()
  return t if t is not None else threading.get_ident()


def _wait(pred, label, timeout=None, blocking=True):
  """True if pred holds (after waiting for it)."""
  t = kernel_lib.current_task()
  if t is None:
    if not pred() and blocking and timeout is None:
      raise RuntimeError(f'{label}: waiting outside of a simulated task')
    return pred()
  if not blocking:
    return pred()
  if timeout is not None and timeout >= 0:
    for _ in range(MAX_POLLS):
      if pred():
        return True
      t.kernel.point(label)
    return pred()
  t.kernel.wait(pred, label)
  return True


def _point(label):
  t = kernel_lib.current_task()
  if t is not None:
    t.kernel.point(label)


class PerProcess:
  """State that every simulated process has for itself.

  The modules of vmoe are imported once for all simulated hosts and restarts; an
  object that lives in a module must not couple them.
  """

  def _fresh(self):
    return {}

  def _st(self):
    t = kernel_lib.current_task()
    kernel, host = (None, None) if t is None else (t.kernel, t.host)
    d = self.__dict__
    if '_kernel' not in d or d['_kernel'] is not kernel:
      d['_kernel'], d['_states'] = kernel, {}
    key = None if host is None else getattr(host, 'index', host)
    if key not in d['_states']:
      d['_states'][key] = types.SimpleNamespace(**self._fresh())
    return d['_states'][key]


def field(name):
  def get(self):
    return getattr(self._st(), name)

  def set_(self, value):
    setattr(self._st(), name, value)

  return property(get, set_)


class SimLock(PerProcess):
  """threading.Lock."""
  reentrant = False

  _owner, _count = field('_owner'), field('_count')

  def _fresh(self):
    return {'_owner': None, '_count': 0}

  def acquire(self, blocking=True, timeout=-1):
    me = _me()
    if self.reentrant and self._owner is me:
      self._count += 1
      return True
    _point('lock.acquire')
    if not _wait(lambda: self._count == 0, 'lock.acquire',
                 timeout if timeout is not None and timeout >= 0 else None,
                 blocking):
      return False
    self._owner, self._count = me, 1
    return True

  def release(self):
    if self._count == 0:
      raise RuntimeError('release unlocked lock')
    if self.reentrant and self._owner is not _me():
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if self._count == 0:
      self._owner = None
      _point('lock.release')

  def locked(self):
    return self._count > 0

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *exc):
    self.release()

  # Used by Condition.
  def _release_save(self):
    n, self._count, self._owner = self._count, 0, None
    return n

  def _acquire_restore(self, n):
    _wait(lambda: self._count == 0, 'lock.acquire')
    self._count, self._owner = n, _me()


class SimRLock(SimLock):
  reentrant = True


class SimCondition(PerProcess):
  _waiters = field('_waiters')

  def _fresh(self):
    return {'_waiters': []}

  def __init__(self, lock=None):
    self._lock = lock if lock is not None else SimRLock()
    self.acquire, self.release = self._lock.acquire, self._lock.release

  def __enter__(self):
    return self._lock.__enter__()

  def __exit__(self, *exc):
    return self._lock.__exit__(*exc)

  def wait(self, timeout=None):
    if not self._lock.locked():
      raise RuntimeError('cannot wait on un-acquired lock')
    token = [False]
    self._waiters.append(token)
    saved = self._lock._release_save()  # pylint: disable=protected-access
    try:
      ok = _wait(lambda: token[0], 'condition.wait', timeout)
    finally:
      self._lock._acquire_restore(saved)  # pylint: disable=protected-access
    if not ok and token in self._waiters:
      self._waiters.remove(token)
    return ok

  def wait_for(self, predicate, timeout=None):
    result = predicate()
    polls = 0
    while not result:
      if not self.wait(timeout):
        return predicate()
      polls += 1
      result = predicate()
    return result

  def notify(self, n=1):
    if not self._lock.locked():
      raise RuntimeError('cannot notify on un-acquired lock')
    for token in self._waiters[:n]:
      token[0] = True
    del self._waiters[:n]

  def notify_all(self):
    self.notify(len(self._waiters))

  notifyAll = notify_all


class SimEvent(PerProcess):
  _flag = field('_flag')

  def _fresh(self):
    return {'_flag': False}

  def is_set(self):
    return self._flag

  isSet = is_set

  def set(self):
    self._flag = True
    _point('event.set')

  def clear(self):
    self._flag = False

  def wait(self, timeout=None):
    return _wait(lambda: self._flag, 'event.wait', timeout)


class SimSemaphore(PerProcess):
  bounded = False
  _value = field('_value')

  def _fresh(self):
    return {'_value': self._initial}

  def __init__(self, value=1):
    if value < 0:
      raise ValueError('semaphore initial value must be >= 0')
    self._initial = value

  def acquire(self, blocking=True, timeout=None):
    _point('semaphore.acquire')
    if not _wait(lambda: self._value > 0, 'semaphore.acquire', timeout,
                 blocking):
      return False
    self._value -= 1
    return True

  def release(self, n=1):
    if self.bounded and self._value + n > self._initial:
      raise ValueError('Semaphore released too many times')
    self._value += n
    _point('semaphore.release')

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *exc):
    self.release()


class SimBoundedSemaphore(SimSemaphore):
  bounded = True


class SimBarrier(PerProcess):
  _generation, _count = field('_generation'), field('_count')
  broken = field('broken')

  def _fresh(self):
    return {'_generation': 0, '_count': 0, 'broken': False}

  def __init__(self, parties, action=None, timeout=None):
    del timeout
    self.parties, self._action = parties, action

  @property
  def n_waiting(self):
    return self._count

  def wait(self, timeout=None):
    gen, index = self._generation, self._count
    self._count += 1
    if self._count == self.parties:
      if self._action:
        self._action()
      self._generation += 1
      self._count = 0
      _point('barrier')
      return index
    if not _wait(lambda: self._generation != gen, 'barrier', timeout):
      self.broken = True
      raise threading.BrokenBarrierError
    return index


class SimQueue(PerProcess):
  """queue.Queue."""
  queue, unfinished_tasks = field('queue'), field('unfinished_tasks')

  def _fresh(self):
    return {'queue': [], 'unfinished_tasks': 0}

  def __init__(self, maxsize=0):
    self.maxsize = maxsize

  def _take(self):
    return self.queue.pop(0)

  def _add(self, item):
    self.queue.append(item)

  def qsize(self):
    return len(self.queue)

  def empty(self):
    return not self.queue

  def full(self):
    return 0 < self.maxsize <= len(self.queue)

  def put(self, item, block=True, timeout=None):
    _point('queue.put')
    if not _wait(lambda: not self.full(), 'queue.put', timeout, block):
      raise queue_lib.Full
    self._add(item)
    self.unfinished_tasks += 1
    _point('queue.put')

  def get(self, block=True, timeout=None):
    _point('queue.get')
    if not _wait(lambda: bool(self.queue), 'queue.get', timeout, block):
      raise queue_lib.Empty
    return self._take()

  def put_nowait(self, item):
    self.put(item, False)

  def get_nowait(self):
    return self.get(False)

  def task_done(self):
    if self.unfinished_tasks <= 0:
      raise ValueError('task_done() called too many times')
    self.unfinished_tasks -= 1

  def join(self):
    _wait(lambda: self.unfinished_tasks == 0, 'queue.join')


class SimLifoQueue(SimQueue):

  def _take(self):
    return self.queue.pop()


class SimPriorityQueue(SimQueue):

  def _take(self):
    import heapq
    return heapq.heappop(self.queue)

  def _add(self, item):
    import heapq
    heapq.heappush(self.queue, item)


def install(from_vmoe):
  """from_vmoe(frame): was this called by vmoe code?"""
  import sys

  def function(real, sim):
    def make(*a, **kw):
      if from_vmoe(sys._getframe(1)):
        return sim(*a, **kw)
      return real(*a, **kw)
    make.__name__ = getattr(real, '__name__', 'make')
    return make

  def cls(real, sim):
    class Dispatch(real):

      def __new__(c, *a, **kw):
        if c is Dispatch and from_vmoe(sys._getframe(1)):
          return sim(*a, **kw)
        return super().__new__(c)

    Dispatch.__name__ = Dispatch.__qualname__ = real.__name__
    return Dispatch

  threading.Lock = function(threading.Lock, SimLock)
  threading.RLock = function(threading.RLock, SimRLock)
  for name, sim in [('Condition', SimCondition), ('Event', SimEvent),
                    ('Semaphore', SimSemaphore),
                    ('BoundedSemaphore', SimBoundedSemaphore),
                    ('Barrier', SimBarrier)]:
    setattr(threading, name, cls(getattr(threading, name), sim))
  for name, sim in [('Queue', SimQueue), ('LifoQueue', SimLifoQueue),
                    ('PriorityQueue', SimPriorityQueue)]:
    setattr(queue_lib, name, cls(getattr(queue_lib, name), sim))
  queue_lib.SimpleQueue = function(queue_lib.SimpleQueue, SimQueue)
