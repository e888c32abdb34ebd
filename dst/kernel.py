"""Deterministic cooperative kernel.

Every simulated thread ("task") is a real Python thread, but exactly one of
them runs at any time: a task keeps the baton until it reaches a *point* (an
intercepted I/O call, a collective, a pool operation, a line of vmoe code when
line preemption is on), where the scheduler decides who runs next.  All
decisions come from a `Schedule`; nothing else may switch tasks.
"""
import random
import sys
import threading
import zlib

_tls = threading.local()


class SimKilled(BaseException):
  """Unwinds a task whose host crashed (or whose simulation is over)."""


class Deadlock(Exception):
  pass


class StepLimit(Exception):
  pass


def current_task():
  return getattr(_tls, 'task', None)


class Schedule:
  """Source of scheduling decisions.

  mode 'random': draws from a PRNG and records the non-default decisions.
  mode 'replay': uses the recorded sparse decisions {decision index: choice}.
  A decision is an integer in [0, n); 0 is always the default (stay with the
  current task if it can run, else the oldest runnable task).
  """

  def __init__(self, seed=None, params=None, decisions=None):
    self.index = 0
    self.recorded = {}
    if decisions is not None:
      self._replay = {int(k): v for k, v in decisions.items()}
    else:
      self._replay = None
      self._rng = random.Random(f'sched/{seed}')
      params = params or {}
      self._p = params.get('switch', 0.3)
      self._p_line = params.get('switch_line', 0.02)
      self._starve = params.get('starve')      # host index, or None
      self._starve_until = params.get('starve_until', 0)

  def choose(self, options, can_stay, line):
    """options: list of runnable tasks, options[0] is the default."""
    i = self.index
    self.index += 1
    n = len(options)
    if n == 1:
      return options[0]
    if self._replay is not None:
      c = self._replay.get(i, 0) % n
    else:
      rng = self._rng
      if can_stay:
        p = self._p_line if line else self._p
        c = 0 if rng.random() >= p else rng.randrange(1, n)
      else:
        c = rng.randrange(n)
      if self._starve is not None and i < self._starve_until:
        if options[c].host == self._starve:
          others = [k for k in range(n) if options[k].host != self._starve]
          if others:
            c = others[rng.randrange(len(others))]
    if c:
      self.recorded[i] = c
    return options[c]


class Task:
  __slots__ = ('id', 'name', 'host', 'fn', 'thread', 'sem', 'state', 'pred',
               'label', 'result', 'exc', 'dead', 'kernel', 'group')

  def __init__(self, kernel, tid, name, host, fn, group):
    self.kernel, self.id, self.name, self.host, self.fn = (
        kernel, tid, name, host, fn)
    self.sem = threading.Semaphore(0)
    self.state = 'ready'  # ready | blocked | done
    self.pred = None
    self.label = ''
    self.result = None
    self.exc = None
    self.dead = False
    self.group = group
    self.thread = None

  @property
  def finished(self):
    return self.state == 'done'


class Kernel:
  """Runs tasks one at a time."""

  def __init__(self, schedule, *, max_steps=200_000, line_prefix=None,
               tracing=False):
    self.schedule = schedule
    self.tasks = []
    self.max_steps = max_steps
    self.steps = 0
    self.line_steps = 0
    self.max_line_steps = 20_000   # afterwards lines do not preempt any more
    self.switches = 0
    self.ending = False
    self.failure = None
    self.on_point = None      # fn(task, label): world hook (clock, crash plan)
    self.on_stuck = None      # fn() -> bool: try to make progress
    self.trace_hash = 0
    self.trace = []
    self.tracing = tracing
    self._line_prefix = line_prefix
    self._done = threading.Event()

  # -- API for the world ----------------------------------------------------

  def spawn(self, fn, name, host=None, group=None):
    t = Task(self, len(self.tasks), name, host, fn, group)
    self.tasks.append(t)
    t.thread = threading.Thread(
        target=self._main, args=(t,), name=name, daemon=True)
    t.thread.start()
    return t

  def run(self):
    """Runs until no task is left (or failure). Called from a non-sim thread."""
    nxt = self._pick(None, False)
    if nxt is not None:
      nxt.sem.release()
      if not self._done.wait(timeout=300):
        self.failure = self.failure or StepLimit('wall-clock watchdog: ' +
                                                 self.describe())
    self._teardown()
    if self.failure is not None:
      raise self.failure

  def describe(self):
    return '; '.join(f'{t.name}[{t.state}{"/dead" if t.dead else ""}@{t.label}]'
                     for t in self.tasks if t.state != 'done')

  def kill_tasks(self, pred):
    """Marks tasks as dead: they never run again (until teardown unwinding)."""
    for t in self.tasks:
      if t.state != 'done' and pred(t):
        t.dead = True

  # -- API for tasks ---------------------------------------------------------

  def point(self, label, line=False):
    t = current_task()
    if t is None or t.kernel is not self:
      return
    if self.ending or t.dead:
      raise SimKilled()
    if line:
      self.line_steps += 1
      if self.line_steps > self.max_line_steps:
        return
    else:
      self.steps += 1
    t.label = label
    if self.steps > self.max_steps:
      self._fail(StepLimit(f'more than {self.max_steps} steps: ' +
                           self.describe()))
      self._park(t)
    if not line:
      self._note(t, label)
      if self.on_point is not None:
        self.on_point(t, label)
        if t.dead:
          self._switch_from(t, False, False)
    self._switch_from(t, True, line)

  def wait(self, pred, label):
    t = current_task()
    if t is None or t.kernel is not self:
      if not pred():
        raise Deadlock(f'waiting for {label!r} outside the simulation')
      return
    self.point(label)
    while not pred():
      t.state, t.pred, t.label = 'blocked', pred, label
      self._switch_from(t, False, False)

  # -- internals --------------------------------------------------------------

  def _note(self, t, label):
    self.trace_hash = hash((self.trace_hash, t.id, _stable(label)))
    if self.tracing:
      self.trace.append((t.name, label))

  def _main(self, t):
    _tls.task = t
    t.sem.acquire()
    try:
      if self.ending or t.dead:
        raise SimKilled()
      if self._line_prefix is not None:
        sys.settrace(self._tracer)
      t.result = t.fn()
    except SimKilled:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      t.exc = e
    finally:
      sys.settrace(None)
      t.state = 'done'
      t.pred = None
      if not self.ending:
        self._switch_from(t, False, False)

  def _tracer(self, frame, event, arg):
    if event != 'call':
      return None
    if not frame.f_code.co_filename.startswith(self._line_prefix):
      return None
    return self._line_tracer

  def _line_tracer(self, frame, event, arg):
    if event == 'line' and len(self.tasks) > 1:
      self.point('line', line=True)
    return self._line_tracer

  def _runnable(self):
    out = []
    for t in self.tasks:
      if t.dead:
        continue
      if t.state == 'blocked' and t.pred():
        t.state, t.pred = 'ready', None
      if t.state == 'ready':
        out.append(t)
    return out

  def _pick(self, cur, line):
    """Chooses the next task. None means that the simulation is over."""
    while True:
      ready = self._runnable()
      if ready:
        break
      alive = [t for t in self.tasks if t.state != 'done' and not t.dead]
      if not alive:
        return None
      if self.on_stuck is not None and self.on_stuck():
        continue
      self._fail(Deadlock(self.describe()))
      return None
    stay = cur is not None and cur in ready
    if stay:
      k = ready.index(cur)
      ready = ready[k:] + ready[:k]
    return self.schedule.choose(ready, stay, line)

  def _switch_from(self, t, can_stay, line):
    nxt = self._pick(t if can_stay else None, line)
    if nxt is t:
      return
    if nxt is None:
      self._done.set()
    else:
      self.switches += 1
      nxt.sem.release()
    if t.state != 'done':
      self._park(t)

  def _park(self, t):
    t.sem.acquire()
    if self.ending or t.dead:
      raise SimKilled()

  def _fail(self, exc):
    if self.failure is None:
      self.failure = exc
    self._done.set()

  def _teardown(self):
    self.ending = True
    for t in self.tasks:
      if t.thread.is_alive():
        t.sem.release()
        t.thread.join(timeout=20)
        if t.thread.is_alive():
          self.failure = self.failure or StepLimit(
              f'task {t.name} did not stop')


def _stable(label):
  # str hashes depend on PYTHONHASHSEED; use a stable digest instead.
  return zlib.crc32(label.encode())
