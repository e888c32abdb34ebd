"""A simulated job: hosts, shared storage, collectives, clock and fault plan."""
import random

from dst import kernel as kernel_lib

REPO_PREFIX = '/repo/vmoe/'

_active = None


def active():
  """The world of the calling simulated task (None for ordinary threads)."""
  t = kernel_lib.current_task()
  if t is not None:
    return t.kernel.world
  return _active


def current_host():
  t = kernel_lib.current_task()
  if t is None or t.host is None:
    return None
  return t.kernel.world.hosts[t.host]


class Host:

  def __init__(self, index, num_devices):
    self.index = index
    self.num_devices = num_devices
    self.alive = True
    self.status = 'running'   # ok | raised | crashed | aborted
    self.result = None
    self.exc = None
    self.points = 0
    self.fs_ops = 0
    self.collectives = 0
    self.waiting_collective = None
    self.main = None


class World:
  """One incarnation of the job. Storage (`fs`) outlives it."""

  def __init__(self, fs, *, schedule, num_hosts=1, devices_per_host=1, plan=(),
               io_seed=0, lines=False, pool_procs=3, tick=0.01, start_time=None,
               max_steps=200_000, tracing=False, tag=0):
    self.fs = fs
    self.tag = tag
    self.hosts = [Host(i, devices_per_host) for i in range(num_hosts)]
    self.plan = [f for f in plan if f.get('world', 0) == tag]
    self.fired = {}       # injected faults only
    self.aborts = 0       # hosts ended because a peer was lost
    self.rng = random.Random(f'io/{io_seed}/{tag}')
    self.pool_procs = pool_procs
    self.tick = tick
    self.now = 1.7e9 if start_time is None else start_time
    self.mono = 1000.0
    self.collective_rounds = {}
    self.op_counts = {}
    self.total_points = 0
    self.kernel = kernel_lib.Kernel(
        schedule, max_steps=max_steps,
        line_prefix=REPO_PREFIX if lines else None, tracing=tracing)
    self.kernel.world = self
    self.kernel.on_point = self._on_point
    self.kernel.on_stuck = self._on_stuck
    self.events = []
    self._crash_at = {}
    self._io_at = {}
    self._clock_at = {}
    self._crash_op = {}       # crash just before the nth operation of a kind
    self._op_nth = {}
    for f in self.plan:
      if f['kind'] == 'crash':
        self._crash_at.setdefault(f['host'], {})[f['at']] = f
      elif f['kind'] == 'io':
        self._io_at.setdefault(f['host'], {})[f['at']] = f
      elif f['kind'] == 'crash_op':
        self._crash_op.setdefault((f['host'], f['op']), {})[f['nth']] = f
      elif f['kind'] == 'clock':
        self._clock_at[f['at']] = f

  # -- running -----------------------------------------------------------------

  def run(self, host_fns, extra=()):
    """Runs one main task per host (and extra (name, fn) observer tasks)."""
    global _active
    for h, fn in zip(self.hosts, host_fns):
      if fn is None:
        h.status = 'ok'
        continue
      h.main = self.kernel.spawn(fn, f'host{h.index}', host=h.index)
    extra_tasks = [self.kernel.spawn(fn, name, host=None) for name, fn in extra]
    prev, _active = _active, self
    try:
      self.kernel.run()
    finally:
      _active = prev
    for h in self.hosts:
      if h.main is None:
        continue
      if h.status in ('crashed', 'aborted'):
        continue
      if h.main.exc is not None:
        h.status, h.exc = 'raised', h.main.exc
      else:
        h.status, h.result = 'ok', h.main.result
    self.extra_tasks = extra_tasks
    return self

  # -- points and faults ---------------------------------------------------------

  def host_id(self):
    t = kernel_lib.current_task()
    return None if t is None else t.host

  def _on_point(self, t, label):
    self.total_points += 1
    self.now += self.tick
    self.mono += self.tick
    f = self._clock_at.get(self.total_points)
    if f is not None:
      self.now += f['jump']
      self._fire('clock_jump')
    if t.host is None:
      return
    h = self.hosts[t.host]
    h.points += 1
    f = self._crash_at.get(h.index, {}).get(h.points)
    if f is not None and h.alive:
      self._fire('crash')
      self.crash(h)

  def crash(self, h, status='crashed'):
    h.alive = False
    h.status = status
    self.kernel.kill_tasks(lambda t: t.host == h.index)

  def _fire(self, kind):
    self.fired[kind] = self.fired.get(kind, 0) + 1

  def fs_point(self, op, path):
    """A scheduling point of the storage. Returns the fault to apply, if any."""
    self.kernel.point(f'{op}:{path}')
    self.op_counts[op] = self.op_counts.get(op, 0) + 1
    hid = self.host_id()
    if hid is None:
      return None
    if op in ('renamed', 'closed', 'written', 'rename2', 'copy2'):
      return None
    h = self.hosts[hid]
    h.fs_ops += 1
    if self._crash_op:
      n = self._op_nth[(hid, op)] = self._op_nth.get((hid, op), 0) + 1
      if n in self._crash_op.get((hid, op), {}):
        self._fire('crash')
        self.crash(h)
        self.kernel.point('crashed')
    f = self._io_at.get(hid, {}).get(h.fs_ops)
    if f is None:
      return None
    if f.get('only') and op not in f['only']:
      return None
    self._fire(f"io_{f['err']}:{op}")
    self.events.append(('io_fault', hid, op, path, f['err']))
    return f

  def shuffle(self, lst):
    self.rng.shuffle(lst)

  def draw_frac(self):
    return self.rng.choice((0, 10, 50, 90, 100))

  # -- collectives -----------------------------------------------------------------

  def collective(self, value, combine, label='collective'):
    """All hosts meet; combine(list of values) -> list of results."""
    h = current_host()
    r = h.collectives
    h.collectives += 1
    rnd = self.collective_rounds.setdefault(r, {'in': {}, 'out': None})
    rnd['in'][h.index] = value
    if len(rnd['in']) == len(self.hosts):
      rnd['out'] = combine([rnd['in'][i] for i in range(len(self.hosts))])
    h.waiting_collective = r
    self.kernel.wait(lambda: rnd['out'] is not None, label)
    h.waiting_collective = None
    return rnd['out'][h.index]

  def _on_stuck(self):
    """Peers of a dead (or finished) host abort instead of waiting forever."""
    stuck = [h for h in self.hosts
             if h.alive and h.waiting_collective is not None]
    gone = [h for h in self.hosts
            if not h.alive or (h.main is not None and h.main.finished)]
    if stuck and gone:
      for h in stuck:
        self.aborts += 1
        self.crash(h, 'aborted')
      return True
    return False
