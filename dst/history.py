"""Histories of jobs that save step-numbered checkpoints, crash and restart.

Engine of C03 (discovery is sound) and C04 (discovery is complete, ordered).
The state at a step is a function of the step, so a retried save of a step
writes the same values.
"""
import re

from dst import ckpt
from dst import framework as fw
from dst import simfs
from dst.props import c01

base = partitioned = tf = None
DIR = simfs.ROOT + '/run'


def setup():
  global base, partitioned, tf
  import tensorflow
  from vmoe.checkpoints import base as b, partitioned as p
  base, partitioned, tf = b, p, tensorflow
  c01.setup()


def gen(rng, tier):
  kind = 'sharded' if rng.random() < 0.75 else 'single'
  topo = ckpt.gen_topology(rng, max_hosts=3, max_dev=2)
  if kind == 'single':
    topo = {'hosts': 1, 'dev': 1, 'mesh': [1], 'perm': 0, 'explicit': False}
  steps = []
  s = rng.choice([0, 1, 3, 8])
  for _ in range(rng.randint(1, 4)):
    steps.append(s)
    s += rng.choice([1, 1, 2, 90, 1000, 10**9])
  prefix = rng.choice(['ckpt', 'ckpt', 'ckpt_2', 'my.ckpt', 'c-kpt'])
  cfg = {
      'hosts': topo['hosts'], 'topo': topo,
      'leaves': ckpt.gen_leaves(rng, topo['mesh'], 3),
      'num_shards': rng.choice([None, None, topo['hosts'] + 1, 4]),
      'steps': steps,
      'prefix': prefix,
      'incarnations': rng.randint(1, 3),
      'store': rng.choice(['posix', 'object']),
      'pool': rng.choice([1, 2, 3]),
      'keep': rng.choice([None, None, 1, 2]),
      'observers': rng.choice([0, 1, 1, 2]),
      'observe': rng.randint(1, 8),
      'other': rng.choice([[], [], ['_ema'], ['foo'], ['_2'], ['.bak'],
                           ['_ema', '-old']]),
      'same_name': kind == 'sharded' and rng.random() < 0.15,
      'overlap': rng.random() < 0.5,   # start the next save before the last ends
  }
  if kind == 'sharded' and cfg['incarnations'] > 1 and rng.random() < 0.4:
    # The job is restarted on other machines.
    cfg['elastic'] = []
    for _ in range(cfg['incarnations'] - 1):
      t = ckpt.gen_topology(rng, max_hosts=4, max_dev=2)
      cfg['elastic'].append({
          'topo': t,
          'specs': [ckpt.gen_spec(rng, l['shape'], t['mesh'])
                    for l in cfg['leaves']],
          'num_shards': rng.choice([None, None, t['hosts'] + 1, 4])})
  return kind, cfg


def faults(scenario, config):
  del scenario, config
  return ['crash', 'crash', 'crash', 'io']


def plan(rng, scenario, config, probe):
  # The last incarnation runs without faults.
  worlds = [2 * k for k in range(config['incarnations'] - 1)]
  if config['incarnations'] == 1:
    worlds = [0]
  return fw.draw_plan(rng, probe, faults(scenario, config), 2, worlds)


class History:

  def __init__(self, ctx):
    self.ctx = ctx
    c = self.c = ctx.config
    self.kind = ctx.case['scenario']
    self.fs = simfs.SimFS(c['store'])
    self.fs.add_dirs(DIR)
    self.prefix = f'{DIR}/{c["prefix"]}'
    self.suffixes = ['.index', '.data'] if self.kind == 'sharded' else None
    self.place(0)
    self.done = {}         # step -> set of hosts whose last save returned
    self.completed = set()
    self.removing = set()
    self.attempts = {}
    self.saves_inflight = 0

  def place(self, k):
    """The machines of the k-th incarnation."""
    c = self.c
    self.topo, self.leaves = c['topo'], c['leaves']
    self.num_shards = c['num_shards']
    if k and c.get('elastic'):
      e = c['elastic'][(k - 1) % len(c['elastic'])]
      self.topo, self.num_shards = e['topo'], e['num_shards']
      self.leaves = [dict(l, spec=x) for l, x in zip(c['leaves'], e['specs'])]
    self.mesh = ckpt.build_mesh(self.topo)
    self.done = {}

  def path(self, step):
    return f'{self.prefix}_{step}'

  def plant_others(self):
    """Complete checkpoints of other families, in the same directory."""
    c = self.c
    for o in c['other']:
      for k, step in enumerate([c['steps'][0], c['steps'][-1] + 7]):
        p = f'{self.prefix}{o}'
        if self.kind == 'sharded':
          for f in (f'{p}_{step}.index', f'{p}_{step}.data-00000-of-00001'):
            self.fs.put(f, b'other family %d' % k)
        else:
          self.fs.put(f'{p}_{step}', b'other family')
    if c['same_name']:
      self.fs.put(self.path(c['steps'][0]), b'plain file of the same step')

  # -- actions of the job ----------------------------------------------------------

  def save(self, h, step, pool):
    self.attempts.setdefault(step, 0)
    if self.kind == 'single':
      return base.save_checkpoint_async(
          self.path(step), c01.tree_of(step), thread_pool=pool)
    return partitioned.save_checkpoint(
        self.path(step),
        ckpt.state(self.leaves, self.mesh, self.topo, h, step),
        num_shards=self.num_shards, thread_pool=pool)

  def restore(self, step, h=0):
    """Restores and compares. Returns None or a description of the problem."""
    if self.kind == 'single':
      tree = base.restore_checkpoint(self.path(step))
      return None if c01.equal(tree, step) else 'values differ'
    tree = partitioned.restore_checkpoint(
        self.path(step),
        ckpt.templates(self.leaves, self.mesh, self.topo))
    for i, l in enumerate(self.leaves):
      m = ckpt.mismatch(ckpt.lookup(tree, l), l, i, step, h)
      if m:
        return m
    return None

  def listed(self, decreasing=False):
    return list(base.iterate_complete_steps_for_prefix(
        self.prefix, self.suffixes, decreasing))

  def latest(self):
    return base.find_latest_complete_checkpoint_for_prefix(
        self.prefix, self.suffixes)

  def remove_old(self, step):
    keep = self.c['keep']
    steps = [s for s in self.c['steps'] if s <= step]
    drop = set(steps[:-keep])
    # Last, the highest numbers: a crash leaves part of a step behind.
    pat = re.compile(re.escape(self.prefix) + r'_(\d+)(\.|$|-)')

    def match(f):
      m = pat.match(f)
      return m is not None and int(m.group(1)) in drop

    self.removing |= drop
    base.remove_checkpoints(
        [f for f in base.gfile.glob(f'{DIR}/*') if '/.tmp.' not in f], match,
        thread_pool=base.ThreadPool(2))

  def job(self, h, start_hook=None):
    c = self.c

    def fn():
      latest = self.latest()
      if start_hook is not None:
        start_hook(h, latest)
      done = None
      if latest is not None:
        done = int(latest[len(self.prefix) + 1:])
        if done not in self.removing and h < self.topo['hosts']:
          self.check_restore(done, h, f'host {h} at start')
      pool = base.ThreadPool(c['pool'])
      pending = []
      for step in c['steps']:
        if done is not None and step <= done:
          continue
        if step in self.removing:
          continue
        if pending and not c['overlap']:
          self.finish(h, *pending.pop())
        self.completed.discard(step)
        self.done.setdefault(step, set()).discard(h)
        pending.append((step, self.save(h, step, pool)))
        if len(pending) > 1:
          self.finish(h, *pending.pop(0))
        if c['keep'] and h == 0 and step in self.completed:
          self.remove_old(step)
      while pending:
        self.finish(h, *pending.pop(0))
    return fn

  def finish(self, h, step, res):
    res.get()
    self.done.setdefault(step, set()).add(h)
    if len(self.done[step]) == self.topo['hosts']:
      self.completed.add(step)

  def check_restore(self, step, h, who):
    """C03: what was reported has to be restorable, exactly."""
    ctx = self.ctx
    try:
      m = self.restore(step, h)
    except fw.Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      if 'injected' in str(e):
        raise
      if step in self.removing:
        return
      if ctx.case['property'] == 'C03':
        ctx.fail('reported-not-restorable',
                 f'{who}: step {step} was reported complete but ' + fw.brief(e))
      raise
    if m is not None and step not in self.removing:
      if ctx.case['property'] == 'C03':
        ctx.fail('reported-wrong-values', f'{who}: step {step}: {m}')

  def observer(self, k):
    ctx, c = self.ctx, self.c

    def fn():
      for _ in range(c['observe']):
        must = set(self.completed) - self.removing
        inflight = set(s for s in self.attempts) - must
        try:
          steps = self.listed(decreasing=bool(k % 2))
        except Exception as e:  # pylint: disable=broad-except
          ctx.fail('discovery-error', fw.brief(e))
        ctx.note('concurrent discoveries')
        for s in steps:
          if ctx.case['property'] == 'C03':
            if s not in c['steps']:
              ctx.fail('reported-not-restorable',
                       f'observer: step {s} was never saved by this job')
            self.check_restore(s, 0, 'observer')
        if ctx.case['property'] == 'C04':
          lost = must - set(steps) - self.removing
          ctx.check(not lost, 'complete-not-listed',
                    f'observer: complete steps {sorted(lost)} not in {steps}')
          self.check_order(steps, bool(k % 2))
        del inflight
    return fn

  def check_order(self, steps, decreasing):
    want = sorted(set(steps), reverse=decreasing)
    self.ctx.check(list(steps) == want, 'order', f'{steps} != {want}')

  # -- the history ----------------------------------------------------------------------

  def run(self):
    ctx, c = self.ctx, self.c
    self.plant_others()
    n = c['incarnations']
    for k in range(n):
      starts = {}
      self.place(k)
      if k and c.get('elastic'):
        ctx.note('restarts on other machines')
      w = ctx.world(self.fs, num_hosts=self.topo['hosts'],
                    devices_per_host=self.topo['dev'], pool_procs=c['pool'])
      hook = lambda h, latest: starts.__setitem__(h, latest)
      ctx.run_world(w, [self.job(h, hook) for h in range(self.topo['hosts'])],
                    [(f'obs{o}', self.observer(o))
                     for o in range(c['observers'])])
      for h in w.hosts:
        if h.status == 'raised' and 'injected' not in str(h.exc):
          ctx.fail('job-failed', f'host {h.index}: {fw.brief(h.exc)}')
        if h.status == 'crashed':
          ctx.note('host crashes')
      if ctx.case['property'] == 'C04' and not w.fired:
        ctx.check(len(set(starts.values())) <= 1, 'hosts-disagree', starts)
      # Quiescent: compare with the model.
      w2 = ctx.world(self.fs, faults=False)
      ctx.run_world(w2, [self.quiescent(k, n)])
      h = w2.hosts[0]
      if h.status == 'raised':
        raise h.exc

  def audit(self):
    """Discovery with other sets of required suffixes, against the files."""
    ctx, c = self.ctx, self.c
    tmp, have = set(), {}
    for f in self.fs.files:
      b = f.rsplit('/', 1)[1]
      m = re.fullmatch(r'(\.tmp\.)?' + re.escape(c['prefix']) +
                       r'_(\d+)(\.[a-zA-Z]+)?(-(\d+)-of-(\d+))?', b)
      if m and m.group(1):
        tmp.add(int(m.group(2)))
      elif m:
        have.setdefault((int(m.group(2)), m.group(3)), {}).setdefault(
            int(m.group(6) or 1), set()).add(int(m.group(5) or 0))
    sets = [['.index'], ['.data'], ['.meta', '.index', '.data'],
            ['.data', '.index']] if self.kind == 'sharded' else [['.data']]
    for suffixes in sets:
      try:
        got = list(base.iterate_complete_steps_for_prefix(
            self.prefix, suffixes))
      except Exception as e:  # pylint: disable=broad-except
        ctx.fail('discovery-error', fw.brief(e))
      if ctx.case['property'] == 'C03':
        for s in got:
          ctx.check(s not in tmp, 'reported-with-tmp',
                    f'{suffixes}: step {s} has a temporary file')
          for x in suffixes:
            ctx.check(any(len(v) == n for n, v in have.get((s, x), {}).items()),
                      'reported-missing-file', f'{suffixes}: step {s} {x}')
      elif self.kind == 'sharded' and '.meta' not in suffixes:
        must = self.completed - self.removing
        ctx.check(must <= set(got), 'complete-not-listed',
                  f'{suffixes}: {sorted(must - set(got))} not in {got}')
        self.check_order(got, False)

  def quiescent(self, k, n):
    ctx, c = self.ctx, self.c

    def fn():
      try:
        inc = self.listed()
        dec = self.listed(True)
        latest = self.latest()
      except Exception as e:  # pylint: disable=broad-except
        ctx.fail('discovery-error', fw.brief(e))
      self.audit()
      if ctx.case['property'] == 'C03':
        for s in inc:
          if s not in c['steps']:
            ctx.fail('reported-not-restorable',
                     f'step {s} was never saved by this job')
          if s in self.removing:
            # A partially removed step must not be reported.
            try:
              m = self.restore(s)
            except Exception as e:  # pylint: disable=broad-except
              ctx.fail('reported-not-restorable',
                       f'partially removed step {s}: {fw.brief(e)}')
            ctx.check(m is None, 'reported-wrong-values', m)
          else:
            self.check_restore(s, 0, f'after incarnation {k}')
        ctx.note('reported steps restored', len(inc))
        # With a tmp file around, the step counts as incomplete (docstring).
        for f in self.fs.files:
          b = f.rsplit('/', 1)[1]
          m = re.match(r'\.tmp\.' + re.escape(c['prefix']) +
                       r'_(\d+)(\.[a-zA-Z]+)?(-\d+-of-\d+)?$', b)
          if m:
            ctx.check(int(m.group(1)) not in inc, 'reported-with-tmp',
                      f'{b} exists, but the step is reported complete')
      else:
        must = self.completed - self.removing
        ctx.check(must <= set(inc), 'complete-not-listed',
                  f'complete steps {sorted(must - set(inc))} not in {inc}')
        self.check_order(inc, False)
        self.check_order(dec, True)
        ctx.check(sorted(dec) == sorted(inc), 'order', f'{inc} vs {dec}')
        want = f'{self.prefix}_{max(inc)}' if inc else None
        ctx.check(latest == want, 'latest', f'{latest} != {want}')
        if k == n - 1 and n > 1 and not any(
            f.get('world') == 2 * k for f in ctx.plan):
          # Faults have stopped: the job gets to its last step.
          last = c['steps'][-1]
          ctx.check(latest == self.path(last), 'no-progress',
                    f'latest is {latest} after a fault-free incarnation')
          ctx.note('recovered')
    return fn


def run(ctx):
  History(ctx).run()


def shrink(scenario, c):
  del scenario
  for key, simple in [('other', []), ('same_name', False), ('observers', 0),
                      ('keep', None), ('num_shards', None), ('pool', 1),
                      ('overlap', False), ('store', 'object'),
                      ('incarnations', 1)]:
    if c[key] != simple:
      yield {**c, key: simple}
  for k in range(len(c['steps'])):
    if len(c['steps']) > 1:
      yield dict(c, steps=c['steps'][:k] + c['steps'][k + 1:])
  for k in range(len(c['leaves'])):
    if len(c['leaves']) > 1:
      d = dict(c, leaves=c['leaves'][:k] + c['leaves'][k + 1:])
      if c.get('elastic'):
        d['elastic'] = [dict(e, specs=e['specs'][:k] + e['specs'][k + 1:])
                        for e in c['elastic']]
      yield d
  if c.get('elastic'):
    yield {k: v for k, v in c.items() if k != 'elastic'}
