"""Cases, runs, fault plans, shrinking.

A *case* is a JSON document that determines one simulated execution:

  {'property', 'scenario', 'config', 'io_seed', 'plan': [faults],
   'sched': {'seed', 'params'} or {'decisions': {world tag: {index: choice}}}}

`execute(module, case)` runs it and returns a `Result`. The same case always
gives the same result.
"""
import importlib
import json
import random
import sys
import time
import traceback
import zlib

from dst import kernel as kernel_lib
from dst import seams
from dst import simfs
from dst import world as world_lib


class Violation(Exception):

  def __init__(self, cls, detail):
    super().__init__(f'{cls}: {detail}')
    self.cls = cls
    self.detail = str(detail)[:2000]


class HarnessError(Exception):
  pass


MALFORMED = (ValueError, LookupError, TypeError, AssertionError, EOFError,
             zlib.error)


class Result:

  def __init__(self):
    self.violation = None      # {'class', 'detail'}
    self.recorded = {}         # world tag -> decisions
    self.lengths = {}          # world tag -> {host: (points, fs_ops)}
    self.total_points = {}
    self.fired = {}
    self.trace = 0
    self.switches = 0
    self.steps = 0
    self.sim_time = 0.0
    self.notes = {}
    self.log = None

  def nontrivial(self):
    return self.switches > 0 or bool(self.fired)


def through_repo(exc):
  seen = set()
  while exc is not None and id(exc) not in seen:
    seen.add(id(exc))
    tb = exc.__traceback__
    while tb is not None:
      if tb.tb_frame.f_code.co_filename.startswith(world_lib.REPO_PREFIX):
        return True
      tb = tb.tb_next
    exc = exc.__cause__ or exc.__context__
  return False


def brief(exc):
  tb = traceback.extract_tb(exc.__traceback__)
  where = ''
  for fr in reversed(tb):
    if fr.filename.startswith(world_lib.REPO_PREFIX):
      where = f' at {fr.filename[len("/repo/"):]}:{fr.name}'
      break
  return f'{type(exc).__name__}: {str(exc)[:300]}{where}'


class Ctx:
  """What a scenario sees of its case."""

  def __init__(self, case, result, tracing=False):
    self.case = case
    self.config = case['config']
    self.plan = case.get('plan', [])
    self.result = result
    self.tracing = tracing
    self.worlds = []

  def rng(self, name=''):
    return random.Random(f"cfg/{self.case.get('io_seed', 0)}/{name}")

  def fail(self, cls, detail=''):
    raise Violation(cls, detail)

  def check(self, cond, cls, detail=''):
    if not cond:
      raise Violation(cls, detail() if callable(detail) else detail)

  def note(self, key, n=1):
    self.result.notes[key] = self.result.notes.get(key, 0) + n

  def world(self, fs, faults=True, **kw):
    """faults=False: a world of the oracle, which no fault plan touches."""
    tag = len(self.worlds)
    s = self.case.get('sched', {})
    if 'decisions' in s:
      sched = kernel_lib.Schedule(decisions=s['decisions'].get(str(tag), {}))
    else:
      sched = kernel_lib.Schedule(seed=f"{s.get('seed', 0)}/{tag}",
                                  params=s.get('params'))
    kw.setdefault('lines', bool(self.case.get('lines')))
    w = world_lib.World(fs, schedule=sched, plan=self.plan if faults else (),
                        io_seed=self.case.get('io_seed', 0), tag=tag,
                        tracing=self.tracing, **kw)
    w.takes_faults = faults
    self.worlds.append(w)
    return w

  def run_world(self, w, host_fns, extra=()):
    """Runs a world; deadlock and step-limit become violations."""
    try:
      w.run(host_fns, extra)
    except kernel_lib.Deadlock as e:
      raise Violation('deadlock', e) from None
    except kernel_lib.StepLimit as e:
      raise Violation('no-progress', e) from None
    for t in w.extra_tasks:
      if t.exc is not None:
        raise t.exc
    # A Violation raised inside of a host (by the harness) is final.
    for h in w.hosts:
      if isinstance(h.exc, (Violation, simfs.Escape)):
        raise h.exc
    if w.aborts and not w.fired and all(
        h.status in ('ok', 'aborted') for h in w.hosts):
      raise Violation('deadlock', 'hosts waited for peers that had returned: '
                      f'{[h.status for h in w.hosts]}')
    return w

  def close(self):
    r = self.result
    for tag, w in enumerate(self.worlds):
      k = w.kernel
      r.recorded[str(tag)] = {str(i): c for i, c in k.schedule.recorded.items()}
      if w.takes_faults:
        r.lengths[tag] = {h.index: (h.points, h.fs_ops) for h in w.hosts}
      r.total_points[tag] = w.total_points
      r.trace = hash((r.trace, k.trace_hash))
      r.switches += k.switches
      r.steps += k.steps + min(k.line_steps, k.max_line_steps)
      r.sim_time += w.mono - 1000.0
      for f, n in w.fired.items():
        r.fired[f] = r.fired.get(f, 0) + n
      if w.aborts:
        r.fired['abort_peer_lost'] = (
            r.fired.get('abort_peer_lost', 0) + w.aborts)
    if self.tracing:
      r.log = [(tag, a, b) for tag, w in enumerate(self.worlds)
               for a, b in w.kernel.trace]


def load(prop):
  return importlib.import_module(f'dst.props.{prop.lower()}')


def execute(module, case, tracing=False):
  seams.shadow_hash()
  result = Result()
  ctx = Ctx(case, result, tracing)
  seed = zlib.crc32(json.dumps(
      [case.get('scenario'), case.get('io_seed', 0)]).encode())
  random.seed(seed)
  import numpy as np
  np.random.seed(seed)
  try:
    module.run(ctx)
  except Violation as v:
    result.violation = {'class': v.cls, 'detail': v.detail}
  except simfs.Escape as e:
    result.violation = {'class': 'escape', 'detail': str(e)}
  except HarnessError:
    raise
  except Exception as e:  # pylint: disable=broad-except
    if not through_repo(e):
      if not isinstance(e, MALFORMED):
        raise
      # Nothing in the harness raises these on the current tree: the code under
      # test has returned something the oracle cannot read.
      tb = traceback.extract_tb(e.__traceback__)[-1]
      result.violation = {
          'class': 'malformed-result',
          'detail': f'{type(e).__name__}: {str(e)[:300]} ({tb.name})'}
      return result
    result.violation = {'class': f'exception:{type(e).__name__}',
                        'detail': brief(e)}
  finally:
    ctx.close()
  return result


# -- generation -------------------------------------------------------------------

ERRS = ['enospc', 'unavailable', 'eio', 'oserror']


def draw_sched(rng, num_hosts=1):
  kind = rng.random()
  params = {}
  if kind < 0.15:
    params = {'switch': 0.0, 'switch_line': 0.0}
  elif kind < 0.5:
    params = {'switch': 0.15, 'switch_line': 0.02}
  elif kind < 0.8:
    params = {'switch': 0.5, 'switch_line': 0.08}
  else:
    params = {'switch': 0.9, 'switch_line': 0.3}
  if rng.random() < 0.3:
    params['starve'] = rng.randrange(num_hosts)
    params['starve_until'] = rng.choice((30, 200, 1000))
  return {'seed': rng.getrandbits(48), 'params': params}


def draw_plan(rng, result, kinds, max_faults=2, worlds=None):
  """Faults placed uniformly over the measured execution."""
  plan = []
  tags = sorted(result.lengths) if worlds is None else [
      t for t in worlds if t in result.lengths]
  for _ in range(rng.randint(1, max_faults)):
    tag = rng.choice(tags)
    host = rng.choice(sorted(result.lengths[tag]))
    points, ops = result.lengths[tag][host]
    kind = rng.choice(kinds)
    if kind == 'crash' and points:
      plan.append({'kind': 'crash', 'world': tag, 'host': host,
                   'at': rng.randint(1, points + 2)})
    elif kind == 'io' and ops:
      plan.append({'kind': 'io', 'world': tag, 'host': host,
                   'at': rng.randint(1, ops + 1), 'err': rng.choice(ERRS),
                   'frac': rng.choice((0, 30, 50, 99, 100))})
    elif kind == 'clock':
      plan.append({'kind': 'clock', 'world': tag,
                   'at': rng.randint(1, result.total_points[tag] + 1),
                   'jump': rng.choice((-3600.0, -5.0, 3.0, 60.0, 86400.0))})
  return plan


def cases_for_seed(module, prop, seed, tier):
  """Yields cases; a probe result has to be sent back with .send()."""
  rng = random.Random(f'case/{prop}/{seed}')
  scenario, config = module.gen(rng, tier)
  hosts = config.get('hosts', 1)
  base = {'property': prop, 'scenario': scenario, 'config': config,
          'io_seed': rng.getrandbits(32), 'plan': [],
          'sched': draw_sched(rng, hosts),
          'lines': rng.random() < getattr(module, 'LINES', 0.15)}
  probe = yield base
  kinds = module.faults(scenario, config)
  n = getattr(module, 'FAULTY_RUNS', {'quick': 3, 'thorough': 6})[tier]
  for _ in range(n):
    c = dict(base, sched=draw_sched(rng, hosts), io_seed=base['io_seed'])
    if hasattr(module, 'plan'):
      plan = module.plan(rng, scenario, config, probe)
    else:
      plan = draw_plan(rng, probe, kinds) if kinds else []
    c['plan'] = plan
    yield c


# -- shrinking ------------------------------------------------------------------


def shrink(module, case, cls, deadline):
  """Greedy minimisation that keeps the violation class."""

  def bad(c):
    if time.time() > deadline:
      return None
    try:
      r = execute(module, c)
    except Exception:  # pylint: disable=broad-except
      return None
    if r.violation is not None and r.violation['class'] == cls:
      return r
    return None

  runs = 0
  r = bad(case)
  if r is None:
    return case, None, runs
  best = dict(case, sched={'decisions': r.recorded})
  r2 = bad(best)
  if r2 is None:
    return case, r, 1
  r = r2

  def attempt(c):
    nonlocal best, r, runs
    runs += 1
    rr = bad(c)
    if rr is not None:
      best, r = c, rr
      return True
    return False

  for _ in range(3):
    before = json.dumps(best, sort_keys=True)
    if best.get('lines'):
      attempt(dict(best, lines=False, sched={'decisions': {}}))
    attempt(dict(best, sched={'decisions': {}}))
    i = 0
    while i < len(best['plan']):
      plan = best['plan'][:i] + best['plan'][i + 1:]
      if not attempt(dict(best, plan=plan)):
        i += 1
    if hasattr(module, 'shrink'):
      progress = True
      while progress and time.time() < deadline:
        progress = False
        for cfg in module.shrink(best['scenario'], best['config']):
          if attempt(dict(best, config=cfg)):
            progress = True
            break
          if attempt(dict(best, config=cfg, sched={'decisions': {}})):
            progress = True
            break
    # ddmin over the recorded decisions.
    items = [(t, i) for t, d in best['sched']['decisions'].items() for i in d]
    n = 2
    while items and n <= len(items) * 2 and time.time() < deadline:
      size = max(1, len(items) // n)
      cut = False
      for k in range(0, len(items), size):
        keep = items[:k] + items[k + size:]
        dec = {}
        for t, i in keep:
          dec.setdefault(t, {})[i] = best['sched']['decisions'][t][i]
        if attempt(dict(best, sched={'decisions': dec})):
          items = keep
          cut = True
          break
      if not cut:
        if size == 1:
          break
        n *= 2
    if json.dumps(best, sort_keys=True) == before or time.time() > deadline:
      break
  return best, r, runs


def eprint(*a):
  print(*a, file=sys.stderr, flush=True)
