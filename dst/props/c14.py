"""C14: training checkpoints: what they hold, when they exist, what a crash loses."""
import math

import numpy as np

from dst import data as data_lib
from dst import framework as fw
from dst import simfs
from dst import train

LINES = 0.0
FAULTY_RUNS = {'quick': 2, 'thorough': 4}
ATTEMPTS = 4


def setup():
  train.setup()


def draw_common(rng):
  hosts, per = rng.choice([(1, 1), (1, 2), (2, 1), (2, 1), (2, 2), (3, 1),
                           (4, 1)])
  devs = hosts * per
  experts = rng.choice([e for e in (1, 2, 4) if devs % e == 0])
  mult = rng.choice([1, 1, 2])
  batch = devs * mult
  n = rng.choice([11, 11, 10])
  c = {
      'hosts': hosts, 'per': per, 'experts': experts, 'examples': n,
      'batch': batch, 'shards': data_lib.draw_shards(rng, 0, n),
      'shuffle': rng.choice([1, 4]),
      'seed': rng.choice([0, 1, 7]),
      'contrastive': rng.random() < 0.25,
      'prefetch_device': rng.choice([None, 1, 2, 3]),
  }
  if rng.random() < 0.15:
    c['epochs'] = rng.choice([0.5, 1, 1.5, 2])
    c['steps'] = int(math.ceil(c['epochs'] * n / batch))
  else:
    c['steps'] = rng.randint(1, 7)
  save = {'every_steps': rng.choice([1, 1, 2, 3, 4, 10])}
  if rng.random() < 0.6:
    save['keep_last'] = rng.randint(1, 3)
    if rng.random() < 0.6:
      save['keep_steps_multiple_of'] = rng.choice([2, 3, 5])
  c['save'] = save
  if mult % 2 == 0 and rng.random() < 0.6:
    c['microsteps'] = 2
  elif rng.random() < 0.3:
    c['microsteps'] = 1
  c['report'] = {'every_secs': None, 'every_steps': rng.choice([1, 2, 100])}
  return c


def gen(rng, tier):
  del tier
  c = draw_common(rng)
  c['optimizer'] = {'name': 'sgd', 'learning_rate': 1.0}
  c['learn'] = False
  c['noise'] = rng.random() < 0.5
  if rng.random() < 0.3:
    m = rng.randint(max(5, c['hosts']), c['examples'] - 1)
    c['split'] = rng.choice([f'train[:{m}]', f'train[{c["examples"] - m}:]'])
    if c.get('epochs') is not None:
      c['steps'] = int(math.ceil(c['epochs'] * m / c['batch']))
  # Which part of the axes can be partitioned.
  if (c['examples'] + 1) % c['experts'] == 0 and rng.random() < 0.5:
    c['axes'] = [('w$', ('expert',))]
  return 'train', c


def faults(scenario, config):
  del scenario, config
  return ['crash', 'io', 'clock', 'read_error']


def plan(rng, scenario, config, probe):
  del scenario
  out = fw.draw_plan(rng, probe, ['crash', 'crash', 'crash', 'io', 'clock'], 2,
                     worlds=[0])
  if rng.random() < 0.4:
    # The second incarnation crashes too.
    more = fw.draw_plan(rng, probe, ['crash', 'crash', 'io'], 1, worlds=[0])
    for f in more:
      f['world'] = 1
    out += more
  if rng.random() < 0.1:
    out.append({'kind': 'read_error', 'world': 0,
                'id': rng.randrange(config['examples'])})
  return out


def shrink(scenario, c):
  del scenario
  if c['steps'] > 1 and c.get('epochs') is None:
    yield dict(c, steps=c['steps'] - 1)
  for k in ('microsteps', 'axes', 'prefetch_device', 'split'):
    if c.get(k) is not None and not (k == 'split' and c.get('epochs')):
      yield {a: b for a, b in c.items() if a != k}
  if c['save'].get('keep_last') is not None:
    yield dict(c, save={'every_steps': c['save']['every_steps']})


def retained(steps, save):
  """The policy over the history of commits."""
  kept = []
  keep, period = save.get('keep_last'), save.get('keep_steps_multiple_of')
  for s in steps:
    kept.append(s)
    if keep is None:
      continue
    kept = [x for x in kept if x in kept[-keep:]
            or (period is not None and x % period == 0)]
  return kept


def run(ctx):
  c = ctx.config
  data_lib.reset(ctx.case['io_seed'])
  fs = simfs.SimFS()
  total = c['steps']
  ever = []                      # commits, in order
  done = False
  for attempt in range(ATTEMPTS):
    last = attempt == ATTEMPTS - 1
    bad = [f['id'] for f in ctx.plan if f['kind'] == 'read_error'
           and f['world'] == attempt]
    if bad:
      ctx.result.fired['read_error'] = ctx.result.fired.get('read_error', 0) + 1
    states = {}
    r = train.Run(ctx, c, fs, faults=not last, bad=bad)
    before = r.before
    start = max(before) if before else None
    excused = bool(bad) or any(
        k.startswith(('io_', 'crash')) for k in r.w.fired)
    for h in r.w.hosts:
      if h.status == 'raised' and not excused:
        raise h.exc
    ctx.check(r.ok or excused, 'incomplete', f'{r.statuses}')
    # Where it resumed.
    if start is not None:
      ctx.check(r.restored() <= {start}, 'resumed-elsewhere',
                f'{sorted(r.restored())}, checkpoints {before}')
      ctx.check(bool(r.restored()) or not r.batches, 'not-resumed',
                f'checkpoints {before}')
    base = start or 0
    if start is not None:
      states[start] = r.base_state
    # What was committed.
    commits = [s for k, s, _ in r.events() if k == 'commit']
    ever += commits
    ctx.check(not r.store.overwritten, 'overwritten', r.store.overwritten)
    every = c['save']['every_steps']
    for k in commits:
      ctx.check(k % every == 0 or k == total, 'unexpected-step',
                f'{k} (every {every}, last {total})')
    check_states(ctx, c, r, base, states)
    # What a crash can lose.
    latest = max(r.store.steps) if r.store.steps else 0
    ahead = (c.get('prefetch_device') or 1) + 1
    progress = base + len(r.batches)
    ctx.check(progress - latest <= 2 * every + ahead, 'too-much-lost',
              f'step >= {progress - ahead}, latest checkpoint {latest}')
    if r.ok:
      due = {k for k in range(base + 1, total + 1)
             if k % every == 0 or k == total}
      if start is None:
        due.add(0)
      ctx.check(set(commits) == due, 'checkpoints-missing',
                f'{sorted(set(commits) ^ due)}')
      ctx.check(total in r.store.steps, 'no-final-checkpoint',
                sorted(r.store.steps))
      left = retained(ever, c['save'])
      ctx.check(sorted(r.store.steps) == sorted(left) or (
          before and set(left) <= set(r.store.steps)),
                'retention', f'{sorted(r.store.steps)} != {left}')
      done = True
      ctx.note('completed')
      if attempt:
        ctx.note('completed after a restart')
      if rerun(ctx):
        continue
      break
  ctx.check(done, 'never-completes', '')


def rerun(ctx):
  """Sometimes the finished job is started again (it has nothing to do)."""
  return ctx.case['io_seed'] % 5 == 0


def check_states(ctx, c, r, base, states):
  """Each checkpoint of step k holds the effect of exactly k batches."""
  b = c['batch']
  for k, hosts in sorted(r.final_states.items()):
    vals = hosts[0]['state'][0]
    ctx.check(int(vals['step']) == k, 'step-of-checkpoint',
              f'checkpoint {k} has step {int(vals["step"])}')
    idx = hosts[0]['dataset_iterator'][1]
    ctx.check(idx == {'last_seen_index': k * b}, 'last-seen-index',
              f'checkpoint {k}: {idx}')
    for h in hosts[1:]:
      for name, v in h['state'][0].items():
        ctx.check(np.array_equal(v, vals[name]), 'hosts-disagree',
                  f'checkpoint {k}: {name}')
    if k < base:
      continue
    want = np.zeros(c['examples'] + 1)
    if base in states:
      want = want - np.asarray(states[base]['params/w'], np.float64)
    ctx.check(len(r.batches) >= k - base, 'batches-not-read',
              f'checkpoint {k}: {len(r.batches)} batches since {base}')
    for x in r.batches[:k - base]:
      want = want + x.mean(axis=0)
    got = -np.asarray(vals['params/w'], np.float64)
    ctx.check(np.allclose(got, want, atol=1e-4), 'batches-of-checkpoint',
              lambda: f'checkpoint {k}: batches {got * b} != {want * b}')
    ctx.note('checkpoints checked')
