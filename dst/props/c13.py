"""C13: interruptions leave no trace in the trained model."""
import json
import math

import jax
import numpy as np

from dst import data as data_lib
from dst import framework as fw
from dst import simfs
from dst import tiny
from dst import train
from dst.props import c14

LINES = 0.0
FAULTY_RUNS = {'quick': 2, 'thorough': 4}
ATTEMPTS = 4
_golden = {}


def setup():
  train.setup()


def draw_optimizer(rng, steps):
  lr = rng.choice([
      0.3,
      {'schedule': 'warmup_cosine_decay', 'peak_value': 0.5, 'end_value': 0.01,
       'warmup_steps': rng.choice([1, 2])},
      {'schedule': 'warmup_linear_decay', 'peak_value': 0.5, 'end_value': 0.01,
       'warmup_steps': 1},
      {'schedule': 'big_vision_rsqrt', 'peak_value': 0.5, 'timescale': 2,
       'warmup_steps': 1, 'cooldown_steps': 1},
  ])
  if isinstance(lr, dict) and steps <= 3:
    lr = 0.3
  o = {'learning_rate': lr}
  kind = rng.randrange(4)
  if kind == 0:
    o.update(name='adam', b1=0.8, b2=0.95)
  elif kind == 1:
    o.update(name='sgd', momentum=0.9)
  elif kind == 2:
    o.update(name='sgd', momentum=0.9, gradient_clip={'global_norm': 0.5})
  else:
    o.update(name='big_vision_adafactor', min_dim_size_to_factor=2)
  if rng.random() < 0.4:
    o['weight_decay'] = rng.choice([0.1, [('head', 0.2)]])
  if rng.random() < 0.2:
    o['frozen_pattern'] = rng.choice([['d$'], 'ead$'])
  elif rng.random() < 0.15:
    o['trainable_pattern'] = rng.choice(['head', ['w', 'd']])
  if rng.random() < 0.2:
    o['gradient_scale'] = [('head', 2.0)]
  return o


def gen(rng, tier):
  del tier
  c = c14.draw_common(rng)
  c['identical'] = True
  c['examples'] = 11
  c['shards'] = data_lib.draw_shards(rng, 0, 11)
  c.pop('epochs', None)
  c['steps'] = rng.randint(2, 7)
  c['optimizer'] = draw_optimizer(rng, c['steps'])
  c['noise'] = rng.random() < 0.8
  if not c['contrastive'] and rng.random() < 0.5:
    c['mixup'] = {'concentration': 0.5,
                  'granularity': rng.choice(['batch', 'device', 'example'])}
  elif not c['contrastive'] and rng.random() < 0.45:
    c['noise'] = True
    c['adversarial'] = {'attack_auxiliary_loss': rng.random() < 0.5,
                        'max_epsilon': 0.1, 'num_updates': 2}
  if not c['contrastive'] and rng.random() < 0.4:
    c['loss'] = 'sigmoid_xent'
  c['record'] = c['noise'] and rng.random() < 0.5
  axes = []
  if rng.random() < 0.5:
    ada = 'adafactor' in c['optimizer']['name']
    axes.append(('params/head$' if ada else 'head$', ('expert',)))
  if rng.random() < 0.5:
    axes.append(('w$', (('expert', 'replica'),)
                 if 12 % (c['hosts'] * c['per']) == 0 else ('expert',)))
  c['axes'] = axes
  # The restarted job may run on other machines.
  if rng.random() < 0.3:
    devs = c['hosts'] * c['per']
    options = [(h, p) for h, p in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4),
                                   (4, 1)] if c['batch'] % (h * p) == 0]
    if c.get('microsteps'):
      options = [(h, p) for h, p in options if h * p == devs]
    if c.get('mixup', {}).get('granularity') in ('device', 'example'):
      options = [(h, p) for h, p in options if h * p == devs]
    if options:
      h, p = rng.choice(options)
      c['then'] = [h, p, rng.choice([e for e in (1, 2, 4)
                                     if (h * p) % e == 0])]
  return 'train', c


def faults(scenario, config):
  del scenario, config
  return ['crash', 'io', 'clock']


def plan(rng, scenario, config, probe):
  p = c14.plan(rng, scenario, config, probe)
  return [f for f in p if f['kind'] != 'read_error']


def shrink(scenario, c):
  yield from c14.shrink(scenario, c)
  for k in ('then', 'mixup', 'adversarial', 'loss'):
    if c.get(k) is not None:
      yield {a: b for a, b in c.items() if a != k}


def golden(c):
  """All the states of a run that nothing disturbs."""
  c = {k: v for k, v in c.items() if k != 'then'}
  c['save'] = {'every_steps': 1}
  key = json.dumps(c, sort_keys=True)
  if key not in _golden:
    if len(_golden) > 4:
      _golden.clear()
    case = {'property': 'C13', 'config': c, 'io_seed': 0, 'plan': [],
            'sched': {'seed': 0, 'params': {'switch': 0.0}}}
    ctx = fw.Ctx(case, fw.Result())
    data_lib.reset(0)
    jax.effects_barrier()
    tiny.drawn.clear()
    r = train.Run(ctx, c, simfs.SimFS(), faults=False)
    for h in r.w.hosts:
      if h.status == 'raised':
        raise h.exc
    jax.effects_barrier()
    _golden[key] = ({k: v[0]['state'][0] for k, v in r.final_states.items()},
                    len(set(tiny.drawn)))
    tiny.drawn.clear()
  return _golden[key]


def same(a, b, exact):
  if a.dtype != b.dtype or a.shape != b.shape:
    return False
  if a.dtype.kind in 'iub' or exact:
    return np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
  return np.allclose(a, b, rtol=2e-4, atol=2e-5, equal_nan=True)


def run(ctx):
  c = ctx.config
  g, drawn = golden(c)
  total = c['steps']
  ctx.check(sorted(g) == list(range(total + 1)), 'uninterrupted',
            f'checkpoints {sorted(g)}')
  # No random number is used twice.
  keys = [k for k in g[0] if k.startswith('rngs/')]
  for k in keys:
    vals = {g[s][k].tobytes() for s in g}
    ctx.check(len(vals) == total + 1, 'randomness-repeats', k)
  if len(keys) > 1:
    allv = [g[s][k].tobytes() for s in g for k in keys]
    ctx.check(len(set(allv)) == len(allv), 'randomness-repeats', keys)
  if c.get('record') and c['noise']:
    per = (c.get('microsteps') or 1) + (
        c['adversarial']['num_updates'] if c.get('adversarial') else 0)
    ctx.check(drawn == total * per, 'randomness-repeats',
              f'{total} steps with {per} uses of random keys each have drawn '
              f'{drawn} different keys')
    ctx.note('uses of random keys', drawn)
  data_lib.reset(ctx.case['io_seed'])
  fs = simfs.SimFS()
  for attempt in range(ATTEMPTS):
    last = attempt == ATTEMPTS - 1
    moved = attempt > 0 and c.get('then') is not None
    r = train.Run(ctx, c, fs, faults=not last,
                  topology=tuple(c['then']) if moved else None)
    excused = any(k.startswith(('io_', 'crash')) for k in r.w.fired)
    for h in r.w.hosts:
      if h.status == 'raised' and not excused:
        raise h.exc
    exact = c.get('then') is None
    for k, hosts in sorted(r.final_states.items()):
      vals = hosts[0]['state'][0]
      ctx.check(k in g, 'unexpected-step', k)
      ctx.check(set(vals) == set(g[k]), 'structure',
                f'{sorted(set(vals) ^ set(g[k]))}')
      for name, v in vals.items():
        ctx.check(same(v, g[k][name], exact), 'trajectory',
                  lambda: f'step {k} (attempt {attempt}, resumed from '
                  f'{r.before[-1:]}): {name} = {v.reshape(-1)[:4]}, '
                  f'uninterrupted {g[k][name].reshape(-1)[:4]}')
      ctx.note('checkpoints compared')
      if r.before:
        ctx.note('checkpoints compared after a restart')
    if r.ok:
      ctx.check(total in r.store.steps, 'no-final-checkpoint',
                sorted(r.store.steps))
      ctx.note('completed')
      return
  ctx.fail('never-completes', '')
