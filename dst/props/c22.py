"""C22: every training step is the one that the configuration describes.

The oracle is a small model of training in float64 numpy: gradients written by
hand, gradient scaling, clipping, optimizers, weight decay, learning-rate
schedules and frozen parameters, following their documentation. It is run over
the batches that the simulated jobs consumed, through crashes, restarts (also
on other machines) and extensions of the training.
"""
import math
import re

import numpy as np

from dst import data as data_lib
from dst import simfs
from dst import tiny
from dst import train
from dst.props import c14

LINES = 0.0
FAULTY_RUNS = {'quick': 2, 'thorough': 4}
ATTEMPTS = 5
NAMES = ('d', 'head', 'w')


def setup():
  train.setup()


def draw_schedule(rng, steps):
  warm = rng.randint(1, max(1, steps - 1))
  peak = rng.choice([0.3, 0.7])
  kind = rng.randrange(7)
  if kind == 0:
    return rng.choice([0.3, 1.0, 1])
  if kind == 1:
    return {'schedule': 'constant', 'value': 0.25}
  if kind == 2:
    o = {'schedule': 'warmup_exponential_decay', 'peak_value': peak,
         'warmup_steps': warm, 'transition_steps': rng.choice([1, 2]),
         'decay_rate': 0.6}
    if rng.random() < 0.3:
      o['staircase'] = True
    return o
  if kind == 6:
    cool = rng.randint(0, 2)
    warm = rng.randint(0, max(0, steps - cool))
    o = {'schedule': 'big_vision_rsqrt', 'peak_value': peak,
         'timescale': rng.choice([1, 2, 5]), 'warmup_steps': warm,
         'cooldown_steps': min(cool, steps - warm)}
    if o['warmup_steps'] + o['cooldown_steps'] > steps:
      o.update(warmup_steps=0, cooldown_steps=0)
    return o
  o = {'schedule': ['warmup_cosine_decay', 'warmup_linear_decay',
                    'warmup_polynomial_decay'][kind - 3],
       'peak_value': peak, 'end_value': rng.choice([0.0, 0.05]),
       'warmup_steps': warm}
  if kind == 5:
    o['power'] = rng.choice([1.0, 2.0, 0.5])
  if rng.random() < 0.2 or warm >= steps:
    o['decay_steps'] = warm + rng.randint(1, 3)
  return o


def draw_optimizer(rng, steps):
  o = {'learning_rate': draw_schedule(rng, steps)}
  kind = rng.randrange(5)
  if kind == 0:
    o.update(name='adam', eps=1e-3)
    if rng.random() < 0.7:
      o.update(b1=0.8, b2=0.95)
  elif kind == 1:
    o.update(name='sgd')
  elif kind in (2, 3):
    o.update(name='sgd', momentum=0.9)
    if rng.random() < 0.3:
      o['nesterov'] = True
  else:
    o.update(name='big_vision_adafactor',
             min_dim_size_to_factor=rng.choice([2, 32]))
    if rng.random() < 0.4:
      o['momentum'] = rng.choice([0.5, None])
    if rng.random() < 0.3:
      o['decay_rate'] = 0.6
    if rng.random() < 0.3:
      o['decay_rate_max'] = 0.5
  if rng.random() < 0.4:
    o['gradient_clip'] = rng.choice([
        {'global_norm': 0.5}, {'global_norm': 0.1}, {'absolute_value': 0.05}])
  if rng.random() < 0.4:
    o['gradient_scale'] = rng.choice([
        [('ead', 2.0)], [('^w$', 0.5), ('head|w', 3.0)], [('.*', 0.1)],
        [('head', 0.5), ('head', 4.0)]])
  if rng.random() < 0.5:
    o['weight_decay'] = rng.choice([
        0.1, [('ad$', 0.2)], [('^h', 0.05), ('.', 0.3)], 0.3])
  p = rng.random()
  if p < 0.2:
    o['frozen_pattern'] = rng.choice(['head', ['w$', 'd$'], ['head'], 'ea|^w'])
  elif p < 0.4:
    o['trainable_pattern'] = rng.choice(['head', ['w$', 'd$'], '^h', ['w']])
  return o


SUMMARIES = [
    # rule, names matched, transforms
    ('^params/head$', 'norm'),
    ('^params/(head|w)$', 'mean'),
    ('^params/[hw]', ('max', (0,)), 'min'),
    ('^params/head', 'min', 'sum'),
    ('grads/head', 'norm'),
    ('params_grads/head', ('std', 0), 'sum'),
    ('head', 'sum'),
]


def gen(rng, tier):
  del tier
  c = c14.draw_common(rng)
  c.pop('epochs', None)
  c['steps'] = rng.randint(2, 7)
  if rng.random() < 0.7:
    c['save'] = dict(c['save'], every_steps=1)
  c['report'] = {'every_secs': None, 'every_steps': rng.choice([1, 1, 2])}
  c['optimizer'] = draw_optimizer(rng, c['steps'])
  c['noise'] = False
  if not c['contrastive'] and rng.random() < 0.4:
    c['loss'] = 'sigmoid_xent'
  if not c['contrastive'] and rng.random() < 0.25:
    c['ensemble'] = rng.choice([2, 3])
  axes = []
  ada = 'adafactor' in c['optimizer']['name']
  if (c['examples'] + 1) % c['experts'] == 0:
    if rng.random() < 0.5:
      axes.append(('params/head$' if ada else 'head$', ('expert',)))
    if rng.random() < 0.5:
      axes.append(('w$', ('expert',)))
  c['axes'] = axes
  if rng.random() < 0.5:
    c['summarize'] = [SUMMARIES[rng.randrange(6)]
                      for _ in range(rng.randint(1, 3))]
  if not c['contrastive'] and rng.random() < 0.15:
    # Mixed examples: only what mixing conserves is predicted.
    c.pop('ensemble', None)
    c.update(mixed=True, loss='sigmoid_xent', mixup={
        'concentration': rng.choice([0.2, 1.0]),
        'granularity': rng.choice(['batch', 'device', 'example']),
        'size': rng.choice([2, 2, 3])})
    for k in ('trainable_pattern', 'gradient_clip'):
      c['optimizer'].pop(k, None)
    c['optimizer']['frozen_pattern'] = 'head'
    c.pop('summarize', None)
  elif not c['contrastive'] and rng.random() < 0.25:
    c['adversarial'] = {'attack_auxiliary_loss': rng.random() < 0.5,
                        'max_epsilon': rng.choice([0.05, 0.2]),
                        'num_updates': rng.randint(1, 3)}
  if rng.random() < 0.35:
    c['extend'] = rng.randint(1, 3)
  if rng.random() < 0.3 and not c.get('microsteps'):
    options = [(h, p) for h, p in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4),
                                   (4, 1)] if c['batch'] % (h * p) == 0]
    h, p = rng.choice(options)
    e = [e for e in (1, 2, 4) if (h * p) % e == 0 and (
        not axes or (c['examples'] + 1) % e == 0)]
    c['then'] = [h, p, rng.choice(e)]
  return 'train', c


def faults(scenario, config):
  del scenario, config
  return ['crash', 'io', 'clock']


def plan(rng, scenario, config, probe):
  p = c14.plan(rng, scenario, config, probe)
  return [f for f in p if f['kind'] != 'read_error']


def shrink(scenario, c):
  yield from c14.shrink(scenario, c)
  for k in ('then', 'extend', 'loss', 'summarize', 'adversarial', 'ensemble'):
    if c.get(k) is not None:
      yield {a: b for a, b in c.items() if a != k}
  for k in ('gradient_clip', 'gradient_scale', 'weight_decay',
            'frozen_pattern', 'trainable_pattern'):
    if k in c['optimizer']:
      yield dict(c, optimizer={a: b for a, b in c['optimizer'].items()
                               if a != k})


# ------------------------------------------------------- the reference model


def rate(lr, t, total):
  """The learning rate of the t-th update (from 0) of `total`."""
  if isinstance(lr, (int, float)):
    return float(lr)
  kind = lr['schedule']
  if kind == 'constant':
    return lr['value']
  warm, peak = lr.get('warmup_steps', 0), lr['peak_value']
  if t < warm:
    return peak * t / warm
  u = t - warm
  if kind == 'warmup_exponential_decay':
    x = u / lr['transition_steps']
    return peak * lr['decay_rate'] ** (math.floor(x) if lr.get('staircase')
                                       else x)
  end = lr.get('decay_steps', total)
  if kind == 'big_vision_rsqrt':
    cool = lr['cooldown_steps']
    if t < end - cool or not cool:
      return peak / math.sqrt(1 + u / lr['timescale'])
    top = peak / math.sqrt(1 + (end - warm - cool) / lr['timescale'])
    return top * (1 - (t - (end - cool)) / cool)
  f = min(u, end - warm) / (end - warm)
  if kind == 'warmup_cosine_decay':
    low = lr['end_value']
    return low + (peak - low) * 0.5 * (1 + math.cos(math.pi * f))
  power = 1.0 if kind == 'warmup_linear_decay' else lr['power']
  return lr['end_value'] + (peak - lr['end_value']) * (1 - f) ** power


def sigmoid(x):
  return 0.5 * (1 + np.tanh(0.5 * x))


def labels_of(images):
  return np.eye(train.CLASSES)[np.argmax(images[:, :-1], axis=1)
                               % train.CLASSES]


def logit_gradients(c, l, y):
  """The loss of each row, and its gradients."""
  if c.get('ensemble'):
    # The mean of the members' losses.
    c, fs = dict(c, ensemble=None), tiny.FACTORS[:c['ensemble']]
    out = [logit_gradients(c, f * np.roll(l, k, axis=1), y)
           for k, f in enumerate(fs)]
    return (sum(v for v, _ in out) / len(fs),
            sum(f * np.roll(g, -k, axis=1)
                for k, (f, (_, g)) in enumerate(zip(fs, out))) / len(fs))
  if c.get('loss') == 'sigmoid_xent':
    return (np.logaddexp(0, l) - y * l).sum(axis=1), sigmoid(l) - y
  lse = np.logaddexp.reduce(l, axis=1, keepdims=True)
  return ((lse - l) * y).sum(axis=1), np.exp(l - lse) - y


def attacked(c, params, images, y):
  """The images after the updates of an adversarial attack."""
  a = c['adversarial']
  x = images.astype(np.float64)
  for _ in range(a['num_updates']):
    _, g = logit_gradients(c, x @ params['head'], y)
    dx = g @ params['head'].T
    if a['attack_auxiliary_loss']:
      dx = dx + params['w']
    x = x + a['max_epsilon'] / a['num_updates'] * np.sign(dx)
  return x


def gradients(c, params, images, y):
  """Gradients and metrics of a batch (or of a part of it)."""
  x = images.astype(np.float64)
  b = len(x)
  h = params['head']
  grads = {'w': x.mean(axis=0), 'd': np.zeros(())}
  aux = float(np.mean(x @ params['w']))
  if c['contrastive']:
    t = x.copy()
    t[:, -1] = 3.0
    z = 2 * np.eye(b) - 1
    l = (x @ h) @ (t @ h).T
    loss = np.logaddexp(0, -z * l).sum(axis=1).mean()
    g = -z * sigmoid(-z * l) / b
    grads['head'] = x.T @ (g @ (t @ h)) + t.T @ (g.T @ (x @ h))
  else:
    loss, g = logit_gradients(c, x @ h, y)
    loss, g = loss.mean(), g / b
    grads['head'] = x.T @ g
  return grads, {'main_loss': loss, 'auxiliary_loss': aux,
                 'total_loss': loss + aux}


def first_match(rules, name, default):
  if isinstance(rules, (int, float)):
    return rules
  for pattern, value in rules or []:
    if re.search(pattern, name):
      return value
  return default


def norm(tree):
  return math.sqrt(sum(float(np.square(v).sum()) for v in tree.values()))


def update(o, g, opt, params, t, total):
  """The parameters after the t-th update (from 0)."""
  g = {k: v * first_match(o.get('gradient_scale'), k, 1.0)
       for k, v in g.items()}
  clip = o.get('gradient_clip') or {}
  if clip.get('global_norm'):
    n = norm(g)
    if n >= clip['global_norm']:
      g = {k: v / n * clip['global_norm'] for k, v in g.items()}
  if clip.get('absolute_value'):
    a = clip['absolute_value']
    g = {k: np.clip(v, -a, a) for k, v in g.items()}
  opt = dict(opt)
  u = {}
  for k, v in g.items():
    if o['name'] == 'adam':
      b1, b2 = o.get('b1', 0.9), o.get('b2', 0.999)
      m = b1 * opt.get(('m', k), 0.0) + (1 - b1) * v
      s = b2 * opt.get(('s', k), 0.0) + (1 - b2) * v * v
      opt['m', k], opt['s', k] = m, s
      u[k] = (m / (1 - b1 ** (t + 1))) / (
          np.sqrt(s / (1 - b2 ** (t + 1))) + o['eps'])
    elif o['name'] == 'sgd':
      mom = o.get('momentum')
      if mom:
        m = v + mom * opt.get(('m', k), 0.0)
        opt['m', k] = m
        u[k] = v + mom * m if o.get('nesterov') else m
      else:
        u[k] = v
    else:
      decay = min(o.get('decay_rate_max', 0.999),
                  1 - (t + 1.0) ** -o.get('decay_rate', 0.8))
      sq = v * v + 1e-30
      if v.ndim == 2 and min(v.shape) >= o['min_dim_size_to_factor']:
        r = decay * opt.get(('r', k), 0.0) + (1 - decay) * sq.mean(axis=1)
        q = decay * opt.get(('q', k), 0.0) + (1 - decay) * sq.mean(axis=0)
        opt['r', k], opt['q', k] = r, q
        est = r[:, None] * q[None, :] / r.mean()
      else:
        est = decay * opt.get(('r', k), 0.0) + (1 - decay) * sq
        opt['r', k] = est
      y = v / np.sqrt(est)
      mom = o.get('momentum', 0.9)
      if mom:
        y = mom * opt.get(('e', k), 0.0) + (1 - mom) * y
        opt['e', k] = y
      u[k] = y
  lr = rate(o['learning_rate'], t, total)
  out, moved = {}, {}
  for k, v in u.items():
    step = -lr * (v + first_match(o.get('weight_decay') or [], k, 0.0)
                  * params[k])
    if is_frozen(o, k):
      step = np.zeros_like(step)
    moved[k] = step
    out[k] = params[k] + step
  return out, opt, lr, moved


def is_frozen(o, name):
  for key, sense in (('frozen_pattern', True), ('trainable_pattern', False)):
    p = o.get(key)
    if p:
      p = [p] if isinstance(p, str) else p
      return sense == any(re.search(x, name) for x in p)
  return False


OPS = {'mean': np.mean, 'std': np.std, 'sum': np.sum, 'min': np.min,
       'max': np.max,
       'norm': lambda x, axis, keepdims: np.sqrt(
           np.square(x).sum(axis=axis, keepdims=keepdims))}


def summaries(rules, params, grads):
  out = {}
  tree = {f'params/{k}': v for k, v in params.items()}
  tree.update({f'params_grads/{k}': v for k, v in grads.items()})
  for pattern, *ops in rules:
    for name, value in tree.items():
      if not re.search(pattern, name):
        continue
      v, suffix = value, ''
      for op in ops:
        axis = None
        if not isinstance(op, str):
          op, axis = op
          axis = (axis,) if isinstance(axis, int) else tuple(axis)
        v = OPS[op](v, axis=axis, keepdims=True)
        suffix += f'_{op}' + ('' if axis is None else f'{axis}')
      out[name + suffix] = float(np.asarray(v).reshape(()))
  return out


def step_of(c, ref, images, t, total):
  params, opt = ref['params'], ref['opt']
  m = c.get('microsteps') or 1
  grads, metrics = {}, {}
  y = labels_of(images)
  if c.get('adversarial'):
    images = attacked(c, params, images, y)
  for j in range(m):
    g, s = gradients(c, params, images[j::m], y[j::m])
    for k, v in g.items():
      grads[k] = grads.get(k, 0.0) + v / m
    for k, v in s.items():
      metrics[k] = metrics.get(k, 0.0) + v / m
  new, opt, lr, moved = update(c['optimizer'], grads, opt, params, t, total)
  metrics['global_norm/grads'] = norm(grads)
  metrics['global_norm/updates'] = norm(moved)
  metrics['global_norm/params'] = norm(new)
  metrics.update(summaries(c.get('summarize') or [], new, grads))
  if c.get('mixed'):
    metrics = {}
  return {'params': new, 'opt': opt, 'lr': lr, 'metrics': metrics}


# -------------------------------------------------------------------- the run


def first(c, params, total):
  lr = rate(c['optimizer']['learning_rate'], 0, total)
  sign = np.random.default_rng(5)
  twin = {k: v * (1 + 1e-6 * sign.choice([-1, 1], v.shape))
          for k, v in params.items()}
  return {'params': params, 'opt': {}, 'lr': lr, 'metrics': {}, 'stable': True,
          'twin': {'params': twin, 'opt': {}}}


def following(c, ref, images, t, total):
  """The next state of the model, and of one that began a little beside it.

  Where these separate, rounding decides: such steps are not compared.
  """
  with np.errstate(all='ignore'):
    new = step_of(c, ref, images, t, total)
    twin = new['twin'] = step_of(c, ref['twin'], images, t, total)
  new['stable'] = ref['stable'] and all(
      np.all(np.abs(v) < 1e3) and np.allclose(
          v, twin['params'][k], rtol=1e-4, atol=1e-5)
      for k, v in new['params'].items())
  return new


def params_of(state):
  return {k: np.asarray(state[f'params/{k}'], np.float64) for k in NAMES}


def check_mixed(ctx, c, step, m):
  m = {k[6:]: v for k, v in m.items() if k.startswith('train/')}
  ctx.check(abs(m['main_loss'] - m['mixed_loss']) < 1e-4, 'labels-not-mixed',
            f'step {step}: {m}')
  ctx.check(m['weight_min'] >= -1e-6 and abs(m['total_min'] - 1) < 1e-4
            and abs(m['total_max'] - 1) < 1e-4, 'weights', f'step {step}: {m}')
  ctx.check(m['spread'] < 1 + 1e-4, 'weights', f'step {step}: {m}')
  ctx.note('mixed batches checked')
  return m['spread']


def close(a, b, scale=1.0):
  return np.allclose(a, b, rtol=2e-3, atol=2e-4 * scale)


def run(ctx):
  c = ctx.config
  c = dict(c, summarize=c.get('summarize') and [
      tuple(tuple(x) if isinstance(x, list) else x for x in r)
      for r in c['summarize']])
  data_lib.reset(ctx.case['io_seed'])
  fs = simfs.SimFS()
  jobs = [c['steps']]
  if c.get('extend'):
    jobs.append(c['steps'] + c['extend'])
  refs = {}
  for attempt in range(ATTEMPTS):
    total = jobs[0]
    last = attempt >= ATTEMPTS - len(jobs)
    moved = attempt > 0 and c.get('then') is not None
    r = train.Run(ctx, dict(c, steps=total), fs, faults=not last,
                  topology=tuple(c['then']) if moved else None)
    excused = any(k.startswith(('io_', 'crash')) for k in r.w.fired)
    for h in r.w.hosts:
      if h.status == 'raised' and not excused:
        raise h.exc
    base = max(r.before) if r.before else 0
    if not r.before:
      if 0 not in r.final_states:
        ctx.check(not r.ok, 'no-first-checkpoint', '')
        continue
      refs = {0: first(c, params_of(r.final_states[0][0]['state'][0]), total)}
    ref = refs[base]
    for j, images in enumerate(r.batches[:total - base]):
      t = base + j
      ref = refs[t + 1] = following(c, ref, images, t, total)
    # The checkpoints.
    for k, hosts in sorted(r.final_states.items()):
      state = hosts[0]['state'][0]
      ctx.check(k in refs, 'unexpected-step', k)
      for name, v in params_of(state).items():
        want = refs[k]['params'][name]
        if c.get('mixed') and name == 'w' and (
            c['mixup']['granularity'] == 'example'):
          continue
        ctx.check(not refs[k]['stable'] or close(v, want), 'parameters',
                  lambda: f'step {k} of {total} (attempt {attempt}, resumed '
                  f'from {r.before[-1:]}): {name} = {v.reshape(-1)[:5]}, '
                  f'expected {want.reshape(-1)[:5]}')
        if is_frozen(c['optimizer'], name):
          ctx.check(np.array_equal(v, refs[0]['params'][name]), 'frozen',
                    f'{name} at step {k}')
      rates = [v for n, v in state.items()
               if n.endswith('hyperparams/learning_rate')]
      ctx.check(len(rates) == 1, 'learning-rate-state', sorted(state))
      ctx.check(close(rates[0], refs[k]['lr'], 0.1), 'learning-rate',
                f'{rates[0]} at step {k} of {total}, '
                f'expected {refs[k]["lr"]}')
      ctx.note('checkpoints compared' if refs[k]['stable']
               else 'checkpoints not compared (unstable training)')
      if r.before:
        ctx.note('checkpoints compared after a restart')
    # The reports.
    spread = []
    for step, m in r.writers[0].log:
      if 'train/main_loss' not in m:
        continue
      if c.get('mixed'):
        spread.append(check_mixed(ctx, c, step, m))
      if not refs[step]['stable']:
        continue
      want = refs[step]['metrics']
      for name, v in want.items():
        ctx.check(f'train/{name}' in m, 'metric-missing', name)
        got = m[f'train/{name}']
        ctx.check(close(got, v, 5.0), 'metric',
                  f'{name} = {got} at step {step}, expected {v}')
      ctx.note('reports compared')
    if len(spread) > 1 and c['mixup']['concentration'] == 1.0 and (
        c['batch'] > r.mesh.devices.size):
      ctx.check(min(spread) < 1 - 1e-5, 'never-mixed', spread)
    if r.ok:
      ctx.check(total in r.store.steps, 'no-final-checkpoint',
                sorted(r.store.steps))
      ctx.note('completed')
      jobs.pop(0)
      if not jobs:
        return
      ctx.note('training extended')
  ctx.fail('never-completes', '')
