"""C17: an adversarial attack covers the dataset and reports what it did."""
import io
import itertools

import numpy as np

from dst import data as data_lib
from dst import framework as fw
from dst import mh
from dst import simfs

lib = partitioned = None
LINES = 0.0
FAULTY_RUNS = {'quick': 1, 'thorough': 3}
_serial = itertools.count()
WORK = simfs.ROOT + '/attack'
PREFIX = simfs.ROOT + '/model/ckpt_7'


def setup():
  global lib, partitioned
  mh.install()
  data_lib.install()
  from vmoe.projects.adversarial_attacks import lib as l
  from vmoe.checkpoints import partitioned as p
  lib, partitioned = l, p


def gen(rng, tier):
  del tier
  hosts, per = rng.choice([(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (3, 1),
                           (4, 1)])
  n = rng.randint(max(hosts, 2), 13)
  experts = rng.choice([0, 2, 3, 4])
  c = {
      'hosts': hosts, 'per': per, 'n': n,
      'shards': data_lib.draw_shards(rng, 0, n),
      'batch': hosts * per * rng.randint(1, 3),
      'tokens': rng.choice([1, 2, 3]), 'dim': rng.choice([2, 3]),
      'classes': rng.choice([2, 3, 4]),
      'experts': experts,
      'selected': rng.randint(1, min(experts, 2)) if experts else 1,
      'dispatcher': rng.choice(['einsum', 'indices']),
      'bfloat16': rng.random() < 0.3,
      'updates': rng.choice([1, 1, 2, 3, 5]),
      'eps': rng.choice([0.05, 0.3, 1.0]),
      'loss': rng.choice(['softmax_xent', 'sigmoid_xent']),
      'noise': rng.random() < 0.3,
      'aux': rng.random() < 0.4,
      'seed': rng.choice([None, 0, 3]),
      'partitions': rng.choice([p for p in (1, 2, 4)
                                if p == 1 or (per % p == 0)] + [1]),
      'shard_params': rng.random() < 0.4,
      'ckpt_shards': rng.choice([None, 1, 3]),
      'prefetch_device': rng.choice([None, 1, 2, 5]),
      'cache': rng.choice([None, 'loaded', 'batched']),
      'val_seed': rng.randrange(10 ** 6),
      'store_kind': rng.choice(['posix', 'object']),
      # Examples can only be stored by single-process jobs.
      'store': (rng.choice([None, {}, {'transfer_every_steps': 2},
                            {'transfer_every_steps': 3},
                            {'prefix': simfs.ROOT + '/other/ex'}])
                if hosts == 1 else None),
      'work_exists': rng.random() < 0.5,
  }
  c['aux'] = c['aux'] or c['noise']
  c['record'] = c['noise'] and rng.random() < 0.5
  if c['noise'] and hosts == 1 and c['store'] is None:
    c['store'] = {}
  return 'attack', c


def faults(scenario, config):
  del scenario, config
  return ['crash', 'io']


def plan(rng, scenario, config, probe):
  del scenario
  if rng.random() < 0.3:
    return [{'kind': 'read_error', 'id': rng.randrange(config['n'])}]
  return fw.draw_plan(rng, probe, ['crash', 'io', 'io', 'clock'], 1)


def table(c):
  rng = np.random.default_rng(c['val_seed'])
  f = np.float32
  t, d = c['tokens'], c['dim']
  x = rng.normal(size=(c['n'], t, d)).astype(f)
  y = rng.integers(0, c['classes'], c['n'])
  w = rng.normal(size=(t * d, c['classes'])).astype(f)
  gate = rng.normal(size=(d, max(c['experts'], 1))).astype(f)
  return x, y, w, gate


def reference(c, tbl):
  """The attack in float64. Returns per-example results and a tie flag."""
  x0, y, w, gate = [a.astype(np.float64) for a in tbl]
  y = y.astype(int)
  n = len(y)
  hot = np.eye(c['classes'])[y]
  tie = np.zeros(n, bool)

  def forward(x):
    nonlocal tie
    lg = x.reshape(n, -1) @ w
    s = np.sort(lg, axis=1)
    tie = tie | ((s[:, -1] - s[:, -2]) < 1e-3)
    m = lg.max(1, keepdims=True)
    lse = m[:, 0] + np.log(np.exp(lg - m).sum(1))
    p = np.exp(lg - lse[:, None])
    if c['loss'] == 'softmax_xent':
      return lg, lse - (lg * hot).sum(1), p - hot
    sg = 1 / (1 + np.exp(-lg))
    loss = (np.logaddexp(0, lg) - lg * hot).sum(1)
    return lg, loss, sg - hot

  def experts(x):
    nonlocal tie
    g = x @ gate                                   # (n, t, e)
    order = np.argsort(-g, axis=-1)
    s = -np.sort(-g, axis=-1)
    k = c['selected']
    if k < c['experts']:
      tie = tie | ((s[..., k - 1] - s[..., k]) < 1e-3).any(-1)
    sel = np.zeros(g.shape, bool)
    np.put_along_axis(sel, order[..., :k], True, -1)
    return sel

  x = x0
  for _ in range(c['updates']):
    _, _, dl = forward(x)
    g = (dl @ w.T)
    tie = tie | (np.abs(g) < 1e-5).any(1)
    x = x + c['eps'] / c['updates'] * np.sign(g).reshape(x.shape)
  lg0, l0, _ = forward(x0)
  lgm, lm, _ = forward(x)
  out = {'x': x, 'l0': l0, 'lm': lm, 'p0': lg0.argmax(1), 'pm': lgm.argmax(1)}
  if c['experts']:
    a, b = experts(x0), experts(x)
    out['e0'], out['em'] = a, b
    out['iou'] = ((a & b).sum(-1) / (a | b).sum(-1)).mean(-1)
  return out, tie


class Writer:

  def __init__(self):
    self.log = []

  def write_scalars(self, step, scalars):
    self.log.append((int(step), {k: float(v) for k, v in scalars.items()}))


def make_config(c, name):
  import ml_collections
  ds = dict(name=name, split='test', batch_size=c['batch'],
            process=f'keep("image", "labels")|onehot({c["classes"]})')
  for k in ('cache', 'prefetch_device'):
    if c[k] is not None:
      ds[k] = c[k]
  cfg = {
      'dataset': ds, 'restore': {'from': 'checkpoint', 'prefix': PREFIX},
      'model': {'name': 'dst.tiny.Attacked', 'num_classes': c['classes'],
                'num_experts': c['experts'], 'selected': c['selected'],
                'dispatcher': c['dispatcher'], 'bfloat16': c['bfloat16'],
                'noise': c['noise'], 'record': bool(c.get('record'))},
      'num_updates': c['updates'], 'max_epsilon': c['eps'],
      'loss': {'name': c['loss'], 'attack_auxiliary_loss': c['aux']},
      'params_axis_resources': (
          [('kernel$', (None, 'expert'))] if c['shard_params'] and
          c['experts'] % max(c['partitions'], 1) == 0 else []),
      'num_expert_partitions': c['partitions'],
      'extra_rng_keys': ['dropout'] if c['noise'] else [],
  }
  if c['seed'] is not None:
    cfg['seed'] = c['seed']
  if c['store'] is not None:
    cfg['store_examples'] = dict({'transfer_every_steps': 1}, **c['store'])
  return ml_collections.ConfigDict(cfg)


def save_model(ctx, c, fs, w, gate):
  import jax.numpy as jnp
  params = {'w': jnp.asarray(w)}
  if c['experts']:
    params['Router'] = {'dense': {'kernel': jnp.asarray(gate)}}
  world = ctx.world(fs, faults=False)

  def save():
    partitioned.save_checkpoint(PREFIX, params,
                                num_shards=c['ckpt_shards']).get()

  ctx.run_world(world, [save])
  if world.hosts[0].status != 'ok':
    raise world.hosts[0].exc


class Job:

  def __init__(self, ctx, c, fs, tbl, bad=(), faults=True):
    import jax
    from dst import tiny
    x, y = tbl[:2]

    def example(i):
      import tensorflow as tf
      return {'image': tf.gather(tf.constant(x), i),
              'labels': tf.gather(tf.constant(y.astype(np.int32)), i), 'id': i}

    data_lib.reset(ctx.case['io_seed'])
    name = self.name = f'sim_{next(_serial)}'      # a new process has nothing cached
    data_lib.SimBuilder(name, None, {'test': c['shards']}, example, bad=bad)
    self.w = w = ctx.world(fs, faults=faults, num_hosts=c['hosts'],
                           devices_per_host=c['per'])
    mh.attach(w, c['hosts'], c['per'])
    self.writers = [Writer() for _ in range(c['hosts'])]
    jax.effects_barrier()
    tiny.drawn.clear()

    def proc(h):
      return lambda: lib.run_pgd_attack(make_config(c, name), WORK, None,
                                        self.writers[h])

    ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
    jax.effects_barrier()
    self.keys = set(tiny.drawn)
    self.statuses = [h.status for h in w.hosts]
    self.ok = all(s == 'ok' for s in self.statuses)


def load(fs, path):
  return dict(np.load(io.BytesIO(fs.files[path])))


def check_results(ctx, c, fs, job, ref, tie, tbl):
  """Everything a job that succeeded has reported."""
  n = c['n']
  exact = not tie.any()
  if not exact:
    ctx.note('ambiguous (ties)')
  state = load(fs, WORK + '/pgd_state.npz')
  ctx.check(int(state['num_images']) == n, 'num-images',
            f"{state['num_images']} != {n}")
  right = [(ref['p0'] == tbl[1]).sum(), (ref['pm'] == tbl[1]).sum()]
  changes = (ref['p0'] != ref['pm']).sum()
  loss = np.array([ref['l0'].sum(), ref['lm'].sum()])
  slack = int(tie.sum())
  for k in range(2):
    ctx.check(abs(float(state['num_correct'][k]) - right[k]) <= slack + 1e-3,
              'num-correct', f"{state['num_correct']} != {right}")
  ctx.check(abs(float(state['num_changes']) - changes) <= slack + 1e-3,
            'num-changes', f"{state['num_changes']} != {changes}")
  for k in range(2):
    got = float(state['sum_loss'][k])
    if k == 1 and not exact:
      continue
    low, high = loss[k], loss[k] + (n if c['noise'] else 0)
    tol = 1e-3 * (1 + abs(loss[k]))
    ctx.check(low - tol <= got <= high + tol, 'sum-loss',
              f"{state['sum_loss']} != {loss} (+{'noise' if c['noise'] else 0})")
  iou_keys = [k for k in state if k.startswith('sum_iou_experts/')]
  ctx.check(len(iou_keys) == (1 if c['experts'] else 0), 'routers', iou_keys)
  if c['experts']:
    got = float(state[iou_keys[0]])
    ctx.check(abs(got - ref['iou'].sum()) <= slack + 1e-3, 'iou',
              f"{got} != {ref['iou'].sum()}")
  # What was given to the metric writers, on every process.
  for h, wr in enumerate(job.writers):
    merged = {}
    for step, m in wr.log:
      for k, v in m.items():
        ctx.check((step, k) not in merged, 'reported-twice', f'{step} {k}')
        merged[step, k] = v
    u = c['updates']
    want = {
        (0, 'error'): 1 - float(state['num_correct'][0]) / n,
        (0, 'loss'): float(state['sum_loss'][0]) / n,
        (u, 'error'): 1 - float(state['num_correct'][1]) / n,
        (u, 'loss'): float(state['sum_loss'][1]) / n,
        (u, 'prediction_changes'): float(state['num_changes']) / n,
    }
    for k in iou_keys:
      want[u, 'routing_changes/' + k.split('/', 1)[1]] = (
          1 - float(state[k]) / n)
    for key, v in want.items():
      ctx.check(key in merged and abs(merged[key] - v) <= 1e-4 * (1 + abs(v)),
                'reported', f'host {h} {key}: {merged.get(key)} != {v}')
  if c['store'] is not None:
    prefix = c['store'].get('prefix', WORK + '/examples')
    check_examples(ctx, c, load(fs, f'{prefix}-000-of-001'), ref, tie, tbl,
                   state)
  if c.get('record'):
    # Every update of every batch draws numbers of its own, and so do the
    # evaluations before and after.
    batches = max(-(-len(data_lib.lookup(job.name, None).ids(s))
                    // (c['batch'] // c['hosts']))
                  for s in split_of(c['hosts']))
    least = batches * (c['updates'] + 1) + 1
    ctx.check(len(job.keys) >= least, 'random-keys-reused',
              f'{len(job.keys)} keys, {least} needed')
    ctx.note('random keys counted')
  ctx.note('attacks checked')


def split_of(hosts):
  import tensorflow_datasets as tfds
  return tfds.even_splits('test', hosts)


def check_examples(ctx, c, ex, ref, tie, tbl, state):
  x, y = tbl[:2]
  valid = ex['valid'].astype(bool)
  rows = len(valid)
  for k, v in ex.items():
    ctx.check(len(v) == rows, 'examples-rows', f'{k}: {v.shape} {rows}')
  ctx.check(rows % c['batch'] == 0 and valid.sum() == c['n'], 'examples-count',
            f"{rows} rows, {valid.sum()} valid, {c['n']} examples")
  seen = []
  noise = {}
  for r in np.flatnonzero(valid):
    match = np.flatnonzero((x == ex['x_0'][r]).all((1, 2)))
    ctx.check(len(match) == 1, 'examples-unknown', f'row {r}')
    i = int(match[0])
    seen.append(i)
    ctx.check(ex['y'][r].argmax() == y[i] and ex['y'][r].sum() == 1,
              'examples-label', f'row {r}')
    d = np.abs(ex['x_m'][r] - ex['x_0'][r]).max()
    ctx.check(d <= c['eps'] * (1 + 1e-4) + 1e-5, 'epsilon',
              f"row {r} moved by {d}, allowed {c['eps']}")
    b = r // c['batch']
    if c['noise']:
      noise.setdefault((b, 0), []).append(ex['l_0'][r] - ref['l0'][i])
    else:
      ctx.check(abs(ex['l_0'][r] - ref['l0'][i]) < 1e-3 * (1 + ref['l0'][i]),
                'examples-loss', f'row {r}')
    if tie[i]:
      continue
    ctx.check(np.abs(ex['x_m'][r] - ref['x'][i]).max() < 1e-4, 'examples-image',
              f'row {r}: the attacked image is wrong')
    ctx.check(ex['y_0'][r] == ref['p0'][i] and ex['y_m'][r] == ref['pm'][i],
              'examples-prediction', f'row {r}')
    if c['noise']:
      noise.setdefault((b, 1), []).append(ex['l_m'][r] - ref['lm'][i])
    else:
      ctx.check(abs(ex['l_m'][r] - ref['lm'][i]) < 1e-3 * (1 + ref['lm'][i]),
                'examples-loss', f'row {r}')
    for k, v in ex.items():
      if k.startswith('cw_'):
        want = ref['e0' if k.startswith('cw_0/') else 'em'][i]
        ctx.check(v[r].shape == want.shape and ((v[r] > 0) == want).all(),
                  'examples-experts', f'row {r} {k}')
  ctx.check(sorted(seen) == list(range(c['n'])), 'examples-once', f'{seen}')
  ctx.check(sum(k.startswith('cw_') for k in ex) == (2 if c['experts'] else 0),
            'examples-experts', sorted(ex))
  if c['noise']:
    means = {}
    for key, v in noise.items():
      ctx.check(max(v) - min(v) < 1e-3 * (1 + max(map(abs, v))) + 1e-2,
                'noise-per-batch', f'{key}: {v}')
      means[key] = float(np.mean(v))
    vals = sorted(v for (b, k), v in means.items() if k == 0)
    if len(vals) > 1:
      ctx.check(max(vals) - min(vals) > 1e-4, 'random-keys-reused',
                f'{vals}: all batches drew the same noise')
      ctx.note('random keys of several batches')


def run(ctx):
  c = ctx.config
  tbl = table(c)
  ref, tie = reference(c, tbl)
  bad = [f['id'] for f in ctx.plan if f['kind'] == 'read_error']
  if bad:
    ctx.result.fired['read_error'] = 1
  fs = simfs.SimFS(c['store_kind'])
  fs.add_dirs(WORK if c['work_exists'] else simfs.ROOT)
  save_model(ctx, c, fs, tbl[2], tbl[3])
  job = Job(ctx, c, fs, tbl, bad)
  w = job.w
  io_faults = [e for e in w.events if e[0] == 'io_fault']
  disturbed = bad or 'crash' in w.fired or io_faults
  if not disturbed:
    for h in w.hosts:
      if h.status == 'raised':
        raise h.exc
    ctx.check(job.ok, 'hosts-out-of-step', job.statuses)
  if bad:
    ctx.check('raised' in job.statuses, 'read-error-swallowed', job.statuses)
    ctx.check(WORK + '/pgd_state.npz' not in fs.files, 'partial-results',
              'results were stored although an example could not be read')
    ctx.check(not any(wr.log for wr in job.writers), 'partial-results',
              'results were reported although an example could not be read')
  for e in io_faults:
    ctx.check(w.hosts[e[1]].status != 'ok', 'io-error-swallowed', e)
  if job.ok:
    check_results(ctx, c, fs, job, ref, tie, tbl)
  else:
    # The next attempt, without faults.
    again = Job(ctx, c, fs, tbl, (), faults=False)
    for h in again.w.hosts:
      if h.status == 'raised':
        raise h.exc
    ctx.check(again.ok, 'hosts-out-of-step', again.statuses)
    check_results(ctx, c, fs, again, ref, tie, tbl)
    ctx.note('attacks repeated after a fault')


def shrink(scenario, c):
  del scenario
  for key, simple in [('experts', 0), ('noise', False), ('aux', False),
                      ('updates', 1), ('store', None), ('cache', None),
                      ('prefetch_device', None), ('partitions', 1),
                      ('shard_params', False), ('ckpt_shards', None),
                      ('tokens', 1), ('seed', None)]:
    if c[key] != simple and not (key == 'aux' and c['noise']):
      yield {**c, key: simple, **({'selected': 1} if key == 'experts' else {})}
  if c['hosts'] > 1:
    yield {**c, 'hosts': 1, 'batch': c['per'] * 2}
