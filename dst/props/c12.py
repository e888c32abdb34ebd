"""C12: few-shot evaluation: repeatable, and what it says it is."""
import itertools

import numpy as np

from dst import data as data_lib
from dst import framework as fw
from dst import mh
from dst import simfs

fs_lib = None
LINES = 0.0
FAULTY_RUNS = {'quick': 1, 'thorough': 2}
_serial = itertools.count()
DIM = 3
L2 = [[1e-3, 1.0, 1000.0], [0.1], [2.0 ** -10, 2.0 ** 20],
      [30.0, 1000.0, 0.01], [1e5, 1e-3, 3.0, 100.0], [5.0, 2000.0, 0.1, 1e5]]


def setup():
  global fs_lib
  mh.install()
  data_lib.install()
  from vmoe.evaluate import fewshot
  fs_lib = fewshot


def gen(rng, tier):
  del tier
  scenario = rng.choice(['full', 'full', 'subset', 'repeat', 'repeat'])
  hosts, per = rng.choice([(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (3, 1)])
  classes = rng.choice([2, 3])
  per_class = rng.choice([2, 3])
  shots = rng.choice([[1], [2], [1, 2]])
  if scenario == 'full':
    shots = rng.choice([[per_class], [5, 10], [per_class, 20]])
  cfg = {
      'hosts': hosts, 'per': per, 'classes': classes, 'per_class': per_class,
      'n_test': rng.choice([6, 10, 23]),
      'shots': shots, 'l2': rng.choice(L2),
      'batch': hosts * per * rng.randint(1, 3),
      'datasets': rng.choice([1, 1, 2]), 'share': rng.random() < 0.5,
      'seed': rng.choice([0, 0, 5]),
      'fold': rng.random() < 0.4,
      'seeds_per_step': rng.choice([1, 1, 2, 3]),
      'main_task': rng.random() < 0.5,
      'rng': scenario == 'repeat' and rng.random() < 0.5,
      'cache': rng.choice([None, 'loaded', 'batched']),
      'prefetch_device': rng.choice([None, 1, 2]),
      'steps': sorted(rng.sample(range(1, 8), rng.randint(2, 3))),
      # The shared dataset again: the same splits, or parts of them.
      'slices': rng.choice([None, None, ['train', 'test[:50%]'],
                            ['train[:50%]', 'test'],
                            ['train[50%:]', 'test[50%:]']]),
      'val_seed': rng.randrange(10 ** 6),
      'shard_seed': rng.randrange(10 ** 6),
  }
  if classes * per_class // 2 < hosts:
    cfg['slices'] = None           # every process has a part
  cfg['record'] = cfg['rng'] and rng.random() < 0.5
  return scenario, cfg


def faults(scenario, config):
  del scenario, config
  return ['read_error']


def plan(rng, scenario, config, probe):
  del scenario
  if rng.random() < 0.5:
    n = config['classes'] * config['per_class']
    return [{'kind': 'read_error', 'id': rng.randrange(n + config['n_test'])}]
  return fw.draw_plan(rng, probe, ['crash', 'clock'], 1)


def table(c, k):
  """Features and labels of dataset k: first the training examples."""
  rng = np.random.default_rng([c['val_seed'], k])
  n = c['classes'] * c['per_class']
  y = np.concatenate([np.arange(n) % c['classes'],
                      rng.integers(0, c['classes'], c['n_test'])])
  centers = rng.normal(size=(c['classes'], DIM))
  x = centers[y] + rng.normal(size=(len(y), DIM)) * 1.5
  return x.astype(np.float32), y.astype(np.int32), n


def ridge(x, y, xt, classes, l2):
  """Scores of the test examples (float64)."""
  x, xt = x.astype(np.float64), xt.astype(np.float64)
  mean, std = x.mean(0, keepdims=True), x.std(0, keepdims=True) + 1e-5
  pad = lambda a: np.pad((a - mean) / std, ((0, 0), (0, 1)),
                         constant_values=fs_lib.BIAS_CONSTANT)
  x, xt = pad(x), pad(xt)
  t = 2.0 * np.eye(classes)[y] - 1.0
  w = np.linalg.solve(x.T @ x + l2 * np.eye(x.shape[1]), x.T @ t)
  return xt @ w


def accuracy(x, y, xt, yt, classes, l2):
  """(accuracy, fraction of the test examples that rounding could flip)."""
  if (x.std(0) < 1e-4).any():
    return 0.0, 1.0
  s = ridge(x, y, xt, classes, l2)
  top = np.sort(s, axis=1)
  # float32 with a bias feature of 100: relative precision of the scores.
  near = (top[:, -1] - top[:, -2]) < 4e-3 * np.abs(s).max()
  return (s.argmax(1) == yt).mean(), near.mean()


class Writer:

  def __init__(self):
    self.log = []

  def write_scalars(self, step, scalars):
    self.log.append((int(step), {k: float(v) for k, v in scalars.items()}))


def run(ctx):
  import jax
  import jax.numpy as jnp
  import tensorflow as tf
  c = ctx.config
  data_lib.reset(ctx.case['io_seed'])
  serial = next(_serial)
  bad = [f['id'] for f in ctx.plan if f['kind'] == 'read_error']
  tables = [table(c, k) for k in range(c['datasets'])]
  import random
  for k, (x, y, n) in enumerate(tables):
    xs, ys = tf.constant(x), tf.constant(y)

    def example(i, xs=xs, ys=ys):
      return {'image': xs[i], 'label': ys[i], 'id': i}

    srng = random.Random(f"{c['shard_seed']}/{k}")
    data_lib.SimBuilder(
        f'sim_{serial}_{k}', None,
        {'train': data_lib.draw_shards(srng, 0, n),
         'test': data_lib.draw_shards(srng, n, c['n_test'])},
        example, num_classes=c['classes'], bad=bad if k == 0 else ())
  names = {f'd{k}': (f'sim_{serial}_{k}', 'train', 'test')
           for k in range(c['datasets'])}
  if c['share']:
    names['again'] = (f'sim_{serial}_0', *(c.get('slices')
                                           or ('train', 'test')))
  # Features and labels of the tasks: training and test examples.
  tasks = {}
  for n, (tfds_name, *splits) in names.items():
    x, y, _ = tables[int(tfds_name.rsplit('_', 1)[1])]
    ids = [np.array(data_lib.lookup(tfds_name, None).ids(sp)) for sp in splits]
    tasks[n] = (x[ids[0]], y[ids[0]], x[ids[1]], y[ids[1]])
  keys = {}
  if bad:
    ctx.result.fired['read_error'] = 1

  def apply_fn(variables, images, rngs, drawn):
    x = images * variables['params']['scale']
    if c.get('record'):
      key = rngs['noise']
      if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        key = jax.random.key_data(key)
      jax.debug.callback(lambda k: drawn.append(tuple(map(int, k))), key)
    if c['rng']:
      x = x + jax.random.normal(rngs['noise'], x.shape)
    # Padding would be conspicuous.
    x = jnp.where(jnp.all(images == 0, axis=1, keepdims=True), 1e4, x)
    return x, {}

  def action(writer, h):
    import functools
    drawn = keys.setdefault(h, [])
    return fs_lib.FewShotPeriodicAction(
        shots=c['shots'], l2_regs=c['l2'], metric_writer=writer,
        datasets=names, apply_fn=functools.partial(apply_fn, drawn=drawn),
        rng_keys=['noise'] if c['rng'] else [], seed=c['seed'],
        seed_fold_in_step=c['fold'], seeds_per_step=c['seeds_per_step'],
        main_task=('d0', c['shots'][0]) if c['main_task'] else None,
        on_steps=c['steps'], prefetch_to_device=c['prefetch_device'],
        batch_size=c['batch'], process='keep("image", "label")',
        # One at a time: the examples arrive in a fixed order.
        num_parallel_calls=8 if ctx.case['scenario'] == 'full' else 1,
        **({'cache': c['cache']} if c['cache'] else {}))

  def job(steps, faults):
    """One run of a job that evaluates at some of c['steps']."""
    w = ctx.world(simfs.SimFS(), faults=faults, num_hosts=c['hosts'],
                  devices_per_host=c['per'])
    mesh = mh.mesh_of(mh.attach(w, c['hosts'], c['per']))
    sharding = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec())
    variables = {'params': {'scale': jax.device_put(jnp.float32(1.0),
                                                    sharding)}}
    writers = [Writer() for _ in range(c['hosts'])]

    def proc(h):
      def fn():
        with mesh:
          a = action(writers[h], h)
          for step in steps:
            w.kernel.point('train_step')
            a(step, variables=variables)
      return fn

    ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
    return w, writers

  w, writers = job(c['steps'], True)
  statuses = [h.status for h in w.hosts]
  calm = not bad and 'crash' not in w.fired
  if calm:
    for h in w.hosts:
      if h.status == 'raised':
        raise h.exc
    ctx.check(all(s == 'ok' for s in statuses), 'hosts-out-of-step', statuses)
  if bad and 'crash' not in w.fired:
    ctx.check('raised' in statuses, 'read-error-swallowed', statuses)
  seen = {}
  for h in range(c['hosts']):
    for step, m in writers[h].log:
      m = {k: v for k, v in m.items() if not k.endswith('duration_secs')}
      ctx.check(not bad, 'read-error-swallowed', f'step {step} was reported')
      ctx.check((step, h) not in seen, 'reported-twice', f'{step} {h}')
      seen[step, h] = m
      check_metrics(ctx, c, tasks, m)
      ctx.note('evaluations checked')
  for step in c['steps']:
    ms = [seen[step, h] for h in range(c['hosts']) if (step, h) in seen]
    ctx.check(all(m == ms[0] for m in ms), 'hosts-disagree', f'step {step}')
    if calm:
      ctx.check(len(ms) == c['hosts'], 'evaluations-missing', f'step {step}')
  if c.get('record') and calm:
    # Every batch of every evaluation (of every seed) draws its own numbers.
    most = max(sum(-(-len(y) // c['batch']) for y in (t[1], t[3]))
               for t in tasks.values()) * c['seeds_per_step'] * (
                   len(c['steps']) if c['fold'] else 1)
    for h in range(c['hosts']):
      ctx.check(len(set(keys[h])) >= most, 'keys-reused',
                f'host {h}: {len(set(keys[h]))} keys for {most} batches')
      ctx.note('random keys checked')
  if not calm or ctx.case['scenario'] == 'full':
    return
  if not c['fold']:
    # The same seed, parameters and data: the same results.
    for step in c['steps'][1:]:
      ctx.check(seen[step, 0] == seen[c['steps'][0], 0], 'not-repeatable',
                diff(seen[step, 0], seen[c['steps'][0], 0]))
  # A job that starts now and only evaluates at the last step agrees.
  last = c['steps'][-1]
  _, again = job([last], False)
  m = [m for s, m in again[0].log if s == last]
  ctx.check(m, 'evaluations-missing', 'second job')
  m = {k: v for k, v in m[0].items() if not k.endswith('duration_secs')}
  ctx.check(m == seen[last, 0], 'not-repeatable',
            'another job: ' + diff(m, seen[last, 0]))
  ctx.note('repeated evaluations compared')


def diff(a, b):
  return str({k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b))
              if a.get(k) != b.get(k)})


def check_metrics(ctx, c, tasks, m):
  """Accuracies against a float64 model of the few-shot evaluation."""
  subs = range(c['seeds_per_step'])
  full = lambda n, s: n if c['seeds_per_step'] == 1 else f'{n}-seed-{s}'
  want = {f'fewshot/{full(n, s)}/{k}shot' for n in tasks for s in subs
          for k in c['shots']}
  want |= {f'fewshot/{k}shot_best_l2' for k in c['shots']}
  shot0 = c['shots'][0]
  if c['main_task']:
    want.add(f'0/d0/{shot0}shot')
  ctx.check(set(m) == want, 'metrics', sorted(set(m) ^ want))
  if c['main_task']:
    mean = np.mean([m[f'fewshot/{full("d0", s)}/{shot0}shot'] for s in subs])
    ctx.check(abs(mean - m[f'0/d0/{shot0}shot']) < 1e-6, 'main-task',
              f'{m[f"0/d0/{shot0}shot"]} != {mean}')
  if c['rng']:
    return
  for k in c['shots']:
    best = [l for l in c['l2'] if abs(l - m[f'fewshot/{k}shot_best_l2'])
            <= 1e-6 * l]
    ctx.check(len(best) == 1, 'best-l2', m[f'fewshot/{k}shot_best_l2'])
    certain = []           # per task: accuracies of the regularizers
    for n, (x, y, xt, yt) in tasks.items():
      groups = [np.where(y == cl)[0] for cl in range(c['classes'])]
      options = [list(itertools.combinations(g, min(k, len(g))))
                 for g in groups]
      accs = []
      for choice in itertools.product(*options):
        idx = np.concatenate([np.array(g, int) for g in choice])
        accs.append(accuracy(x[idx], y[idx], xt, yt, c['classes'], best[0]))
      for s in subs:
        got = m[f'fewshot/{full(n, s)}/{k}shot']
        ok = any(abs(got - a) <= amb + 1e-5 for a, amb in accs)
        ctx.check(ok, 'accuracy',
                  f'{n} {k}-shot l2={best[0]}: {got}, not one of '
                  f'{sorted(set(round(a, 4) for a, _ in accs))}')
        ctx.note('accuracies checked')
        if len(accs) == 1 and accs[0][1] == 0:
          ctx.note('exact accuracies checked')
      if len(accs) == 1:
        res = [accuracy(x, y, xt, yt, c['classes'], l) for l in c['l2']]
        certain.append(None if any(u for _, u in res)
                       else [a for a, _ in res])
    # The regularizer: one for all the tasks, the best in the mean of its
    # ranks (all examples in use: the seeds give the same results).
    if len(certain) != len(tasks) or None in certain:
      continue
    if len(tasks) == 1:
      got = m[f'fewshot/{full("d0", 0)}/{k}shot']
      ctx.check(abs(got - max(certain[0])) < 1e-5, 'not-the-best',
                f'{got}: {certain}')
      ctx.note('best regularizers checked')
    # Ties may be broken in any way.
    below = np.mean([[sum(b < v for b in a) for v in a] for a in certain], 0)
    above = np.mean([[sum(b <= v for b in a) - 1 for v in a]
                     for a in certain], 0)
    ctx.check(above[c['l2'].index(best[0])] >= below.max() - 1e-9,
              'not-the-best', f'{best[0]} of {c["l2"]}: {certain}')
    ctx.note('ranks of regularizers checked')


def shrink(scenario, c):
  del scenario
  for key, simple in [('share', False), ('datasets', 1), ('cache', None),
                      ('prefetch_device', None), ('main_task', False),
                      ('seeds_per_step', 1), ('fold', False), ('rng', False),
                      ('l2', [0.1])]:
    if c[key] != simple:
      yield {**c, key: simple}
  if len(c['steps']) > 1:
    yield {**c, 'steps': c['steps'][1:]}
  if c['hosts'] > 1:
    yield {**c, 'hosts': 1, 'batch': c['per']}
