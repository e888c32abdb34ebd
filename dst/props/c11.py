"""C11: evaluation metrics are exact and repeatable."""
import itertools

import numpy as np

from dst import data as data_lib
from dst import framework as fw
from dst import mh
from dst import simfs

ev = ip = None
LINES = 0.0
FAULTY_RUNS = {'quick': 1, 'thorough': 3}
_serial = itertools.count()


def setup():
  global ev, ip
  mh.install()
  data_lib.install()
  from vmoe.evaluate import evaluator as e
  from vmoe.data import input_pipeline as i
  ev, ip = e, i


def gen(rng, tier):
  del tier
  hosts, per = rng.choice([(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (2, 2),
                           (3, 1), (4, 1)])
  names = rng.choice([['val', 'test', 'ood/v2'], ['test', 'val', 'ood/v2'],
                      ['val_a', 'val_b', 'val'], ['ood/v1', 'ood/v2', 'v1']])
  names = names[:rng.choice([1, 1, 2, 3])]
  datasets = {}
  for k, name in enumerate(names):
    n = rng.randint(hosts, 24)
    datasets[name] = {
        'shards': data_lib.draw_shards(rng, 100 * k, n),
        'batch': hosts * per * rng.randint(1, 3),
        'cache': rng.choice([None, 'loaded', 'batched']),
        'prefetch': rng.choice([None, 2, 'autotune']),
        'no_labels': rng.random() < 0.25,
    }
    d = datasets[name]
    if not counted(d, [i for s in d['shards'] for i in s]).size:
      d['no_labels'] = False
  cfg = {
      'hosts': hosts, 'per': per, 'datasets': datasets,
      'rng': rng.random() < 0.5,
      'seed': rng.choice([0, 3]),
      'multi_loss': rng.random() < 0.4,
      'steps': rng.randint(3, 7),
      'every': rng.choice([1, 2, 3]),
      'on_steps': rng.choice([None, None, [1, 4]]),
      'shift': rng.choice([0, 1]),       # do the parameters change
  }
  cfg['record'] = cfg['rng'] and rng.random() < 0.3
  return 'evaluate', cfg


def faults(scenario, config):
  del scenario, config
  return ['read_error']


def plan(rng, scenario, config, probe):
  if rng.random() < 0.6:
    name = rng.choice(sorted(config['datasets']))
    ids = [i for s in config['datasets'][name]['shards'] for i in s]
    return [{'kind': 'read_error', 'id': rng.choice(ids)}]
  return fw.draw_plan(rng, probe, ['crash', 'clock'], 1)


CLASSES = 5


def make_example(d):
  def example(i):
    import tensorflow as tf
    j = tf.cast(i, tf.int32)
    labels = (j * 3) % CLASSES
    if d['no_labels']:
      # Every third example has no label at all.
      labels = tf.cond(i % 3 == 0, lambda: tf.zeros((0,), tf.int32),
                       lambda: tf.fill((1,), (j * 3) % CLASSES))
    return {'image': tf.cast(tf.stack([j + 1, (j * 7) % CLASSES]), tf.float32),
            'labels': labels, 'id': i}

  return example


def counted(d, ids):
  """The examples that count."""
  ids = np.array(ids)
  return ids[ids % 3 != 0] if d['no_labels'] else ids


class Writer:

  def __init__(self):
    self.log = []

  def write_scalars(self, step, scalars):
    self.log.append((int(step), {k: float(v) for k, v in scalars.items()}))


def build(c, datasets, writer, keys):
  import jax
  import jax.numpy as jnp

  def apply_fn(variables, images, rngs):
    shift = variables['params']['shift']
    pred = jnp.mod(images[:, 1] + shift, CLASSES).astype(jnp.int32)
    if c.get('record'):
      key = rngs['dropout']
      if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        key = jax.random.key_data(key)
      jax.debug.callback(lambda k: keys.append(tuple(map(int, k))), key)
    noise = (jax.random.uniform(rngs['dropout'], ()) if c['rng'] else 0.0)
    logits = jax.nn.one_hot(pred, CLASSES) * 2.0
    # Column 0 of what the loss sees: the id (a large value for padding).
    extra = jnp.where(images[:, :1] == 0, 1e6, images[:, :1] + noise)
    return jnp.concatenate([logits, extra], axis=1), {}

  def loss_fn(logits, labels):
    extra = logits[:, CLASSES]
    if c['multi_loss']:
      return jnp.stack([extra, jnp.sum(labels, axis=1)], axis=1)
    return extra

  return ev.EvaluateMultipleDatasets(
      apply_fn=apply_fn, loss_fn=loss_fn,
      label_pred_fn=lambda l: jnp.argmax(l[:, :CLASSES], axis=-1),
      datasets=datasets, metric_writer=writer,
      rng_keys=['dropout'] if c['rng'] else [], seed=c['seed'],
      **({'every_steps': c['every']} if c['on_steps'] is None else
         {'on_steps': c['on_steps']}))


def make_datasets(c, serial):
  out = {}
  for name, d in c['datasets'].items():
    kw = dict(variant=name, name=f'sim_{serial}_{name}', split='test',
              batch_size=d['batch'],
              process=('ignore_no_labels()|' if d['no_labels'] else '') +
              f'keep("image", "labels")|onehot({CLASSES})')
    if d['no_labels'] and c['rng']:
      # How many labelled examples a batch has depends on the order.
      kw['num_parallel_calls'] = 1
    for k in ('cache', 'prefetch'):
      if d[k] is not None:
        kw[k] = d[k]
    out[name] = ip.get_dataset(**kw)
  return out


def run(ctx):
  import jax
  import jax.numpy as jnp
  c = ctx.config
  data_lib.reset(ctx.case['io_seed'])
  serial = next(_serial)
  bad = [f['id'] for f in ctx.plan if f['kind'] == 'read_error']
  builders = {}
  for name, d in c['datasets'].items():
    builders[name] = data_lib.SimBuilder(
        f'sim_{serial}_{name}', None, {'test': d['shards']}, make_example(d),
        bad=bad)
  if bad:
    ctx.result.fired['read_error'] = 1
  w = ctx.world(simfs.SimFS(), num_hosts=c['hosts'], devices_per_host=c['per'])
  mesh = mh.mesh_of(mh.attach(w, c['hosts'], c['per']))
  sharding = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec())
  params = {k: {'shift': jax.device_put(jnp.float32(k), sharding)}
            for k in range(3)}
  writers = {h: Writer() for h in range(c['hosts'])}
  calls = {h: [] for h in range(c['hosts'])}
  keys = {h: [] for h in range(c['hosts'])}

  def param_of(step):
    return (step * c['shift']) % 3

  def proc(h):
    def fn():
      with mesh:
        datasets = make_datasets(c, serial)
        action = build(c, datasets, writers[h], keys[h])
        for step in range(1, c['steps'] + 1):
          w.kernel.point('train_step')
          calls[h].append(
              (step, action(step, params=params[param_of(step)])))
    return fn

  ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
  statuses = [h.status for h in w.hosts]
  due = [s for s in range(1, c['steps'] + 1)
         if (s % c['every'] == 0 if c['on_steps'] is None
             else s in c['on_steps'])]
  for h in w.hosts:
    if h.status == 'raised' and not bad and 'crash' not in w.fired:
      raise h.exc
  if bad and 'crash' not in w.fired:
    ctx.check(not due or 'raised' in statuses, 'read-error-swallowed',
              f'{bad}: {statuses}')
  if not bad and 'crash' not in w.fired:
    ctx.check(all(s == 'ok' for s in statuses), 'hosts-out-of-step',
              f'{statuses}')
  # What should have been reported.
  expect = {}
  for name, d in c['datasets'].items():
    ids = counted(d, builders[name].ids('test'))
    for k in range(3):
      pred = ((ids * 7) % CLASSES + k) % CLASSES
      correct = (pred == (ids * 3) % CLASSES).mean()
      loss = (ids + 1).mean() + (1 if c['multi_loss'] else 0)
      expect[name, k] = (correct, loss)
  if c.get('record') and due:
    # Every batch of an evaluation draws its own random numbers.
    most = max(-(-len(builders[n].ids('test')) // d['batch'])
               for n, d in c['datasets'].items())
    for h in range(c['hosts']):
      if w.hosts[h].status == 'ok':
        ctx.check(len(set(keys[h])) >= most, 'keys-reused',
                  f'host {h}: {len(set(keys[h]))} keys for {most} batches')
        ctx.note('random keys checked')
  noise = {}
  for h in range(c['hosts']):
    reported = {}
    for step, m in writers[h].log:
      m = {k: v for k, v in m.items() if k.endswith(('/prec@1', '/loss'))}
      if not m:
        continue
      ctx.check(step not in reported, 'reported-twice', f'host {h}: {step}')
      reported[step] = m
    for step, m in reported.items():
      ctx.check(step in due, 'unexpected-step', step)
      names = {f'{n}/{x}' for n in c['datasets'] for x in ('prec@1', 'loss')}
      ctx.check(set(m) == names, 'datasets', f'{sorted(m)}')
      ctx.check(not bad or set(bad) == set(), 'read-error-swallowed',
                f'metrics of step {step} were reported')
      for name in c['datasets']:
        correct, loss = expect[name, param_of(step)]
        ctx.check(abs(m[f'{name}/prec@1'] - correct) < 1e-5, 'prec',
                  f'host {h} step {step} {name}: {m[f"{name}/prec@1"]} != '
                  f'{correct}')
        got = m[f'{name}/loss']
        if not c['rng']:
          ctx.check(abs(got - loss) <= 1e-4 * (1 + abs(loss)), 'loss',
                    f'host {h} step {step} {name}: {got} != {loss}')
        else:
          ctx.check(loss - 1e-3 <= got <= loss + 1 + 1e-3, 'loss',
                    f'host {h} step {step} {name}: {got} != {loss} + [0, 1]')
          prev = noise.setdefault(name, got)
          ctx.check(abs(prev - got) <= 1e-5 * (1 + abs(got)), 'not-repeatable',
                    f'{name}: {prev} and {got} (step {step}, host {h})')
      ctx.note('evaluations checked')
    if w.hosts[h].status == 'ok':
      ctx.check(sorted(reported) == due, 'evaluations-missing',
                f'host {h}: {sorted(reported)} != {due}')
      ctx.check([s for s, r in calls[h] if r] == due, 'trigger',
                f'host {h}: {calls[h]}')


def shrink(scenario, c):
  del scenario
  for name in c['datasets']:
    if len(c['datasets']) > 1:
      yield {**c, 'datasets': {k: v for k, v in c['datasets'].items()
                               if k != name}}
  for key, simple in [('rng', False), ('multi_loss', False),
                      ('on_steps', None), ('every', 1), ('shift', 0)]:
    if c[key] != simple:
      yield {**c, key: simple}
  if c['steps'] > 1:
    yield {**c, 'steps': c['steps'] - 1}
  if c['hosts'] > 1:
    yield {**c, 'hosts': 1, 'datasets': {
        k: {**v, 'batch': c['per'] * 2} for k, v in c['datasets'].items()}}
