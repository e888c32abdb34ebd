"""C09: the examples the processes of a job see."""
import itertools

import numpy as np

from dst import data as data_lib
from dst import framework as fw
from dst import simfs

ip = builder_lib = None
LINES = 0.0
FAULTY_RUNS = {'quick': 2, 'thorough': 4}
_serial = itertools.count()


def setup():
  global ip, builder_lib
  data_lib.install()
  from vmoe.data import input_pipeline as i, builder as b
  ip, builder_lib = i, b


def gen(rng, tier):
  del tier
  scenario = rng.choice(['eval', 'eval', 'eval', 'train', 'train', 'divide'])
  hosts = rng.choice([1, 2, 2, 3, 4, 5])
  dev = rng.choice([1, 1, 2])
  n = {'test': rng.randint(1, 30), 'train': rng.randint(1, 30)}
  k = rng.random()
  split = rng.choice(['test', 'train'])
  if k < 0.35:
    m = n[split]
    lo = rng.randint(0, m - 1)
    hi = rng.randint(lo + 1, m)
    split = rng.choice([f'{split}[{lo}:{hi}]', f'{split}[{lo}:]',
                        f'{split}[:{hi}]', f'{split}[50%:]', f'{split}[:70%]'])
  elif k < 0.45:
    split = 'train+test'
  cfg = {
      'hosts': hosts, 'dev': dev, 'split': split,
      'shards': {s: data_lib.draw_shards(rng, 1000 * j, c)
                 for j, (s, c) in enumerate(n.items())},
      'batch': hosts * dev * rng.randint(1, 4),
      'cache': rng.choice([None, None, 'loaded', 'batched']),
      'prefetch': rng.choice([None, 0, 1, 2, 'autotune']),
      'par': rng.choice([1, 3, 128]),
      'variant': rng.choice(['test', 'val', 'fewshot', 'eval']),
      'shuffle_seed': rng.choice([None, None, 0, 7]),
      'buffer': rng.choice([1, 2, 5, 20]),
      'no_labels': rng.random() < 0.25,
      'from_dir': rng.random() < 0.2,
      'data_dir': rng.random() < 0.3,
      # Per pass over the data: how many batches before it is reset (None: all).
      'passes': [rng.choice([None, None, None, 0, 1, 2])
                 for _ in range(rng.randint(1, 4))],
      'epochs': rng.choice([1, 2, 3]),
      'filter': None,
      'restart': rng.random() < 0.3,
      'bad': None,
  }
  if scenario == 'train':
    cfg['variant'] = 'train'
    if cfg['cache'] == 'batched':
      cfg['cache'] = None
    cfg['filter'] = rng.choice([None, None, 2])
    if rng.random() < 0.4:
      cfg['buffer'] = cfg['par'] = 1       # nothing waits in a buffer
  if scenario == 'divide':
    cfg['batch'] = rng.randint(1, 2 * hosts * dev + 1)
  return scenario, cfg


def faults(scenario, config):
  del config
  return ['crash'] if scenario != 'divide' else []


def plan(rng, scenario, config, probe):
  if scenario == 'divide':
    return []
  if rng.random() < 0.6:
    ids = [i for sh in config['shards'].values() for s in sh for i in s]
    return [{'kind': 'read_error', 'id': rng.choice(ids)}]
  return fw.draw_plan(rng, probe, ['crash'], 1, worlds=[0])


def example(c):
  import tensorflow as tf

  def fn(i):
    j = tf.cast(i, tf.int32)
    out = {'image': tf.strings.as_string(i), 'id': i + 1,
           'label': j % 10, 'payload': tf.cast(tf.stack([j, 3 * j]), tf.float32)}
    if c['no_labels']:
      # Every third example has no label at all.
      out['labels'] = tf.cond(i % 3 == 0, lambda: tf.zeros((0,), tf.int32),
                              lambda: tf.fill((1,), j % 10))
    else:
      out['labels'] = j % 10
    return out

  return fn


def make_kwargs(c, name, data_dir):
  process = 'keep("id", "labels", "payload")'
  if c['no_labels']:
    process = 'ignore_no_labels()|' + process
  process += '|onehot(10)'
  kw = dict(variant=c['variant'], name=name, split=c['split'],
            batch_size=c['batch'], process=process,
            num_parallel_calls=c['par'], shuffle_buffer=c['buffer'])
  if c['cache'] is not None:
    kw['cache'] = c['cache']
  if c['prefetch'] is not None:
    kw['prefetch'] = c['prefetch']
  if c['shuffle_seed'] is not None:
    kw['shuffle_seed'] = c['shuffle_seed']
  if data_dir is not None:
    kw['data_dir'] = data_dir
  if c['filter']:
    kw['pre_filter_fn'] = lambda d: d['id'] % c['filter'] == 0
  return kw


def run(ctx):
  c = ctx.config
  data_lib.reset(ctx.case['io_seed'])
  serial = next(_serial)
  name, data_dir = f'sim_{serial}', None
  if c['from_dir']:
    name, data_dir = 'from_directory:x', f'sim_dir_{serial}'
  elif c['data_dir']:
    data_dir = f'sim_dir_{serial}'
  bad = [f['id'] for f in ctx.plan if f['kind'] == 'read_error']
  b = data_lib.SimBuilder(None if c['from_dir'] else name, data_dir,
                          c['shards'], example(c), bad=bad)
  if data_dir is not None and not c['from_dir']:
    # Same name, other directory: other data.
    data_lib.SimBuilder(name, data_dir + '_b', {'train': [[5000, 5001]],
                                                'test': [[5002]]}, example(c))
  want = sorted(i + 1 for i in b.ids(c['split']))
  bad = [i for i in bad if i + 1 in want]
  if bad:
    ctx.note('reads that fail')
    ctx.result.fired['read_error'] = 1
  w = ctx.world(simfs.SimFS(), num_hosts=c['hosts'], devices_per_host=c['dev'])
  kw = make_kwargs(c, name, data_dir)
  hosts = c['hosts']

  if ctx.case['scenario'] == 'divide':
    return divide(ctx, w, kw, len(want))

  runner = train if c['variant'] == 'train' else evaluate
  runner(ctx, w, kw, b, want, bad, name, data_dir)
  if c['restart'] and any(h.status != 'ok' for h in w.hosts) and not bad:
    # After a crash the job starts again: the same guarantees.
    w = ctx.world(simfs.SimFS(), faults=False, num_hosts=hosts,
                  devices_per_host=c['dev'])
    runner(ctx, w, kw, b, want, bad, name, data_dir)


def divide(ctx, w, kw, n):
  c = ctx.config
  per_process, rem = divmod(c['batch'], c['hosts'])
  ok = rem == 0 and c['batch'] % (c['hosts'] * c['dev']) == 0
  shapes = {}

  def proc(h):
    def fn():
      w.kernel.point('start')
      it = ip.get_dataset(**kw)
      shapes[h] = it.element_spec['id'].shape
    return fn

  ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
  for h in w.hosts:
    if ok and n < c['hosts']:
      continue
    if ok:
      ctx.check(h.status == 'ok', 'valid-batch-size-refused',
                lambda: fw.brief(h.exc))
      ctx.check(shapes[h.index] == (per_process,), 'batch-size',
                f'{shapes[h.index]} for {c["batch"]} over {c["hosts"]}')
    else:
      ctx.check(h.status == 'raised', 'indivisible-batch-size-accepted',
                f'{c["batch"]} over {c["hosts"]} x {c["dev"]}')
  ctx.note('divisible' if ok else 'indivisible')


def collect(ctx, batch, size, h):
  """(valid ids, invalid real ids, padding) of a batch; checks consistency."""
  ctx.check(set(batch) == {'id', 'labels', 'payload', ip.VALID_KEY},
            'keys', sorted(batch))
  for k, v in batch.items():
    ctx.check(v.shape[0] == size, 'batch-size', f'host {h}: {k} {v.shape}')
  ids, valid = batch['id'], batch[ip.VALID_KEY]
  ctx.check(valid.dtype == bool, 'valid-dtype', valid.dtype)
  out = ([], [], 0)
  pad = 0
  for r, (i, v) in enumerate(zip(ids.tolist(), valid.tolist())):
    if i == 0:
      ctx.check(not v, 'padding-valid', f'host {h}')
      pad += 1
      continue
    p = batch['payload'][r]
    ctx.check(p[0] == i - 1 and p[1] == 3 * (i - 1), 'example-mixed', i)
    (out[0] if v else out[1]).append(i)
    lab = batch['labels'][r]
    if v:
      ctx.check(lab.argmax() == (i - 1) % 10 and lab.sum() == 1,
                'example-mixed', f'{i}: {lab}')
  return out[0], out[1], pad


def evaluate(ctx, w, kw, b, want, bad, name, data_dir):
  c = dict(ctx.config)
  if bad and c['cache']:
    # tf.data's cache treats what it had when an error occurred as complete;
    # an error hit by a background prefetch of an abandoned pass is lost there.
    c['passes'] = [None]
  hosts, size = c['hosts'], c['batch'] // c['hosts']
  seen = {}        # (pass, host) -> list of batches
  created = {}
  ended = {}

  def proc(h):
    def fn():
      w.kernel.point('start')
      it = ip.get_dataset(**kw)
      created[h] = ip.get_data_num_examples(ConfigLike(kw))
      for p, limit in enumerate(c['passes']):
        if p:
          it.reset()
        got = seen.setdefault((p, h), [])
        src = iter(it) if p % 2 == 0 else it
        while limit is None or len(got) < limit:
          try:
            batch = next(src)
          except StopIteration:
            ended[p, h] = len(got)
            break
          got.append(batch)
          # The step that uses the batch is a collective of the job.
          ns = w.collective(1, lambda v: [sum(v)] * len(v), 'eval_step')
          ctx.check(ns == hosts, 'harness', ns)
          ctx.check(len(got) <= len(want) + 1, 'too-many-batches', len(got))
        w.collective(1, lambda v: [0] * len(v), 'end_of_pass')
    return fn

  ctx.run_world(w, [proc(h) for h in range(hosts)])
  statuses = [h.status for h in w.hosts]
  if len(want) < hosts:
    # tfds refuses to read an empty part: that job fails, loudly.
    ctx.note('fewer examples than processes')
    if any(s == 'raised' for s in statuses):
      return
  if bad:
    full = [p for p, l in enumerate(c['passes']) if l is None]
    if full and 'crashed' not in statuses:
      ctx.check('raised' in statuses, 'read-error-swallowed',
                f'{bad}: {statuses}')
  elif 'crash' not in w.fired:
    for h in w.hosts:
      if h.status == 'raised':
        raise h.exc
    ctx.check(all(s == 'ok' for s in statuses), 'unequal-batches',
              f'{statuses}: ' + str({k: len(v) for k, v in seen.items()}))
  for h in created:
    ctx.check(created[h] == len(want), 'num-examples',
              f'{created[h]} != {len(want)}')
  labelled = [i for i in want if not (c['no_labels'] and (i - 1) % 3 == 0)]
  for p, limit in enumerate(c['passes']):
    allv, alli = [], []
    for h in range(hosts):
      v, i = [], []
      for batch in seen.get((p, h), []):
        a, bb, _ = collect(ctx, batch, size, h)
        v += a
        i += bb
      allv += v
      alli += i
    both = allv + alli
    ctx.check(len(set(both)) == len(both), 'duplicated',
              f'pass {p}: {sorted(x for x in set(both) if both.count(x) > 1)}')
    ctx.check(set(both) <= set(want), 'foreign',
              f'pass {p}: {sorted(set(both) - set(want))}')
    ctx.check(set(allv) <= set(labelled) and not set(alli) & set(labelled),
              'valid-flag', f'pass {p}')
    if all((p, h) in ended for h in range(hosts)):
      ctx.check(not bad, 'read-error-swallowed', bad)
      ctx.check(sorted(allv) == labelled, 'missing',
                f'pass {p}: {sorted(set(labelled) - set(allv))}')
      n = {ended[p, h] for h in range(hosts)}
      ctx.check(len(n) == 1, 'unequal-batches', n)
      ctx.note('complete passes')
      if p:
        ctx.note('complete passes after a reset')


class ConfigLike:
  """A ConfigDict of the arguments of the pipeline."""

  def __init__(self, kw):
    self.kw = {k: v for k, v in kw.items()}

  def to_dict(self):
    return dict(self.kw)


def train(ctx, w, kw, b, want, bad, name, data_dir):
  c = ctx.config
  hosts, size = c['hosts'], c['batch'] // c['hosts']
  if c['filter']:
    want = [i for i in want if i % c['filter'] == 0]
  seen = {h: [] for h in range(hosts)}
  parts = {}
  import tensorflow_datasets.public_api as tfds
  for h in range(hosts):
    ids = [i + 1 for i in b.ids(tfds.even_splits(c['split'], hosts)[h])]
    parts[h] = [i for i in ids if i in set(want)]
  empty = any(not p for p in parts.values())
  batches = {h: (c['epochs'] * len(parts[h]) + size) // size + 1
             for h in range(hosts)}
  steps = max(batches.values())

  def proc(h):
    def fn():
      w.kernel.point('start')
      it = ip.get_dataset(**kw)
      src = iter(it)
      for _ in range(steps):
        seen[h].append(next(src))
        w.collective(1, lambda v: [0] * len(v), 'train_step')
    return fn

  if empty:
    ctx.note('a process without data')
    return
  ctx.run_world(w, [proc(h) for h in range(hosts)])
  if not bad and 'crash' not in w.fired:
    for h in w.hosts:
      if h.status == 'raised':
        if isinstance(h.exc, (StopIteration,)) or 'StopIteration' in repr(
            h.exc):
          ctx.fail('training-data-ends', f'host {h.index}')
        raise h.exc
  got = {}
  for h in range(hosts):
    got[h] = []
    for batch in seen[h]:
      for k, v in batch.items():
        ctx.check(v.shape[0] == size, 'batch-size', f'{k}: {v.shape}')
      for r, i in enumerate(batch['id'].tolist()):
        p = batch['payload'][r]
        ctx.check(p[0] == i - 1 and p[1] == 3 * (i - 1), 'example-mixed', i)
        got[h].append(i)
  owner = {}
  for h in range(hosts):
    for i in got[h]:
      ctx.check(i in set(want), 'foreign', f'host {h}: {i}')
      ctx.check(owner.setdefault(i, h) == h, 'shared',
                f'example {i} on hosts {owner[i]} and {h}')
  if bad or w.fired:
    return
  # Together the processes go through everything, again and again: after
  # `rounds` passes only what waits in buffers may be missing.
  slack = (0 if c['buffer'] == 1 else c['buffer']) + (
      0 if c['par'] == 1 else data_lib.REORDER)
  sizes = [len(set(got[h])) for h in range(hosts)]
  ctx.check(len(set().union(*got.values())) >= len(want) - slack * hosts,
            'missing', f'{len(want)} examples, {sizes} seen')
  for h in range(hosts):
    mine = parts[h]
    m = len(got[h])
    # The number of examples of the part is known up to the split in even
    # parts: they differ by at most one.
    rounds = m // len(mine)
    cnt = {}
    for i in got[h]:
      cnt[i] = cnt.get(i, 0) + 1
    if c['filter']:
      continue
    comps = [len(b.ids(x)) for x in c['split'].split('+')]
    lo = sum(k // hosts for k in comps)
    hi = sum(-(-k // hosts) for k in comps)
    top = -(-(m + slack) // lo)
    ctx.check(max(cnt.values()) <= top, 'repeated-too-often',
              f'host {h}: {max(cnt.values())} > {top}')
    seen_ids = len(cnt)
    ctx.check(seen_ids <= hi, 'uneven', f'host {h}: {seen_ids} > {hi}')
    rounds = m // hi
    deficit = sum(max(0, rounds - k) for k in cnt.values()) + rounds * (
        lo - seen_ids if seen_ids < lo else 0)
    ctx.check(deficit <= slack, 'skipped',
              f'host {h}: {deficit} of {rounds} rounds')
    ctx.note('training rounds', rounds)


def shrink(scenario, c):
  del scenario
  for key, simple in [('hosts', 1), ('dev', 1), ('cache', None),
                      ('prefetch', None), ('par', 1), ('passes', [None]),
                      ('no_labels', False), ('from_dir', False), ('data_dir', False),
                      ('shuffle_seed', None), ('filter', None),
                      ('restart', False), ('epochs', 1)]:
    if c[key] != simple:
      if key in ('hosts', 'dev'):
        yield {**c, key: simple, 'batch': simple * c[
            'dev' if key == 'hosts' else 'hosts'] * 2}
      else:
        yield {**c, key: simple}
