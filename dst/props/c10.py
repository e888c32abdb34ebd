"""C10: moving batches to the devices keeps order, values and errors."""
import numpy as np

from dst import framework as fw
from dst import mh
from dst import simfs

pu = None
LINES = 0.3
FAULTY_RUNS = {'quick': 3, 'thorough': 6}


class UpstreamError(Exception):
  pass


class Runtime(UpstreamError, RuntimeError):
  pass


class Value(UpstreamError, ValueError):
  pass


class Io(UpstreamError, OSError):
  pass


class Lookup(UpstreamError, LookupError):
  pass


ERRORS = {e.__name__: e for e in (UpstreamError, Runtime, Value, Io, Lookup)}


def setup():
  global pu
  mh.install()
  from vmoe.data import pjit_utils as p
  pu = p


def gen(rng, tier):
  del tier
  hosts, per = rng.choice([(1, 1), (1, 2), (1, 4), (1, 3), (2, 1), (2, 2),
                           (2, 2), (3, 1), (4, 1)])
  n = hosts * per
  shapes = [(1, n), (n, 1)] + ([(2, n // 2)] if n % 2 == 0 else [])
  order = list(range(n))
  if rng.random() < 0.6:
    rng.shuffle(order)
  cfg = {
      'hosts': hosts, 'per': per, 'order': order, 'mesh': rng.choice(shapes),
      'active': rng.random() < 0.4,
      'items': rng.choice([0, 1, 2, 3, 5, 8, 12]),
      'size': rng.choice([None, 0, -1, 1, 1, 2, 2, 3, 5, 20]),
      'rows': per * rng.randint(1, 3),
      'feat': rng.choice([[], [3], [2, 2]]),
      'strings': rng.random() < 0.3,
      'ragged': rng.random() < 0.2,
      'source': rng.choice(['gen', 'gen', 'iter', 'tf']),
      'stop_after': rng.choice([None, None, None, 2]),
      'reuse': rng.random() < 0.4,
  }
  scenario = rng.choice(['stream'] * 5 + ['indivisible'])
  if scenario == 'indivisible':
    cfg['rows'] = per * rng.randint(1, 2) + rng.randint(1, max(1, per - 1))
    if per == 1:
      cfg['rows'] = 2
      scenario = 'stream'
  return scenario, cfg


def faults(scenario, config):
  del scenario, config
  return ['upstream']


def plan(rng, scenario, config, probe):
  r = rng.random()
  if r < 0.35 and config['items'] and scenario == 'stream':
    return [{'kind': 'upstream', 'host': rng.randrange(config['hosts']),
             'at': rng.randint(0, config['items']),
             'error': rng.choice(sorted(ERRORS))}]
  if r < 0.5:
    return fw.draw_plan(rng, probe, ['crash'], 1)
  return []


def value(c, h, i):
  """Batch i of host h: every row is unique."""
  rows = c['rows']
  ids = np.arange(rows, dtype=np.int64) + 1000 * i + 100000 * (h + 1)
  x = np.empty([rows] + c['feat'], np.float32)
  x.reshape(rows, -1)[:] = ids[:, None] + 0.5
  out = {'image': x, 'nest': {'id': ids.astype(np.int32),
                              'valid': ids % 2 == 0}}
  if c['strings']:
    out['name'] = np.array([b'n%d' % k for k in ids], dtype=object)
  return out


def run(ctx):
  import jax
  import tensorflow as tf
  c = ctx.config
  w = ctx.world(simfs.SimFS(), num_hosts=c['hosts'], devices_per_host=c['per'])
  devs = mh.attach(w, c['hosts'], c['per'], c['order'])
  mesh = mh.mesh_of(devs, c['mesh'])
  pulled = [0] * c['hosts']
  out = [[] for _ in range(c['hosts'])]
  ended = [None] * c['hosts']
  delivered = [0] * c['hosts']
  errors = {f['host']: ERRORS[f.get('error', 'UpstreamError')]
            for f in ctx.plan if f['kind'] == 'upstream'}
  failing = {f['host']: f['at'] for f in ctx.plan if f['kind'] == 'upstream'}

  def source(h):
    buf = None
    for i in range(c['items'] + 1):
      w.kernel.point('pull')
      if failing.get(h) == i:
        w._fire('upstream_error')
        raise errors[h](i)
      if i == c['items']:
        return
      pulled[h] = i + 1
      ctx.check(i + 1 <= delivered[h] + max(c['size'] or 0, 1), 'lookahead',
                f'batch {i + 1} pulled when {delivered[h]} were delivered, '
                f'size {c["size"]}')
      b = value(c, h, i)
      if c['source'] == 'tf':
        b = {'image': tf.constant(b['image']),
             'nest': {k: tf.constant(v) for k, v in b['nest'].items()}}
        if c['ragged']:
          b['rag'] = tf.ragged.constant([[i], [i, i]])
      elif c['reuse'] and not c['strings']:
        # A source that always hands out views of the same memory would be
        # at fault itself; what it does reuse is the container.
        if buf is None:
          buf = {}
        buf.update(b)
        b = buf if c['size'] in (None, 0, -1) else dict(b)
      yield b

  def proc(h):
    def fn():
      it = source(h)
      if c['source'] == 'iter':
        it = iter(Wrapped(it))
      if c['active']:
        with mesh:
          gen = pu.prefetch_to_device(it, c['size'])
          consume(gen)
      else:
        consume(pu.prefetch_to_device(it, size=c['size'], mesh=mesh))

    def consume(gen):
      before = pulled[h]
      ctx.check(before <= max(c['size'] or 0, 0), 'lookahead', before)
      i = 0
      while c['stop_after'] is None or i < c['stop_after']:
        w.kernel.point('next')
        try:
          b = next(gen)
        except StopIteration:
          ended[h] = 'end'
          return
        except UpstreamError:
          ended[h] = 'error'
          return
        i += 1
        delivered[h] = i
        size = c['size'] if c['size'] and c['size'] > 0 else 0
        if h not in failing:
          least = min(c['items'], i + size - 1) if size else i
          ctx.check(pulled[h] >= least, 'not-prefetched',
                    f'{pulled[h]} batches pulled when {i} were delivered, '
                    f'size {c["size"]}')
        out[h].append({'b': b, 'image': np.asarray(b['image']),
                       'id': np.asarray(b['nest']['id']),
                       'valid': np.asarray(b['nest']['valid'])})
        ctx.check(isinstance(b['image'], jax.Array), 'not-an-array', type(b))
        if c['strings'] and c['source'] != 'tf':
          ctx.check(list(b['name']) == list(value(c, h, i - 1)['name']),
                    'strings', b['name'])
        if c['ragged'] and c['source'] == 'tf':
          ctx.check(isinstance(b['rag'], tf.RaggedTensor), 'ragged', b['rag'])
    return fn

  ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
  if ctx.case['scenario'] == 'indivisible':
    if c['items'] and c['stop_after'] != 0 and 'crash' not in w.fired:
      ctx.check(any(h.status == 'raised' and isinstance(h.exc, ValueError)
                    for h in w.hosts), 'indivisible-accepted',
                f'{c["rows"]} rows on {c["per"]} devices')
    ctx.check(not any(out), 'indivisible-accepted', c['rows'])
    return
  calm = not failing and 'crash' not in w.fired
  for h in w.hosts:
    if h.status == 'raised':
      raise h.exc
  if calm:
    n = c['items'] if c['stop_after'] is None else min(c['items'],
                                                       c['stop_after'])
    for h in range(c['hosts']):
      ctx.check(len(out[h]) == n, 'lost-or-extra',
                f'host {h}: {len(out[h])} of {n}')
  for h, at in failing.items():
    if w.hosts[h].status == 'ok' and c['stop_after'] is None:
      ctx.check(ended[h] == 'error', 'error-swallowed',
                f'host {h}: {ended[h]} after {len(out[h])} of {at}')
      ctx.check(len(out[h]) <= at, 'lost-or-extra', len(out[h]))
      ctx.note('upstream errors seen')
  # Values: batch i of everybody is the i-th global batch.
  owner = w.owner
  for h in range(c['hosts']):
    for i, o in enumerate(out[h]):
      rows = c['rows'] * c['hosts']
      ctx.check(o['id'].shape == (rows,) and
                o['image'].shape == tuple([rows] + c['feat']), 'shape',
                f'{o["id"].shape} {o["image"].shape}')
      want = sorted(int(k) for g in range(c['hosts'])
                    for k in value(c, g, i)['nest']['id'])
      ctx.check(sorted(o['id'].tolist()) == want, 'wrong-batch',
                f'host {h}, batch {i}: {o["id"].tolist()} != {want}')
      ids = o['id'].astype(np.float32)
      ctx.check((o['image'].reshape(rows, -1) == ids[:, None] + 0.5).all() and
                (o['valid'] == (o['id'] % 2 == 0)).all(), 'leaves-disagree',
                f'host {h}, batch {i}')
      for leaf in ('id', 'valid'):
        arr = o['b']['nest'][leaf]
        for s in arr.addressable_shards:
          g = owner[s.device.id]
          if leaf == 'id':
            ctx.check(all(int(k) // 100000 == g + 1 for k in
                          np.asarray(s.data)), 'wrong-device',
                      f'host {h}, batch {i}: rows of another process')
      # Every process keeps the order of its rows (in the order of the mesh).
      mine = [int(k) for k in o['id'] if int(k) // 100000 == h + 1]
      ctx.check(mine == sorted(mine), 'rows-reordered',
                f'host {h}, batch {i}: {mine}')
      ctx.note('global batches')


class Wrapped:

  def __init__(self, it):
    self.it = it

  def __iter__(self):
    return self

  def __next__(self):
    return next(self.it)


def shrink(scenario, c):
  for key, simple in [('strings', False), ('ragged', False), ('feat', []),
                      ('source', 'gen'), ('stop_after', None),
                      ('active', False), ('reuse', False), ('size', 1)]:
    if c[key] != simple:
      yield {**c, key: simple}
  if c['items'] > 1:
    yield {**c, 'items': c['items'] - 1}
  if c['hosts'] > 1 and scenario == 'stream':
    n = c['per']
    yield {**c, 'hosts': 1, 'order': list(range(n)), 'mesh': [1, n]}
