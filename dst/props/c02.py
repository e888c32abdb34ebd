"""C02: what a completed sharded save wrote is what any job restores."""
import base64
import collections
import json
import os

import flax
import jax
import numpy as np

from dst import ckpt
from dst import framework as fw
from dst import simfs
from dst import world as world_lib

partitioned = serialization = base = None

# Checkpoints that the first version of the library (before any repair) wrote.
_GOLDEN = os.path.join(os.path.dirname(os.path.dirname(__file__)),
                       'golden.json')
GOLDEN = json.load(open(_GOLDEN)) if os.path.exists(_GOLDEN) else []


@flax.struct.dataclass
class State:
  step: object
  params: object
  opt_state: object
  note: str = flax.struct.field(pytree_node=False, default='static')


Moments = collections.namedtuple('Moments', ['count', 'mu', 'nu'])
Empty = collections.namedtuple('Empty', [])


def tree_of(kind, leaves, values):
  """The values in a tree with containers of the given kind."""
  values = list(values)
  if kind == 'list':
    return {'l': values, 'none': None, 'empty': {}}
  if kind == 'tuple':
    return (values[0], {'rest': tuple(values[1:])}, [Empty(), ()])
  if kind == 'state':
    k = len(values) // 2
    return State(step=values[0], params=ckpt.nest(leaves[1:], values[1:]),
                 opt_state=(Moments(values[0], values[:k], {'x': values[k]}),
                            Empty(), [None]))
  return ckpt.nest(leaves, values)


def setup():
  global partitioned, base, serialization
  from vmoe.checkpoints import partitioned as p, base as b
  from vmoe.checkpoints import serialization as s
  partitioned, base, serialization = p, b, s


def gen(rng, tier):
  a = ckpt.gen_topology(rng)
  b = ckpt.gen_topology(rng)
  if rng.random() < 0.4:
    # Blocks along several dimensions, and other blocks in the restoring job.
    for t in (a, b):
      t.update(rng.choice([
          {'hosts': 2, 'dev': 2, 'mesh': [2, 2]},
          {'hosts': 4, 'dev': 1, 'mesh': [2, 2]},
          {'hosts': 2, 'dev': 3, 'mesh': [2, 3]},
          {'hosts': 3, 'dev': 2, 'mesh': [3, 2]},
          {'hosts': 3, 'dev': 1, 'mesh': [3]},
          {'hosts': 2, 'dev': 1, 'mesh': [2]}]))
    leaves = [{'path': f'g{k}', 'dtype': rng.choice(['float32', 'int32']),
               'shape': rng.choice([[6, 6], [4, 6], [6, 4], [12, 2], [2, 6, 4],
                                    [6, 1, 6]])}
              for k in range(rng.randint(1, 3))]
    for l in leaves:
      l['spec'] = grid_spec(rng, l['shape'], a['mesh'])
    specs = [grid_spec(rng, l['shape'], b['mesh']) for l in leaves]
  else:
    leaves = ckpt.gen_leaves(rng, a['mesh'])
    specs = [ckpt.gen_spec(rng, l['shape'], b['mesh']) for l in leaves]
  nbytes = max([1] + [int(np.prod(l['shape'])) * ckpt.np_dtype(
      l['dtype']).itemsize for l in leaves])
  if GOLDEN and rng.random() < 0.06:
    k = rng.randrange(len(GOLDEN))
    b = ckpt.gen_topology(rng)
    leaves = GOLDEN[k]['leaves']
    return 'golden', {
        'hosts': b['hosts'], 'golden': k, 'a': b, 'b': b, 'leaves': leaves,
        'specs': [ckpt.gen_spec(rng, l['shape'], b['mesh']) for l in leaves],
        'max_concurrent': rng.choice([None, 1, 64, 300, 1 << 30]),
        'pool': rng.choice([None, 1, 2, 4]),
        'store': rng.choice(['posix', 'object']),
        'restore': 'tree' if GOLDEN[k]['old'] or rng.random() < 0.7 else 'none',
        'own_pool': rng.random() < 0.5, 'previous': None, 'num_shards': None,
        'max_chunk_bytes': None, 'container': 'dict'}
  container = rng.choice(['dict', 'dict', 'dict', 'list', 'tuple', 'state'])
  if container == 'list' and rng.random() < 0.3:
    # More than ten elements, whose names ('10', '2') do not sort like numbers.
    while len(leaves) < 12:
      leaves.append(dict(rng.choice(leaves), path=f'more/x{len(leaves)}'))
      specs.append(ckpt.gen_spec(rng, leaves[-1]['shape'], b['mesh']))
  cfg = {
      'container': container,
      'hosts': a['hosts'], 'a': a, 'b': b, 'leaves': leaves, 'specs': specs,
      'num_shards': rng.choice([None, None, 1, 2, a['hosts'], a['hosts'] + 1,
                                2 * a['hosts'], 7]),
      'max_chunk_bytes': rng.choice(
          [None, None, 1, 8, 16, 40, max(1, nbytes // 2), nbytes, 0]),
      'max_concurrent': rng.choice([None, 1, 64, 300, 1 << 30]),
      'pool': rng.choice([None, 1, 2, 4]),
      'store': rng.choice(['posix', 'object']),
      'restore': rng.choice(['tree', 'tree', 'tree', 'none', 'old']),
      'own_pool': rng.random() < 0.5,
      'previous': ckpt.gen_topology(rng) if rng.random() < 0.25 else None,
  }
  if cfg['restore'] == 'old':
    # The oldest files list leaves in the order of the tree, which is that of
    # the files of today only for dicts.
    cfg['container'] = 'dict'
  if cfg['previous']:
    # An older state (other topology, shard count) at the same prefix.
    cfg['previous_leaves'] = (
        [dict(l, spec=ckpt.gen_spec(rng, l['shape'], cfg['previous']['mesh']))
         for l in leaves] if rng.random() < 0.5 else
        ckpt.gen_leaves(rng, cfg['previous']['mesh'], 3))
    cfg['previous_shards'] = rng.choice([None, 2, 7, 9])
  r = rng.random()
  if r < 0.12:
    return 'real_jax', cfg
  return 'roundtrip', cfg


def grid_spec(rng, shape, mesh):
  """Most mesh axes are used, each on a random dimension it divides."""
  spec = [[] for _ in shape]
  size = list(shape)
  for k in rng.sample(range(len(mesh)), len(mesh)):
    dims = [d for d in range(len(shape)) if size[d] % mesh[k] == 0]
    if dims and rng.random() < 0.85:
      d = rng.choice(dims)
      spec[d].append(f'a{k}')
      size[d] //= mesh[k]
  return spec


def faults(scenario, config):
  del scenario, config
  return []


FAULTY_RUNS = {'quick': 2, 'thorough': 4}   # further schedules


def run(ctx):
  if ctx.case['scenario'] == 'real_jax':
    return _real(ctx)
  c = ctx.config
  fs = simfs.SimFS(c['store'])
  prefix = simfs.ROOT + '/job/ckpt_5'
  mesh = ckpt.build_mesh(c['a'])
  leaves = c['leaves']
  kind = c.get('container', 'dict')

  def save_job(topo, mesh, leaves, version, num_shards):
    def save(h):
      def fn():
        tree = ckpt.arrays(leaves, mesh, topo, h, version)
        tree = tree_of(kind if version == 0 else 'dict', leaves, tree)
        kw = {}
        if c['own_pool']:
          kw['thread_pool'] = base.ThreadPool(c['pool'])
        partitioned.save_checkpoint(
            prefix, tree, num_shards=num_shards,
            max_chunk_bytes=c['max_chunk_bytes'], **kw).get()
      return fn

    w = ctx.world(fs, num_hosts=topo['hosts'], devices_per_host=topo['dev'],
                  pool_procs=c['pool'] or 3)
    ctx.run_world(w, [save(h) for h in range(topo['hosts'])])
    for h in w.hosts:
      if h.status != 'ok':
        ctx.fail('save-failed', f'host {h.index}: {h.status} ' +
                 (fw.brief(h.exc) if h.exc else ''))

  golden = ctx.case['scenario'] == 'golden'
  if golden:
    fs.add_dirs(simfs.ROOT + '/job')
    for name, data in GOLDEN[c['golden']]['files'].items():
      fs.put(simfs.ROOT + '/job/' + name, base64.b64decode(data))
    ctx.note('checkpoint of an earlier version')
  elif c['previous']:
    save_job(c['previous'], ckpt.build_mesh(c['previous']),
             c['previous_leaves'], 77, c['previous_shards'])
    ctx.note('saved over an older checkpoint')
  if not golden:
    save_job(c['a'], mesh, leaves, 0, c['num_shards'])
  if c['restore'] == 'old':
    # Same checkpoint, as the version-less writer left it.
    w0 = ctx.world(fs)
    def strip():
      idx = base.restore_checkpoint(prefix + '.index')
      idx.pop('version', None)
      base.save_checkpoint(prefix + '.index', idx)
    ctx.run_world(w0, [strip])
    if w0.hosts[0].status != 'ok':
      ctx.fail('index-rewrite', fw.brief(w0.hosts[0].exc))

  mesh2 = ckpt.build_mesh(c['b'])

  def restore(h):
    def fn():
      tree = None
      if c['restore'] != 'none':
        tree = tree_of(kind, leaves, ckpt.template_leaves(
            leaves, mesh2, c['b'], c['specs']))
      kw = {}
      if c['own_pool']:
        kw['thread_pool'] = base.ThreadPool(c['pool'])
      out = partitioned.restore_checkpoint(
          prefix, tree, max_concurrent_bytes=c['max_concurrent'], **kw)
      # Where each leaf is in the tree.
      where = tree_of(kind, leaves, range(len(leaves)))
      if tree is None:
        where = flax.serialization.to_state_dict(where)
      got = jax.tree_util.tree_structure(out)
      want = jax.tree_util.tree_structure(where)
      ctx.check(got == want, 'wrong-structure', lambda: f'{got} != {want}')
      for i, x in zip(jax.tree_util.tree_leaves(where),
                      jax.tree_util.tree_leaves(out)):
        m = ckpt.mismatch(x, leaves[i], i, 0, h)
        ctx.check(m is None, 'wrong-values', m)
        if tree is not None:
          want = ckpt.sharding_of(mesh2, leaves[i], c['b'], c['specs'][i])
          ctx.check(x.sharding == want, 'wrong-sharding',
                    lambda: f'{x.sharding} != {want}')
    return fn

  w2 = ctx.world(fs, num_hosts=c['b']['hosts'], devices_per_host=c['b']['dev'],
                 pool_procs=c['pool'] or 3)
  ctx.run_world(w2, [restore(h) for h in range(c['b']['hosts'])])
  for h in w2.hosts:
    if h.status != 'ok':
      ctx.fail('restore-failed', f'host {h.index}: {h.status} ' +
               (fw.brief(h.exc) if h.exc else ''))
  ctx.note('hosts %d->%d' % (c['a']['hosts'], c['b']['hosts']))
  if any(0 in l['shape'] for l in leaves):
    ctx.note('zero-size leaves')


def _real(ctx):
  """Real jax arrays on the 4 CPU devices of this process."""
  c = ctx.config
  fs = simfs.SimFS(c['store'])
  prefix = simfs.ROOT + '/job/ckpt_5'
  rng = ctx.rng('real')
  devs = jax.devices()[:4]
  leaves = [l for l in c['leaves'] if l['dtype'] != 'float64'] or [
      {'path': 'x', 'shape': [4], 'dtype': 'float32', 'spec': [[]]}]

  def sharding(shape):
    m = rng.choice([(4,), (2, 2), (1, 4), (4, 1), (2,), (1,)])
    n = int(np.prod(m))
    names = ('x', 'y')[:len(m)]
    mesh = jax.sharding.Mesh(np.array(devs[:n]).reshape(m), names)
    spec, free = [], dict(zip(names, m))
    for d in shape:
      got = None
      for a in list(free):
        if d and d % free[a] == 0 and rng.random() < 0.6:
          got = a
          del free[a]
          break
      spec.append(got)
    return jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(*spec))

  src = [jax.device_put(ckpt.value(l, i, 0), sharding(l['shape']))
         for i, l in enumerate(leaves)]
  dst = [jax.ShapeDtypeStruct(tuple(l['shape']), ckpt.np_dtype(l['dtype']),
                              sharding=sharding(l['shape']))
         for l in leaves]

  def fn():
    partitioned.save_checkpoint(
        prefix, ckpt.nest(leaves, src), num_shards=c['num_shards'],
        max_chunk_bytes=c['max_chunk_bytes']).get()
    tree = None if c['restore'] == 'none' else ckpt.nest(leaves, dst)
    out = partitioned.restore_checkpoint(
        prefix, tree, max_concurrent_bytes=c['max_concurrent'])
    for i, l in enumerate(leaves):
      got = ckpt.lookup(out, l)
      ctx.check(ckpt.same(got, ckpt.value(l, i, 0)), 'wrong-values', l['path'])
      if tree is not None:
        ctx.check(got.sharding == dst[i].sharding, 'wrong-sharding', l['path'])

  w = ctx.world(fs, num_hosts=1, devices_per_host=4, pool_procs=c['pool'] or 3)
  ctx.run_world(w, [fn])
  if w.hosts[0].status != 'ok':
    ctx.fail('restore-failed', fw.brief(w.hosts[0].exc))


def shrink(scenario, c):
  if scenario == 'golden':
    return
  if c.get('container', 'dict') != 'dict':
    yield dict(c, container='dict')
  for k in range(len(c['leaves'])):
    if len(c['leaves']) > 1:
      yield dict(c, leaves=c['leaves'][:k] + c['leaves'][k + 1:],
                 specs=c['specs'][:k] + c['specs'][k + 1:])
  if c['previous']:
    yield dict(c, previous=None)
  if c['restore'] != 'tree':
    yield dict(c, restore='tree')
  for key, simple in [('num_shards', None), ('max_chunk_bytes', None),
                      ('max_concurrent', None), ('pool', 1),
                      ('store', 'object'), ('own_pool', False)]:
    if c[key] != simple:
      yield {**c, key: simple}
  one = {'hosts': 1, 'dev': 1, 'mesh': [1], 'perm': 0, 'explicit': False}
  if c['b'] != one:
    yield dict(c, b=one, specs=[[[] for _ in l['shape']] for l in c['leaves']])
  if c['a'] != one:
    yield dict(c, a=one, hosts=1, leaves=[
        dict(l, spec=[[] for _ in l['shape']]) for l in c['leaves']])
