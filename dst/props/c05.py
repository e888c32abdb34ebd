"""C05: an asynchronous save stores the values at the time of the call."""
import jax
import numpy as np

from dst import ckpt
from dst import framework as fw
from dst import jaxsim
from dst import simfs

base = partitioned = None
FAULTY_RUNS = {'quick': 3, 'thorough': 6}


def setup():
  global base, partitioned
  from vmoe.checkpoints import base as b, partitioned as p
  base, partitioned = b, p


def gen(rng, tier):
  topo = ckpt.gen_topology(rng, max_hosts=3, max_dev=2)
  cfg = {
      'hosts': topo['hosts'], 'topo': topo,
      'leaves': ckpt.gen_leaves(rng, topo['mesh'], 4, zero=0.02),
      'num_shards': rng.choice([None, None, topo['hosts'] + 1, 5]),
      'max_chunk_bytes': rng.choice([None, None, 8, 64]),
      'steps': rng.randint(1, 4),
      'after': rng.choice(['delete', 'delete', 'mutate_tree',
                           'delete_later']),
      'wait': rng.choice(['end', 'end', 'next']),
      'store': rng.choice(['posix', 'object']),
      'pool': rng.choice([None, 1, 2, 3]),
      'shared': rng.random() < 0.2,   # the same array in two places
  }
  return ('real_jax' if rng.random() < 0.15 else 'train'), cfg


def faults(scenario, config):
  del config
  return [] if scenario == 'real_jax' else ['io', 'crash']


def spoil(c, tree, arrays):
  """What a training loop does with a state that it does not need any more."""
  if c['after'] == 'mutate_tree':
    def wipe(d):
      for k in list(d):
        if isinstance(d[k], dict):
          wipe(d[k])
        d[k] = None
    wipe(tree)
    for a in arrays:
      a.delete()
  else:
    for a in arrays:
      a.delete()


def run(ctx):
  if ctx.case['scenario'] == 'real_jax':
    return _real(ctx)
  c = ctx.config
  topo = c['topo']
  fs = simfs.SimFS(c['store'])
  mesh = ckpt.build_mesh(topo)
  ok = {}
  path = lambda s: f'{simfs.ROOT}/run/ckpt_{s}'

  def loop(h):
    def fn():
      pool = base.ThreadPool(c['pool']) if c['pool'] else None
      pending = []
      late = None
      for s in range(1, c['steps'] + 1):
        tree = ckpt.state(c['leaves'], mesh, topo, h, s)
        arrays = jax.tree_util.tree_leaves(tree)
        if c['shared']:
          tree['again'] = arrays[0]
        pending.append((s, partitioned.save_checkpoint(
            path(s), tree, num_shards=c['num_shards'], thread_pool=pool,
            max_chunk_bytes=c['max_chunk_bytes'])))
        if late is not None:
          spoil(c, *late)
          late = None
        if c['after'] == 'delete_later':
          late = (tree, arrays)
        else:
          spoil(c, tree, arrays)
        if c['wait'] == 'next':
          done, res = pending.pop()
          res.get()
          ok.setdefault(done, set()).add(h)
      for done, res in pending:
        res.get()
        ok.setdefault(done, set()).add(h)
    return fn

  w = ctx.world(fs, num_hosts=topo['hosts'], devices_per_host=topo['dev'],
                pool_procs=c['pool'] or 3)
  ctx.run_world(w, [loop(h) for h in range(topo['hosts'])])
  for h in w.hosts:
    if h.status == 'raised' and 'injected' not in str(h.exc):
      ctx.fail('save-failed', f'host {h.index}: {fw.brief(h.exc)}')
    if h.status == 'aborted' and not w.fired.get('crash') and not any(
        f['kind'] == 'io' for f in ctx.plan):
      ctx.fail('save-failed', f'host {h.index} aborted')
  steps = [s for s, hs in sorted(ok.items()) if len(hs) == topo['hosts']]
  ctx.note('asynchronous saves verified', len(steps))

  def restore():
    for s in steps:
      tree = ckpt.templates(c['leaves'], mesh, topo)
      if c['shared']:
        tree['again'] = jax.tree_util.tree_leaves(tree)[0]
      out = partitioned.restore_checkpoint(path(s), tree)
      if c['shared']:
        out.pop('again')
      ckpt.check_tree(ctx, out, c['leaves'], s, 0, 'not-a-snapshot')

  w2 = ctx.world(fs, faults=False, num_hosts=1)
  ctx.run_world(w2, [restore])
  if w2.hosts[0].status != 'ok':
    ctx.fail('not-restorable', fw.brief(w2.hosts[0].exc))


def _real(ctx):
  c = ctx.config
  fs = simfs.SimFS(c['store'])
  leaves = c['leaves']
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:4]), ('x',))
  path = lambda s: f'{simfs.ROOT}/run/ckpt_{s}'

  def place(l, v):
    n = l['shape'][0] if l['shape'] else 0
    spec = jax.sharding.PartitionSpec('x') if n and n % 4 == 0 else (
        jax.sharding.PartitionSpec())
    return jax.device_put(v, jax.sharding.NamedSharding(mesh, spec))

  states = {s: [place(l, ckpt.value(l, i, s)) for i, l in enumerate(leaves)]
            for s in range(1, c['steps'] + 1)}

  def fn():
    pending = []
    for s, arrays in states.items():
      tree = ckpt.nest(leaves, arrays)
      pending.append(partitioned.save_checkpoint(
          path(s), tree, num_shards=c['num_shards'],
          max_chunk_bytes=c['max_chunk_bytes']))
      spoil(c, tree, arrays)
    for p in pending:
      p.get()
    for s in states:
      out = partitioned.restore_checkpoint(path(s), None)
      for i, l in enumerate(leaves):
        ctx.check(ckpt.same(ckpt.lookup(out, l), ckpt.value(l, i, s)),
                  'not-a-snapshot', f'step {s}, leaf {l["path"]}')

  w = ctx.world(fs, num_hosts=1, devices_per_host=4, pool_procs=c['pool'] or 3)
  ctx.run_world(w, [fn])
  if w.hosts[0].status != 'ok':
    ctx.fail('save-failed', fw.brief(w.hosts[0].exc))


def shrink(scenario, c):
  del scenario
  for l in ckpt.leaf_shrinks(c['leaves']):
    yield dict(c, leaves=l)
  if c['steps'] > 1:
    yield dict(c, steps=c['steps'] - 1)
  for key, simple in [('num_shards', None), ('max_chunk_bytes', None),
                      ('after', 'delete'), ('wait', 'end'), ('pool', 1),
                      ('shared', False), ('store', 'object')]:
    if c[key] != simple:
      yield {**c, key: simple}
