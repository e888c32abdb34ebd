"""C08: each chunk is stored exactly once, each file has exactly one writer."""
import numpy as np

from dst import ckpt
from dst import framework as fw
from dst import simfs

base = partitioned = None
FAULTY_RUNS = {'quick': 3, 'thorough': 6}
PREFIX = simfs.ROOT + '/job/ckpt_5'


def setup():
  global base, partitioned
  from vmoe.checkpoints import base as b, partitioned as p
  base, partitioned = b, p


def gen(rng, tier):
  topo = ckpt.gen_topology(rng, max_hosts=5)
  leaves = ckpt.gen_leaves(rng, topo['mesh'], 6)
  if rng.random() < 0.15:
    shape = [rng.choice([11, 13, 17, 18, 22, 26, 34]) for _ in range(2)]
    if rng.random() < 0.3:
      shape.insert(rng.randrange(3), rng.choice([2, 3]))
    leaves.append({'path': 'large', 'shape': shape,
                   'dtype': rng.choice(ckpt.DTYPES),
                   'spec': ckpt.gen_spec(rng, shape, topo['mesh'])})
  if rng.random() < 0.3:
    for l in leaves:
      l['spec'] = [[] for _ in l['shape']]
  cfg = {
      'hosts': topo['hosts'], 'topo': topo, 'leaves': leaves,
      'num_shards': rng.choice([None, None, 1, 2, topo['hosts'] + 1,
                                2 * topo['hosts'], 11]),
      'max_chunk_bytes': rng.choice([None, 0, 1, 3, 4, 6, 7, 8, 11, 13, 20, 30,
                                     64, 100, 1000]),
      'store': rng.choice(['posix', 'object']),
      'pool': rng.choice([1, 2, 3]),
  }
  return 'layout', cfg


def faults(scenario, config):
  del scenario, config
  return ['crash', 'io']


def run(ctx):
  c, topo = ctx.config, ctx.config['topo']
  fs = simfs.SimFS(c['store'])
  mesh = ckpt.build_mesh(topo)

  def save(h):
    def fn():
      partitioned.save_checkpoint(
          PREFIX, ckpt.state(c['leaves'], mesh, topo, h, 0),
          num_shards=c['num_shards'], thread_pool=base.ThreadPool(c['pool']),
          max_chunk_bytes=c['max_chunk_bytes']).get()
    return fn

  w = ctx.world(fs, num_hosts=topo['hosts'], devices_per_host=topo['dev'],
                pool_procs=c['pool'])
  ctx.run_world(w, [save(h) for h in range(topo['hosts'])])
  # Every file has exactly one writer, with and without faults.
  for f, hosts in fs.writers.items():
    ctx.check(len(set(hosts)) == 1, 'two-writers', f'{f} written by {hosts}')
  ctx.check(not [e for e in fs.log if e[1] == 'remove'], 'removed',
            'a save removed files')
  renames = [e[2] for e in fs.log if e[1] == 'rename']
  ctx.check(len(renames) == len(set(renames)), 'written-twice', renames)
  if w.fired:
    return
  for h in w.hosts:
    if h.status != 'ok':
      ctx.fail('save-failed', f'host {h.index}: {h.status} ' +
               (fw.brief(h.exc) if h.exc else ''))
  want_shards = max(c['num_shards'] or 0, topo['hosts'])
  if c['num_shards'] is None:
    want_shards = topo['hosts']
  names = sorted(f for f in fs.files)
  want = sorted([PREFIX + '.index'] + [
      f'{PREFIX}.data-{i:05d}-of-{want_shards:05d}' for i in range(want_shards)])
  ctx.check(names == want, 'files', lambda: f'{names} instead of {want}')
  out = {}

  def inspect():
    out['index'] = base.restore_checkpoint(PREFIX + '.index')
    out['data'] = [base.restore_checkpoint(f) for f in want[:-1]]

  w2 = ctx.world(fs, faults=False)
  ctx.run_world(w2, [inspect])
  if w2.hosts[0].status != 'ok':
    raise w2.hosts[0].exc
  # Chunks by leaf, in the order of the flattened tree.
  import jax
  order = [l for l in jax.tree_util.tree_leaves(
      ckpt.nest(c['leaves'], [dict_holder(i) for i in range(len(c['leaves']))]))]
  counts = [np.zeros(tuple(l['shape']), np.int32) for l in c['leaves']]
  sizes = [0] * want_shards
  biggest = 0
  for s, chunks in enumerate(out['data']):
    for pos, arrs in chunks.chunks.items():
      i = order[pos].i
      l = c['leaves'][i]
      full = ckpt.value(l, i, 0)
      for a, sl in zip(arrs, chunks.global_slices[pos]):
        idx = tuple(slice(x.start, x.stop) for x in sl)
        ctx.check(ckpt.same(a, full[idx]), 'wrong-chunk', f'{l["path"]} {sl}')
        counts[i][idx] += 1
        nbytes = int(np.prod(a.shape)) * full.dtype.itemsize
        sizes[s] += nbytes
        biggest = max(biggest, nbytes)
        lim = c['max_chunk_bytes']
        if lim and lim >= 1:
          ctx.check(nbytes <= max(lim, full.dtype.itemsize), 'chunk-too-big',
                    f'{l["path"]} {sl}: {nbytes} > {lim}')
  for i, l in enumerate(c['leaves']):
    ctx.check((counts[i] == 1).all(), 'not-exactly-once',
              f'leaf {l["path"]}: elements stored {np.unique(counts[i])} times')
  if all(not any(l['spec']) for l in c['leaves']):
    # Everybody has everything: nobody writes much more than the others.
    ctx.check(max(sizes) - min(sizes) <= biggest, 'unbalanced', sizes)
    ctx.note('balance checked')
  # The index says where the chunks are.
  for i, l in enumerate(c['leaves']):
    info = ckpt.lookup(out['index']['index'], l)
    ctx.check(tuple(info.global_shape.shape) == tuple(l['shape']), 'index',
              l['path'])
    pos = [k for k, o in enumerate(order) if o.i == i][0]
    for sl, s in zip(info.global_slices, info.shards):
      there = out['data'][s].global_slices.get(pos, [])
      ctx.check(sl in there, 'index', f'{l["path"]}: {sl} is not in shard {s}')


class dict_holder:  # pylint: disable=invalid-name
  """A leaf that remembers its position."""

  def __init__(self, i):
    self.i = i


def shrink(scenario, c):
  del scenario
  for l in ckpt.leaf_shrinks(c['leaves']):
    yield dict(c, leaves=l)
  for key, simple in [('num_shards', None), ('max_chunk_bytes', None),
                      ('pool', 1), ('store', 'object')]:
    if c[key] != simple:
      yield {**c, key: simple}
