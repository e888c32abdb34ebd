"""C06: storage faults surface; nothing wrong is reported as saved or restored."""
import numpy as np

from dst import ckpt
from dst import framework as fw
from dst import simfs
from dst.props import c01

base = partitioned = None
FAULTY_RUNS = {'quick': 6, 'thorough': 12}


def setup():
  global base, partitioned
  from vmoe.checkpoints import base as b, partitioned as p
  base, partitioned = b, p
  c01.setup()


def gen(rng, tier):
  topo = ckpt.gen_topology(rng, max_hosts=3, max_dev=2)
  topo2 = ckpt.gen_topology(rng, max_hosts=3, max_dev=2)
  leaves = ckpt.gen_leaves(rng, topo['mesh'], 3, zero=0.0)
  cfg = {
      'hosts': topo['hosts'], 'topo': topo, 'topo2': topo2, 'leaves': leaves,
      'specs': [ckpt.gen_spec(rng, l['shape'], topo2['mesh']) for l in leaves],
      'num_shards': rng.choice([None, None, topo['hosts'] + 2, 5]),
      'max_concurrent': rng.choice([None, 1, 1 << 30]),
      'store': rng.choice(['posix', 'object']),
      'pool': rng.choice([None, 1, 2]),
      'files': rng.randint(1, 6),
      'damage': rng.choice(['truncate', 'empty', 'missing', 'half', 'minus1']),
      'victim': rng.getrandbits(16),
      'mismatch': rng.choice(['missing', 'extra', 'rename']),
      'existing': rng.random() < 0.4,
  }
  scenario = rng.choice(['save', 'save', 'restore', 'restore', 'damaged',
                         'bulk', 'mismatch'])
  return scenario, cfg


def faults(scenario, config):
  del config
  return [] if scenario in ('damaged', 'mismatch') else ['io']


def plan(rng, scenario, config, probe):
  if scenario in ('damaged', 'mismatch'):
    return []
  tag = {'save': 0, 'restore': 1, 'bulk': 0}[scenario]
  if config['existing'] and scenario != 'bulk':
    tag += 1
  return fw.draw_plan(rng, probe, ['io'], 2, [tag])


PREFIX = simfs.ROOT + '/job/ckpt_5'


def save_world(ctx, fs, salt=0, **kw):
  c, topo = ctx.config, ctx.config['topo']
  mesh = ckpt.build_mesh(topo)

  def save(h):
    def fn():
      pool = base.ThreadPool(c['pool']) if c['pool'] else None
      partitioned.save_checkpoint(
          PREFIX, ckpt.state(c['leaves'], mesh, topo, h, salt),
          num_shards=c['num_shards'], thread_pool=pool,
          max_chunk_bytes=64).get()
    return fn

  w = ctx.world(fs, num_hosts=topo['hosts'], devices_per_host=topo['dev'],
                pool_procs=c['pool'] or 3, **kw)
  return ctx.run_world(w, [save(h) for h in range(topo['hosts'])])


def restore_world(ctx, fs, expect=None):
  c, topo = ctx.config, ctx.config['topo2']
  mesh = ckpt.build_mesh(topo)

  def restore(h):
    def fn():
      pool = base.ThreadPool(c['pool']) if c['pool'] else None
      out = partitioned.restore_checkpoint(
          PREFIX, ckpt.templates(c['leaves'], mesh, topo, c['specs']),
          thread_pool=pool, max_concurrent_bytes=c['max_concurrent'])
      ckpt.check_tree(ctx, out, c['leaves'], 0, h, 'silent-corruption')
    return fn

  w = ctx.world(fs, num_hosts=topo['hosts'], devices_per_host=topo['dev'],
                pool_procs=c['pool'] or 3)
  return ctx.run_world(w, [restore(h) for h in range(topo['hosts'])])


def hit(w, host):
  return [e for e in w.events if e[0] == 'io_fault' and e[1] == host]


def judge(ctx, w, what, status_needed=True):
  """A host that hit a fault raises; hosts that did not do not invent one."""
  any_fault = any(hit(w, h.index) for h in w.hosts)
  for h in w.hosts:
    if hit(w, h.index):
      ctx.note(f'{what}: fault surfaced')
      if h.status == 'ok' and status_needed:
        e = hit(w, h.index)[0]
        ctx.fail('fault-swallowed',
                 f'{what} on host {h.index} succeeded although {e[2]} of '
                 f'{e[3]} failed with {e[4]}')
    elif h.status == 'raised':
      ctx.fail('spurious-error', f'{what} on host {h.index}: {fw.brief(h.exc)}')
    elif h.status == 'aborted' and not any_fault:
      ctx.fail('spurious-error', f'{what} on host {h.index} aborted')


def run(ctx):
  c = ctx.config
  scenario = ctx.case['scenario']
  fs = simfs.SimFS(c['store'])
  if scenario == 'bulk':
    return bulk(ctx, fs)
  if c['existing']:
    # A checkpoint of the same step, with other contents, is there already.
    for h in save_world(ctx, fs, 1, faults=False).hosts:
      if h.status != 'ok':
        ctx.fail('spurious-error', f'{h.status} {h.exc and fw.brief(h.exc)}')
  w = save_world(ctx, fs)
  judge(ctx, w, 'save')
  if any(h.status != 'ok' for h in w.hosts):
    # Not saved: the retry of the job has to succeed over the leftovers.
    w = save_world(ctx, fs)
    judge(ctx, w, 'retried save')
  if scenario == 'mismatch':
    return mismatch(ctx, fs)
  if scenario == 'damaged':
    names = sorted(f for f in fs.files if f.startswith(PREFIX))
    f = names[c['victim'] % len(names)]
    data = fs.files[f]
    n = {'truncate': c['victim'] % max(1, len(data)), 'empty': 0,
         'half': len(data) // 2, 'minus1': len(data) - 1}.get(c['damage'])
    if n is None:
      del fs.files[f]
    else:
      fs.files[f] = data[:n]
    w = restore_world(ctx, fs)   # values are checked inside
    readers = [h for h in w.hosts if h.status == 'ok']
    ctx.note('damaged file rejected', len(w.hosts) - len(readers))
    for h in readers:
      # This host must not have needed the damaged file.
      if h.index in fs.readers.get(f, ()):
        ctx.fail('damage-accepted', f'host {h.index} read {f} '
                 f'({c["damage"]}) and restored without an error')
    return
  w = restore_world(ctx, fs)
  judge(ctx, w, 'restore')


def mismatch(ctx, fs):
  """A template with another structure is refused, not filled in."""
  c, topo = ctx.config, ctx.config['topo2']
  mesh = ckpt.build_mesh(topo)
  leaves = list(c['leaves'])
  if c['mismatch'] == 'missing':
    leaves = leaves[1:]
  elif c['mismatch'] == 'extra':
    leaves = leaves + [dict(leaves[0], path='extra/leaf')]
  else:
    leaves = [dict(leaves[0], path='renamed/leaf')] + leaves[1:]
  specs = [[[] for _ in l['shape']] for l in leaves]

  def fn():
    partitioned.restore_checkpoint(
        PREFIX, ckpt.templates(leaves, mesh, topo, specs))

  w = ctx.world(fs, num_hosts=topo['hosts'], devices_per_host=topo['dev'])
  ctx.run_world(w, [fn] * topo['hosts'])
  for h in w.hosts:
    if h.status == 'ok':
      ctx.fail('mismatch-accepted', f'template with a {c["mismatch"]} leaf')
  ctx.note('structure mismatch refused')


def bulk(ctx, fs):
  c = ctx.config
  paths = [f'{simfs.ROOT}/bulk/f{i}' for i in range(c['files'])]
  trees = {p: c01.tree_of(i + 1) for i, p in enumerate(paths)}
  result = {}
  if c['existing']:
    for p in paths:
      fs.put(p, c01.serialization.to_bytes(c01.tree_of(77)))

  def fn():
    pool = base.ThreadPool(c['pool']) if c['pool'] else None
    try:
      base.save_multiple_checkpoints_async(trees, thread_pool=pool).get()
      result['save'] = 'ok'
    except Exception as e:  # pylint: disable=broad-except
      result['save'] = e
    nfaults = len(hit(w, 0))
    result['save_faults'] = nfaults
    if nfaults:
      base.save_multiple_checkpoints_async(trees, thread_pool=pool).get()
    before = len(hit(w, 0))
    try:
      out = base.restore_multiple_checkpoints(
          {p: None for p in paths}, thread_pool=pool)
      result['restore'] = out
    except Exception as e:  # pylint: disable=broad-except
      result['restore'] = e
    result['restore_faults'] = len(hit(w, 0)) - before

  w = ctx.world(fs, num_hosts=1, pool_procs=c['pool'] or 3)
  ctx.run_world(w, [fn])
  if w.hosts[0].status == 'raised':
    if 'injected' in str(w.hosts[0].exc):
      return
    ctx.fail('spurious-error', fw.brief(w.hosts[0].exc))
  if result['save_faults']:
    ctx.note('save: fault surfaced')
    ctx.check(result['save'] != 'ok', 'fault-swallowed', 'bulk save')
  else:
    ctx.check(result['save'] == 'ok', 'spurious-error', lambda: str(
        result['save']))
  if result['restore_faults']:
    ctx.note('restore: fault surfaced')
    ctx.check(isinstance(result['restore'], Exception), 'fault-swallowed',
              'bulk restore')
  else:
    ctx.check(not isinstance(result['restore'], Exception), 'spurious-error',
              lambda: str(result['restore']))
    for i, p in enumerate(paths):
      ctx.check(c01.equal(result['restore'][p], i + 1), 'silent-corruption', p)


def shrink(scenario, c):
  del scenario
  for k in range(len(c['leaves'])):
    if len(c['leaves']) > 1:
      yield dict(c, leaves=c['leaves'][:k] + c['leaves'][k + 1:],
                 specs=c['specs'][:k] + c['specs'][k + 1:])
  if c['files'] > 1:
    yield dict(c, files=c['files'] - 1)
  for key, simple in [('num_shards', None), ('max_concurrent', None),
                      ('pool', 1), ('store', 'object')]:
    if c[key] != simple:
      yield {**c, key: simple}
