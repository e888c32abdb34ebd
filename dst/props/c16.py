"""C16: removal deletes the matching files, exactly those."""
from dst import framework as fw
from dst import simfs

base = None
FAULTY_RUNS = {'quick': 5, 'thorough': 10}


def setup():
  global base
  from vmoe.checkpoints import base as b
  base = b


def gen(rng, tier):
  n = rng.randint(0, 14)
  names = []
  for i in range(n):
    names.append(rng.choice(['ckpt_%d', 'ckpt_%d.index', 'ckpt_%d.bak',
                             'ckpt_%d.data-00000-of-00002',
                             '.tmp.ckpt_%d.index', 'foo_%d']) % i)
  return 'remove', {
      'names': names,
      'listed': sorted(rng.sample(range(n), rng.randint(0, n))) if n else [],
      'match': sorted(rng.sample(range(n), rng.randint(0, n))) if n else [],
      'pool': rng.choice([None, None, 1, 2, 5]),
      'iter': rng.choice(['list', 'tuple', 'generator']),
      'truthy': rng.random() < 0.3,
      'store': rng.choice(['posix', 'object']),
      'writer': rng.random() < 0.4,
  }


def faults(scenario, config):
  del scenario, config
  return ['io', 'crash']


def run(ctx):
  c = ctx.config
  fs = simfs.SimFS(c['store'])
  paths = [f'{simfs.ROOT}/d/{n}' for n in c['names']]
  fs.add_dirs(simfs.ROOT + '/d')
  for i, p in enumerate(paths):
    fs.put(p, b'%d' % i)
  listed = [paths[i] for i in c['listed']]
  match = set(paths[i] for i in c['match'])
  target = set(listed) & match
  calls = []

  def match_fn(p):
    calls.append(p)
    r = p in match
    return ('yes' if r else '') if c['truthy'] else r

  def fn():
    pool = base.ThreadPool(c['pool']) if c['pool'] else None
    arg = {'list': list, 'tuple': tuple, 'generator': iter}[c['iter']](listed)
    base.remove_checkpoints(arg, match_fn, thread_pool=pool)
    if not any(e[0] == 'io_fault' and e[1] == 0 for e in w.events):
      left = target & set(fs.files)
      ctx.check(not left, 'not-removed',
                f'{sorted(left)} still exist when the call returns')
    else:
      ctx.fail('fault-swallowed', 'a removal failed, but the call succeeded')

  def writer():
    # Somebody else saves a new checkpoint meanwhile.
    base.save_checkpoint(f'{simfs.ROOT}/d/new_1', {'a': 1})

  w = ctx.world(fs, num_hosts=2 if c['writer'] else 1, pool_procs=3)
  ctx.run_world(w, [fn] + ([writer] if c['writer'] else []))
  for i, p in enumerate(paths):
    if p not in target:
      ctx.check(fs.files.get(p) == b'%d' % i, 'removed-too-much', p)
  removed = [e[2] for e in fs.log if e[1] == 'remove']
  ctx.check(len(removed) == len(set(removed)), 'removed-twice', removed)
  ctx.check(set(removed) <= target, 'removed-too-much', removed)
  if c['writer'] and w.hosts[1].status == 'ok':
    ctx.check(f'{simfs.ROOT}/d/new_1' in fs.files, 'removed-too-much', 'new_1')
  h = w.hosts[0]
  if h.status == 'raised' and not any(
      e[0] == 'io_fault' and e[1] == 0 for e in w.events):
    ctx.fail('spurious-error', fw.brief(h.exc))


def shrink(scenario, c):
  del scenario
  for k in range(len(c['listed'])):
    yield dict(c, listed=c['listed'][:k] + c['listed'][k + 1:])
  for key, simple in [('pool', None), ('iter', 'list'), ('truthy', False),
                      ('writer', False)]:
    if c[key] != simple:
      yield {**c, key: simple}
