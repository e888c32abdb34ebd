"""C19: bulk save and restore keep every path with its own contents."""
from dst import framework as fw
from dst import simfs
from dst.props import c01

base = None
FAULTY_RUNS = {'quick': 3, 'thorough': 6}


def setup():
  global base
  from vmoe.checkpoints import base as b
  base = b
  c01.setup()


def gen(rng, tier):
  n = rng.randint(0, 12)
  return 'bulk', {
      'versions': [rng.randint(1, 40) for _ in range(n)],
      'names': gen_names(rng, n),
      'templates': [rng.random() < 0.5 for _ in range(n)],
      'order': rng.sample(range(n), n),
      'save_pool': rng.choice([None, 1, 2, 5]),
      'restore_pool': rng.choice([None, 1, 2, 5]),
      'overwrite': rng.random() < 0.7,
      'existing': rng.sample(range(n), rng.randint(0, min(n, 2))),
      'makedirs': rng.random() < 0.8,
      'store': rng.choice(['posix', 'object']),
      'rounds': rng.choice([1, 1, 2]),
  }


def gen_names(rng, n):
  """Different paths that have directories, stems or endings in common."""
  dirs = rng.sample(['d0', 'd1', 'd0/x', 'd0-1', '.d', 'ckpt_1'],
                    rng.choice([1, 1, 2, 3]))
  k = rng.randint(2, 12)
  pool = ([f'ckpt_{s}.data-{i:05d}-of-{k:05d}' for s in (1, 10)
           for i in range(k)] +
          [f'ckpt_{s}{x}' for s in (1, 2, 10) for x in ('', '.index', '.data')]
          + ['ckpt', 'ckpt.index', 'a-b-c', 'a-b', 'a', 'A', 'tmp.a', 'é', 'a b',
             'ckpt_ema_1.index', '_1', 'x' * 60] + [f'f{i}' for i in range(8)])
  names = [f'{d}/{b}' for d in dirs for b in pool]
  return rng.sample(names, n)


def faults(scenario, config):
  del scenario, config
  return ['crash']


def run(ctx):
  c = ctx.config
  fs = simfs.SimFS(c['store'])
  paths = [f'{simfs.ROOT}/{name}' for name in c['names']]
  if not c['makedirs']:
    for p in paths:
      fs.add_dirs(p.rsplit('/', 1)[0])
  for i in c['existing']:
    fs.put(paths[i], serial(0))
  version = lambda i, r: c['versions'][i] + 50 * r
  clash = bool(c['existing']) and not c['overwrite']
  state = {'round': -1, 'acked': -1}

  def fn():
    for r in range(c['rounds']):
      state['round'] = r
      res = base.save_multiple_checkpoints_async(
          {p: c01.tree_of(version(i, r)) for i, p in enumerate(paths)},
          overwrite=c['overwrite'] and True, makedirs=c['makedirs'],
          thread_pool=base.ThreadPool(c['save_pool'])
          if c['save_pool'] else None)
      try:
        res.get()
      except Exception as e:  # pylint: disable=broad-except
        if clash or (r > 0 and not c['overwrite'] and paths):
          return
        ctx.fail('spurious-error', fw.brief(e))
      if clash or (r > 0 and not c['overwrite'] and paths):
        ctx.fail('overwrote', 'overwrite=False did not refuse existing files')
      state['acked'] = r
      want = {paths[i]: (c01.tree_of(0) if c['templates'][i] else None)
              for i in c['order']}
      out = base.restore_multiple_checkpoints(
          want, thread_pool=base.ThreadPool(c['restore_pool'])
          if c['restore_pool'] else None)
      ctx.check(isinstance(out, dict) and set(out) == set(want), 'keys',
                lambda: f'{sorted(out)} instead of {sorted(want)}')
      for i, p in enumerate(paths):
        ctx.check(c01.equal(out[p], version(i, r)), 'mixed-up',
                  f'{p} does not have its own contents')

  w = ctx.world(fs, num_hosts=1, pool_procs=3)
  ctx.run_world(w, [fn])
  if w.hosts[0].status == 'raised':
    ctx.fail('spurious-error', fw.brief(w.hosts[0].exc))
  # Whatever happened, every file has contents of its own path.
  r = state['round']
  for i, p in enumerate(paths):
    data = fs.files.get(p)
    if data is None:
      ctx.check(state['acked'] < 0 and i not in c['existing'], 'lost', p)
      continue
    try:
      v = c01.version_of(c01.serialization.msgpack_restore(data))
    except Exception as e:  # pylint: disable=broad-except
      ctx.fail('torn', f'{p}: {fw.brief(e)}')
    ok = {version(i, k) for k in range(max(0, state['acked']), r + 1)}
    if i in c['existing'] and state['acked'] < 0:
      ok.add(0)
      if not c['overwrite']:
        ok = {0}
    ctx.check(v in ok, 'mixed-up', f'{p} has version {v}, expected {ok}')


def serial(version):
  return c01.serialization.to_bytes(c01.tree_of(version))


def shrink(scenario, c):
  del scenario
  if c['versions'] and not c['existing']:
    n = len(c['versions']) - 1
    yield dict(c, versions=c['versions'][:n], names=c['names'][:n],
               templates=c['templates'][:n],
               order=[o for o in c['order'] if o < n])
  for key, simple in [('save_pool', None), ('restore_pool', None),
                      ('rounds', 1), ('store', 'object')]:
    if c[key] != simple:
      yield {**c, key: simple}
