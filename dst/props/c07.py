"""C07: the barrier, and the directory protocol that relies on it."""
import zlib

from dst import ckpt
from dst import framework as fw
from dst import simfs

base = partitioned = mhu = None
FAULTY_RUNS = {'quick': 5, 'thorough': 10}


def setup():
  global base, partitioned, mhu
  from vmoe.checkpoints import base as b, partitioned as p
  from vmoe import multihost_utils as m
  base, partitioned, mhu = b, p, m


def gen(rng, tier):
  hosts = rng.choice([1, 2, 2, 3, 4, 5])
  dev = rng.randint(1, 4)
  names = [rng.choice(['', 'a', 'b', 'checkpoints:mkdir:/x', 'step_%d' % k,
                       'é', 'x' * 40, 'training:completed', 'a:b/c',
                       'training:ckpt-%d' % k, 'create-checkpoint-dir',
                       'evaluation:start', 'eval:done', 'x_%d.tmp' % k])
           for k in range(rng.randint(1, 5))]
  cfg = {
      'hosts': hosts, 'dev': dev, 'names': names,
      'main': rng.choice([0, 0, 0, hosts - 1]),
      'work': [[rng.randint(0, 3) for _ in names] for _ in range(hosts)],
      'bad': None,
      'makedirs': rng.random() < 0.8,
      'exists': rng.random() < 0.3,
      'dir': rng.choice(['/job', '/job/a/b', '/job/x/y/z']),
      'saves': rng.randint(1, 2),
      'num_shards': rng.choice([None, hosts + 1]),
      'store': rng.choice(['posix', 'object']),
  }
  scenario = rng.choice(['barrier', 'barrier', 'mismatch', 'mkdir', 'mkdir'])
  if scenario == 'mismatch':
    # Hosts that do not agree on the name of the barrier.
    n = rng.randint(1, hosts)
    cfg['bad'] = sorted(rng.sample(range(hosts), n))
    cfg['names'] = ['same', 'same2']
    cfg['work'] = [[rng.randint(0, 3)] * 2 for _ in range(hosts)]
  return scenario, cfg


def faults(scenario, config):
  del config
  return ['crash', 'io'] if scenario == 'mkdir' else ['crash']


def run(ctx):
  if ctx.case['scenario'] == 'mkdir':
    return mkdir(ctx)
  c = ctx.config
  entered = {}     # (round) -> set of hosts
  left = {}
  fs = simfs.SimFS()
  out = {}
  w = ctx.world(fs, num_hosts=c['hosts'], devices_per_host=c['dev'])

  def proc(h):
    def fn():
      for k, name in enumerate(c['names']):
        for _ in range(c['work'][h][k]):
          w.kernel.point('work')
        if c['bad'] is not None and h in c['bad'] and k == 1:
          name = 'other'
        entered.setdefault(k, set()).add(h)
        if c['main'] == 0:
          mhu.sync_devices(name)
        else:
          mhu.sync_devices(name, main_process=c['main'])
        missing = set(range(c['hosts'])) - entered[k]
        ctx.check(not missing, 'barrier-broken',
                  f'host {h} left barrier {k} before hosts {sorted(missing)} '
                  'entered it')
        left.setdefault(k, set()).add(h)
        out[h] = k
    return fn

  ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
  crashed = w.fired.get('crash', 0)
  for h in w.hosts:
    if h.status == 'crashed':
      ctx.note('crashes at a barrier')
      continue
    if c['bad'] is None or crashed:
      if h.status == 'raised' and not crashed:
        ctx.fail('barrier-error', f'host {h.index}: {fw.brief(h.exc)}')
      if not crashed:
        ctx.check(h.status == 'ok' and out.get(h.index) == len(c['names']) - 1,
                  'barrier-stuck', f'host {h.index} is {h.status}')
      continue
    # Names differ from the main process exactly on one side.
    main_bad = c['main'] in c['bad']
    differs = (h.index in c['bad']) != main_bad
    if differs:
      ctx.check(h.status == 'raised', 'mismatch-unnoticed',
                f'host {h.index} used another name than the main process, but '
                f'it is {h.status}')
      ctx.note('name mismatch refused')
    else:
      ctx.check(h.status == 'ok', 'barrier-error',
                f'host {h.index}: {h.status} '
                f'{fw.brief(h.exc) if h.exc else ""}')


def mkdir(ctx):
  """No process writes into the directory before it exists."""
  c = ctx.config
  fs = simfs.SimFS(c['store'])
  d = simfs.ROOT + c['dir']
  if c['exists']:
    fs.add_dirs(d)
  topo = {'hosts': c['hosts'], 'dev': c['dev'], 'mesh': [c['hosts'] * c['dev']]}
  mesh = ckpt.build_mesh(topo)
  leaves = [{'path': 'w', 'shape': [c['hosts'] * c['dev'] * 2],
             'dtype': 'int32', 'spec': [['a0']]},
            {'path': 'b', 'shape': [3], 'dtype': 'float32', 'spec': [[]]}]
  made = []

  def proc(h):
    def fn():
      for k in range(c['saves']):
        partitioned.save_checkpoint(
            f'{d}{k}/ckpt' if k else f'{d}/ckpt',
            ckpt.state(leaves, mesh, topo, h, k), num_shards=c['num_shards'],
            makedirs=c['makedirs']).get()
        made.append((h, k))
    return fn

  w = ctx.world(fs, num_hosts=c['hosts'], devices_per_host=c['dev'])
  ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
  faulty = bool(w.fired)
  for h in w.hosts:
    if h.status == 'raised' and 'injected' in str(h.exc):
      continue
    if c['makedirs']:
      if h.status == 'raised':
        ctx.fail('write-before-mkdir', f'host {h.index}: {fw.brief(h.exc)}')
      if not faulty:
        ctx.check(h.status == 'ok', 'barrier-stuck',
                  f'host {h.index} is {h.status}')
    elif not faulty:
      want = 'ok' if c['exists'] and c['saves'] == 1 else 'raised'
      ctx.check(h.status == want, 'makedirs-ignored',
                f'host {h.index} is {h.status}, expected {want} '
                f'{fw.brief(h.exc) if h.exc else ""}')
  if c['makedirs'] and any(
      e[0] == 'io_fault' and e[2] == 'makedirs' for e in w.events):
    # The directory could not be created: nobody may have written below it.
    ctx.note('mkdir faults')
    wrote = [f for f in fs.files if f.startswith(simfs.ROOT + '/job')]
    first = [e for e in w.events if e[2] == 'makedirs'][0]
    if first[3] == d and not c['exists']:
      ctx.check(not wrote, 'write-before-mkdir', wrote)


def shrink(scenario, c):
  if c['hosts'] > 1 and scenario != 'mismatch':
    yield dict(c, hosts=c['hosts'] - 1, main=min(c['main'], c['hosts'] - 2))
  if c['dev'] > 1:
    yield dict(c, dev=1)
  if len(c['names']) > 1 and scenario == 'barrier':
    yield dict(c, names=c['names'][:-1])
  if any(any(x) for x in c['work']):
    yield dict(c, work=[[0] * len(x) for x in c['work']])
  if c['saves'] > 1:
    yield dict(c, saves=1)
