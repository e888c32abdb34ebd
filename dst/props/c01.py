"""C01: a checkpoint file is published atomically."""
import numpy as np

from dst import framework as fw
from dst import simfs

base = tf = serialization = None


def setup():
  global base, tf, serialization
  import tensorflow
  from vmoe.checkpoints import base as b, serialization as s
  base, tf, serialization = b, tensorflow, s


def gen(rng, tier):
  cfg = {
      'hosts': rng.choice([1, 2, 2, 3]),   # host 0 writes, the others read
      'writes': [{'overwrite': rng.random() < 0.75,
                  'async': rng.random() < 0.4,
                  'makedirs': rng.random() < 0.8,
                  'version': rng.randint(1, 9)}
                 for _ in range(rng.randint(1, 4))],
      'reads': rng.randint(1, 6),
      'template': rng.random() < 0.4,
      'dir': rng.choice(['', '/a', '/a/b']),
      'name': rng.choice(['ckpt', 'ckpt_3', 'x.index', 'y.data-00000-of-00002']),
      'store': rng.choice(['posix', 'object']),
      'restart': rng.random() < 0.7,
      'pool': rng.choice([1, 2]),
      'own_pool': rng.random() < 0.5,
  }
  return 'publish', cfg


def faults(scenario, config):
  del scenario, config
  return ['crash', 'crash', 'io']


def plan(rng, scenario, config, probe):
  p = fw.draw_plan(rng, probe, ['crash', 'crash', 'io'], 2)
  # Faults hit the writer, readers only report what they see.
  for f in p:
    f['host'] = 0
    points, ops = probe.lengths[f['world']][0]
    f['at'] = 1 + f['at'] % max(1, (points if f['kind'] == 'crash' else ops))
  return p


def tree_of(version):
  """Trees of different sizes, so that mixtures cannot go unnoticed."""
  n = 3 + 11 * (version % 4)
  return {
      'id': np.int64(version),
      'a': np.full((n, 2), version, np.float32),
      'b': {'c': [np.arange(n) + version, np.float32(version)],
            's': 'v%d' % version, 'z': complex(version, -1), 'n': version,
            'e': {}},
      'tail': np.full((2 * n,), version, np.int32),
  }


def flat(t, p=''):
  if isinstance(t, dict):
    out = {} if t else {p: 'empty'}
    for k, v in t.items():
      out.update(flat(v, f'{p}/{k}'))
    return out
  if isinstance(t, (list, tuple)):
    return flat({str(i): v for i, v in enumerate(t)}, p)
  return {p: t}


def equal(t, version):
  a, b = flat(t), flat(tree_of(version))
  if set(a) != set(b):
    return False
  for k in a:
    x, y = a[k], b[k]
    if isinstance(y, np.ndarray) or isinstance(y, np.generic):
      if not (np.asarray(x).dtype == y.dtype and np.array_equal(x, y)):
        return False
    elif type(x) is not type(y) or x != y:
      return False
  return True


def version_of(t):
  """Version of a complete tree, or None if it is a mixture."""
  try:
    v = int(t['id'])
  except Exception:  # pylint: disable=broad-except
    return None
  return v if equal(t, v) else None


def read(path, template):
  return base.restore_checkpoint(path, tree_of(0) if template else None)


def run(ctx):
  c = ctx.config
  fs = simfs.SimFS(c['store'])
  fs.add_dirs(simfs.ROOT)
  path = f'{simfs.ROOT}{c["dir"]}/{c["name"]}'
  # `allowed`: the versions that the file may have now; `trail`: all of them.
  state = {'acked': None, 'allowed': {None}, 'trail': [{None}]}

  def allow(versions):
    state['allowed'] = versions
    state['trail'].append(versions)

  def expect_fail(wr):
    if not wr['makedirs'] and c['dir'] and simfs.norm(
        f'{simfs.ROOT}{c["dir"]}') not in fs.dirs:
      return 'missing directory'
    if not wr['overwrite'] and path in fs.files:
      return 'file exists'
    return None

  def writer(writes, sink):
    def fn():
      for wr in writes:
        why = expect_fail(wr)
        before = fs.files.get(path)
        allow(state['allowed'] | {wr['version']})
        kw = dict(overwrite=wr['overwrite'], makedirs=wr['makedirs'])
        err = None
        try:
          if wr['async']:
            if c['own_pool']:
              kw['thread_pool'] = base.ThreadPool(c['pool'])
            base.save_checkpoint_async(path, tree_of(wr['version']), **kw).get()
          else:
            base.save_checkpoint(path, tree_of(wr['version']), **kw)
        except Exception as e:  # pylint: disable=broad-except
          err = e
        injected = err is not None and 'injected' in str(err)
        if why == 'file exists' and (err is None or fs.files.get(path) != before):
          ctx.fail('overwrote', 'an existing file was replaced although '
                   'overwrite=False')
        if why is None and err is not None and not injected:
          ctx.fail('spurious-error', fw.brief(err))
        if err is None and why != 'file exists':
          state['acked'] = wr['version']
          allow({wr['version']})
          now = fs.files.get(path)
          if now is None:
            ctx.fail('lost', 'save returned but there is no file')
          sink.append(wr['version'])
        elif err is None:
          pass
        else:
          # A failed save leaves the old or the new file, never something else.
          check_durable('after a failed save')
    return fn

  def check_durable(when, allowed=None):
    allowed = state['allowed'] if allowed is None else allowed
    data = fs.files.get(path)
    if data is None:
      ctx.check(None in allowed, 'lost', f'{when}: the file disappeared; '
                f'expected one of {allowed}')
      return None
    got = None
    try:
      got = version_of(serialization.msgpack_restore(data))
    except Exception as e:  # pylint: disable=broad-except
      ctx.fail('torn', f'{when}: {fw.brief(e)}')
    ctx.check(got is not None, 'torn', f'{when}: mixed or truncated contents')
    ctx.check(got in allowed, 'stale', f'{when}: version {got} is visible, '
              f'expected one of {allowed}')
    return got

  def reader(h):
    def fn():
      for _ in range(c['reads']):
        since = len(state['trail']) - 1
        try:
          got = read(path, c['template'])
        except tf.errors.NotFoundError:
          ctx.check(None in state['trail'][since], 'lost',
                    'a reader found no file after a save had returned')
          continue
        except fw.Violation:
          raise
        except Exception as e:  # pylint: disable=broad-except
          ctx.fail('torn', f'reader on host {h}: {fw.brief(e)}')
        v = version_of(got)
        ctx.check(v is not None, 'torn', f'reader on host {h}: mixed contents')
        ok = set().union(*state['trail'][since:])
        ctx.check(v in ok, 'stale', f'reader on host {h} got {v} not in {ok}')
        ctx.note('concurrent reads')
    return fn

  done = []
  w = ctx.world(fs, num_hosts=c['hosts'], pool_procs=c['pool'])
  ctx.run_world(w, [writer(c['writes'], done)] +
                [reader(h) for h in range(1, c['hosts'])])
  st = w.hosts[0].status
  check_durable(f'writer {st}')
  if st == 'raised':
    raise w.hosts[0].exc
  if st == 'crashed':
    ctx.note('writer crashed')
  if c['restart']:
    # A new incarnation writes again over whatever the crash left behind.
    state['acked'] = check_durable('before restart')
    allow({state['acked']})
    again = [{'overwrite': True, 'makedirs': True, 'async': False,
              'version': 11}]
    n = len(done)
    w2 = ctx.world(fs, num_hosts=c['hosts'], pool_procs=c['pool'])
    ctx.run_world(w2, [writer(again, done)] +
                  [reader(h) for h in range(1, c['hosts'])])
    check_durable(f'restarted writer {w2.hosts[0].status}')
    if w2.hosts[0].status == 'raised':
      raise w2.hosts[0].exc
    if w2.hosts[0].status == 'ok' and not any(
        f['kind'] == 'io' for f in ctx.plan):
      ctx.check(len(done) == n + 1, 'restart-failed', 'no save after restart')


def shrink(scenario, c):
  del scenario
  for k in range(len(c['writes'])):
    if len(c['writes']) > 1:
      yield dict(c, writes=c['writes'][:k] + c['writes'][k + 1:])
  if c['hosts'] > 1:
    yield dict(c, hosts=c['hosts'] - 1)
  if c['reads'] > 1:
    yield dict(c, reads=c['reads'] - 1)
  for key, simple in [('template', False), ('dir', ''), ('restart', False),
                      ('own_pool', False), ('store', 'object')]:
    if c[key] != simple:
      yield {**c, key: simple}
