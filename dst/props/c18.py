"""C18: fine-tuning starts from exactly the pretrained weights, once."""
import io
import json

import numpy as np

from dst import ckpt
from dst import data as data_lib
from dst import framework as fw
from dst import jaxsim
from dst import mh
from dst import orbax_sim
from dst import simfs
from dst import train
from dst.props import c13
from dst.props import c14

init = partitioned = base = None
LINES = 0.0
FAULTY_RUNS = {'quick': 2, 'thorough': 4}
PREFIX = simfs.ROOT + '/pretrained/ckpt_9'
NPZ = simfs.ROOT + '/pretrained/vit.npz'
ORBAX = simfs.ROOT + '/pretrained/orbax'
KINDS = ['copy', 'copy', 'drop', 'reshape', 'reshape_to', 'squeeze', 'stack',
         'stack', 'expand_tile', 'expand_tiles', 'same', 'zoom', 'vit_zoom']
DT = ['float32', 'float32', 'bfloat16', 'int32', 'float16']
INITIAL = 7      # of all target arrays
ERRORS = ['dtype', 'shape', 'no_target', 'target_unmatched', 'twice',
          'source_unmatched']


def setup():
  global init, partitioned, base
  train.setup()
  from vmoe import initialization as i
  from vmoe.checkpoints import partitioned as p, base as b
  init, partitioned, base = i, p, b


def gen(rng, tier):
  del tier
  if rng.random() < 0.2:
    return 'finetune', gen_finetune(rng)
  hosts, per = rng.choice([(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (3, 1),
                           (4, 1)])
  devs = hosts * per
  experts = rng.choice([e for e in (1, 2, 3, 4) if devs % e == 0])
  old = rng.random() < 0.1
  groups = []
  for _ in range(rng.randint(1, 4)):
    kind = 'same' if old else rng.choice(KINDS)
    n = rng.choice([1, 2, 3]) if kind != 'stack' else rng.choice([1, 2, 3, 11])
    g = {'kind': kind, 'ids': sorted(rng.sample(range(13), n)),
         'shape': [rng.choice([1, 2, 4, 12]) for _ in range(rng.choice(
             [1, 2, 2]))],
         'dtype': rng.choice(DT),
         'convert': rng.choice(DT) if rng.random() < 0.2 else None,
         'axis': rng.choice([0, 1, -1]), 'reps': rng.choice([1, 2, 4]),
         'order': rng.getrandbits(20),
         'array': rng.random() < 0.5,         # the target is an array
         'part_src': rng.random() < 0.4, 'part_dst': rng.random() < 0.5}
    if kind == 'squeeze':
      g['shape'] = g['shape'] + [1]
      g['axis'] = -1
      if rng.random() < 0.5:
        g['shape'] = [1] + g['shape'][:-1]
        g['axis'] = 0
    elif kind == 'zoom':
      g['dtype'] = 'float32'
      g['to'] = [rng.choice([1, 2, 3, 4, 5]) for _ in g['shape']]
    elif kind == 'vit_zoom':
      g['dtype'] = 'float32'
      g['token'] = [rng.random() < 0.5, rng.random() < 0.5]
      g['grid'] = [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])]
      g['shape'] = [1, g['grid'][0] ** 2 + g['token'][0], rng.choice([2, 4])]
      # Without a token in the source, that of the target stays.
      g['array'] |= g['token'] == [False, True]
    groups.append(g)
  src = ckpt.gen_topology(rng)
  c = {
      'hosts': hosts, 'per': per, 'experts': experts, 'groups': groups,
      'src': src, 'src_spec': rng.getrandbits(20),
      'num_shards': rng.choice([None, 1, 3, 7]),
      'max_chunk_bytes': rng.choice([None, 8, 40]),
      'extra_target': 0 if old else rng.choice([0, 0, 1, 2]),
      'extra_source': 0 if old else rng.choice([0, 0, 1]),
      'catch_all': rng.random() < 0.3,
      'strict': rng.random() < 0.4,
      'error': rng.choice(ERRORS) if rng.random() < 0.35 and not old else None,
      'variant': rng.randrange(4),
      'prefix': not old and rng.random() < 0.3,
      # A checkpoint of a plain ViT: one npz file.
      'vit': not old and rng.random() < 0.2,
      'old': old, 'pool': rng.choice([None, 1, 3]),
      'store': rng.choice(['posix', 'object']),
  }
  # A checkpoint of another library: a directory with one directory per array.
  c['orbax'] = not old and not c['vit'] and rng.random() < 0.25
  if not old and rng.random() < 0.06:
    # The number of dimensions matches, and values could be broadcast.
    c['error'], c['variant'] = 'shape', 1
    groups[0].update(kind='copy', shape=[1, 4][::rng.choice([1, -1])])
    c['strict'] = rng.random() < 0.7
  elif not old and rng.random() < 0.12:
    c['error'] = rng.choice(ERRORS)
  return 'map', c


def gen_finetune(rng):
  c = c14.draw_common(rng)
  c['contrastive'] = False
  c['identical'] = True
  c['examples'] = 11
  c['shards'] = data_lib.draw_shards(rng, 0, 11)
  c.pop('epochs', None)
  c['steps'] = rng.randint(1, 5)
  c['optimizer'] = rng.choice([
      {'name': 'sgd', 'learning_rate': 0.3, 'momentum': 0.9},
      {'name': 'adam', 'learning_rate': 0.1}])
  c['noise'] = rng.random() < 0.5
  c['axes'] = [('head$', ('expert',))] if rng.random() < 0.5 else []
  c['src'] = ckpt.gen_topology(rng)
  c['src_spec'] = rng.getrandbits(20)
  c['num_shards'] = rng.choice([None, 3])
  c['which'] = rng.choice(['head', 'w', 'both', 'both'])
  c['vit'] = rng.random() < 0.2
  c['orbax'] = not c['vit'] and rng.random() < 0.25
  return c


def faults(scenario, config):
  del scenario, config
  return ['crash', 'io']


def plan(rng, scenario, config, probe):
  if scenario == 'finetune':
    p = c14.plan(rng, scenario, config, probe)
    return [f for f in p if f['kind'] != 'read_error']
  return fw.draw_plan(rng, probe, ['io', 'io', 'crash'], 1)


# -- mapping -----------------------------------------------------------------------


def build(c):
  """Source leaves, rules, and for each target key what it must become."""
  import random
  leaves, rules, targets = [], [], {}
  values = {}

  def add(path, shape, dtype):
    l = {'path': path, 'shape': list(shape), 'dtype': dtype, 'spec': []}
    leaves.append(l)
    rs = np.random.RandomState(len(leaves))
    v = rs.randint(1, 120, shape).astype(ckpt.np_dtype(dtype))
    values[path] = v
    return v

  for gi, g in enumerate(c['groups']):
    kind, shape = g['kind'], g['shape']
    order = list(g['ids'])
    random.Random(g['order']).shuffle(order)
    # Rules may match anywhere in the name; the rest of it stays.
    root, start = ('opt/target/', '') if c.get('prefix') else ('', '^')
    arrs = {i: add(f'{root}s{gi}/layer_{i}/kernel', shape, g['dtype'])
            for i in order}
    dt = g['convert'] or g['dtype']
    pat = rf'{start}s{gi}/layer_(\d+)/kernel$'
    dst = lambda i, gi=gi, root=root: f'{root}t{gi}/block_{i}/kernel'
    rep = rf't{gi}/block_\1/kernel'
    nd = len(shape)

    def put(key, v, dt=dt, g=g):
      targets[key] = {'value': v.astype(ckpt.np_dtype(dt)), 'group': g}

    if kind == 'copy':
      rules.append((pat, rep))
      for i, v in arrs.items():
        put(dst(i), v)
    elif kind == 'same':
      rules.append((rf'{start}(s{gi}/.*)$', r'\1'))
      for i, v in arrs.items():
        put(f'{root}s{gi}/layer_{i}/kernel', v)
    elif kind == 'drop':
      rules.append((pat, '' if g['reps'] == 1 else None))
    elif kind == 'reshape':
      rules.append((pat, rep, 'reshape'))
      for i, v in arrs.items():
        put(dst(i), v.reshape(v.shape[::-1]))
    elif kind == 'reshape_to':
      rules.append((pat, rep, 'reshape', (int(np.prod(shape)),)))
      for i, v in arrs.items():
        put(dst(i), v.reshape(-1))
    elif kind == 'squeeze':
      rules.append((pat, rep, 'squeeze', g['axis']))
      for i, v in arrs.items():
        put(dst(i), np.squeeze(v, g['axis']))
    elif kind == 'stack':
      rules.append((pat, f't{gi}/kernel', 'stack', g['axis']))
      put(f'{root}t{gi}/kernel', np.stack([arrs[i] for i in sorted(arrs)],
                                    g['axis']))
    elif kind == 'expand_tile':
      rules.append((pat, rep, 'expand_tile', g['axis'], g['reps']))
      for i, v in arrs.items():
        e = np.expand_dims(v, g['axis'])
        put(dst(i), np.repeat(e, g['reps'], g['axis']))
    elif kind == 'expand_tiles':
      ax = (0, nd + 1)
      rules.append((pat, rep, 'expand_tile', ax, (g['reps'], 2)))
      for i, v in arrs.items():
        e = np.expand_dims(v, ax)
        put(dst(i), np.repeat(np.repeat(e, g['reps'], 0), 2, nd + 1))
    elif kind == 'zoom':
      import scipy.ndimage
      rules.append((pat, rep, 'zoom'))
      for i, v in arrs.items():
        put(dst(i), scipy.ndimage.zoom(
            v, tuple(n / o for n, o in zip(g['to'], shape)), order=1))
    elif kind == 'vit_zoom':
      import scipy.ndimage
      rules.append((pat, rep, 'vit_zoom'))
      n, m = g['grid']
      (st, dt_), hid = g['token'], shape[2]
      for i, v in arrs.items():
        grid = v[:, st:].reshape(1, n, n, hid)
        grid = scipy.ndimage.zoom(grid, (1, m / n, m / n, 1), order=1)
        grid = grid.reshape(1, m * m, hid)
        if dt_:
          tok = v[:, :1] if st else np.full((1, 1, hid), INITIAL, v.dtype)
          grid = np.concatenate([tok, grid], 1)
        put(dst(i), grid)
  kw = {}
  loose_source = False
  for k in range(c['extra_source']):
    # No rule matches: the identity, if that is allowed.
    v = add(f'unmatched{k}/bias', (4,), 'float32')
    targets[f'unmatched{k}/bias'] = {'value': v, 'group': None}
    loose_source = True
  if loose_source and c['catch_all']:
    rules.append((r'^(unmatched.*)$', r'\1'))
    loose_source = False
  if c['catch_all']:
    # Rules behind the first match do not count.
    rules.append((
        [r'^s\d+/.*$', r'kernel', r'(opt/target/)?s(\d+)/(layer_(\d+)|block_(\d+))/'
         r'(kernel|bias|scale|embedding)$', r'^.*$' if c['error'] != 'source_unmatched' else r'kernel$'][
             c.get('variant', 0)], None))
  for k in range(c['extra_target']):
    names = [f'fresh{k}/bias'] + [l['path'] for l in leaves
                                  if l['path'] not in targets]
    targets[names[c.get('variant', 0) and -1]] = {'value': None, 'group': None}
  if loose_source:
    kw['raise_if_source_unmatched'] = False
  elif not c['strict']:
    kw['raise_if_source_unmatched'] = False
  if c['extra_target'] or not c['strict']:
    kw['raise_if_target_unmatched'] = False
  if c['strict'] and all(g['convert'] in (None, g['dtype'])
                         for g in c['groups']):
    kw['raise_if_dtype_mismatched'] = True
  expect_error = None
  err = c['error']
  some = sorted(k for k, t in targets.items()
                if t['value'] is not None and t['group'] is not None)
  if err == 'dtype' and some:
    t = targets[some[0]]
    other = [d for d in ('int32', 'float32', 'float16') if d not in (
        str(t['value'].dtype), t['group']['dtype'])][0]
    t['value'] = t['value'].astype(other)
    kw['raise_if_dtype_mismatched'] = True
    expect_error = 'dtype'
  elif err == 'shape' and some:
    t = targets[some[0]]
    if t['group']['kind'] not in ('reshape', 'zoom', 'vit_zoom'):
      ones = [i for i, d in enumerate(t['value'].shape) if d == 1]
      v = c.get('variant', 0)
      if v and ones:              # the same number of dimensions
        t['value'] = np.repeat(t['value'], 3, ones[0])
      elif v > 1 and t['value'].size > 1:                 # cannot be broadcast
        t['value'] = np.zeros((5,) + t['value'].shape[1:] if v == 2
                              else t['value'].shape[::-1] + (3, 5),
                              t['value'].dtype)
        expect_error = 'shape'
      else:
        t['value'] = np.stack([t['value']] * 2)
      if c['strict'] or expect_error:
        if not c['strict']:
          kw['raise_if_shape_mismatched'] = False
        expect_error = 'shape'
      else:
        kw['raise_if_shape_mismatched'] = False       # broadcast
  elif err == 'no_target' and some:
    del targets[some[0]]
    expect_error = 'no_target'
  elif err == 'target_unmatched':
    # Possibly under the name that an array of the source has.
    names = ['lonely/bias'] + [l['path'] for l in leaves
                               if l['path'] not in targets]
    targets[names[c.get('variant', 0) and -1]] = {'value': None, 'group': None}
    kw['raise_if_target_unmatched'] = True
    expect_error = 'target_unmatched'
  elif err == 'twice' and some and targets[some[0]]['group'][
      'kind'] != 'stack':
    add('again/kernel', (4,), 'float32')
    rules.insert(0, (r'^again/kernel$', some[0]))
    expect_error = 'twice'
  elif err == 'source_unmatched':
    v = add('nobody/bias', (4,), 'float32')
    targets['nobody/bias'] = {'value': v, 'group': None}
    kw['raise_if_source_unmatched'] = True
    expect_error = 'source_unmatched'
  return leaves, values, rules, targets, kw, expect_error


def spec_for(rng, shape, axes):
  """A partition spec whose axes divide the dimensions."""
  out, free = [], dict(axes)
  for d in shape:
    got = [a for a in sorted(free) if d % free[a] == 0 and rng.random() < 0.5]
    got = got[:1]
    for a in got:
      free.pop(a)
    out.append(got[0] if got else None)
  return out


def save_source(ctx, c, fs, leaves, values):
  """The pretraining job: another number of processes and devices."""
  if c.get('vit'):
    buf = io.BytesIO()
    np.savez(buf, **values)
    fs.put(NPZ, buf.getvalue())
    return
  if c.get('orbax'):
    orbax_sim.put_directory(fs, ORBAX, dict(values, **{
        'meta/step': 5, 'meta/nothing': None}))
    return
  rng = ctx.rng('src')
  topo = c['src']
  mesh = ckpt.build_mesh(topo)
  for l in leaves:
    l['spec'] = ckpt.gen_spec(rng, l['shape'], topo['mesh'])
  w = ctx.world(fs, faults=False, num_hosts=topo['hosts'],
                devices_per_host=topo['dev'])

  def save(h):
    def fn():
      tree = ckpt.nest(leaves, [
          jaxsim.SimArray.from_global(values[l['path']],
                                      ckpt.sharding_of(mesh, l, topo), h)
          for l in leaves])
      partitioned.save_checkpoint(
          PREFIX, tree, num_shards=c['num_shards'],
          max_chunk_bytes=c.get('max_chunk_bytes')).get()
      if c.get('old') and h == 0:
        idx = base.restore_checkpoint(PREFIX + '.index')
        idx.pop('version', None)
        base.save_checkpoint(PREFIX + '.index', idx)
    return fn

  ctx.run_world(w, [save(h) for h in range(topo['hosts'])])
  for h in w.hosts:
    if h.status != 'ok':
      raise h.exc or fw.HarnessError(h.status)


def run(ctx):
  if ctx.case['scenario'] == 'finetune':
    return run_finetune(ctx)
  import jax
  c = ctx.config
  leaves, values, rules, targets, kw, expect_error = build(c)
  fs = simfs.SimFS(c['store'])
  save_source(ctx, c, fs, leaves, values)
  before = dict(fs.files)
  w = ctx.world(fs, num_hosts=c['hosts'], devices_per_host=c['per'],
                pool_procs=c['pool'] or 3)
  devs = mh.attach(w, c['hosts'], c['per'])
  axes = {'expert': c['experts'],
          'replica': c['hosts'] * c['per'] // c['experts']}
  mesh = mh.mesh_of(devs, tuple(axes.values()))
  rng = ctx.rng('dst')
  shardings, regexes = {}, []
  for key, t in sorted(targets.items()):
    g = t['group']
    shape = (4,) if t['value'] is None else t['value'].shape
    spec = spec_for(rng, shape, axes) if g is None or g['part_dst'] else ()
    shardings[key] = jax.sharding.NamedSharding(
        mesh, jax.sharding.PartitionSpec(*spec))
  for gi, g in enumerate(c['groups']):
    if g['part_src']:
      regexes.append((rf'\bs{gi}/', tuple(spec_for(rng, g['shape'], axes))))
  initial = {k: np.full((4,) if t['value'] is None else t['value'].shape,
                        INITIAL,
                        np.float32 if t['value'] is None else t['value'].dtype)
             for k, t in targets.items()}

  def is_array(t):
    return t['group'] is None or t['group']['array']

  def make_target():
    flat = {}
    for k, t in targets.items():
      if is_array(t):
        v = jax.device_put(initial[k], shardings[k])
      else:
        v = jax.ShapeDtypeStruct(initial[k].shape, initial[k].dtype,
                                 sharding=shardings[k])
      d = flat
      *parts, last = k.split('/')
      for p in parts:
        d = d.setdefault(p, {})
      d[last] = v
    return flat

  results = {}

  def proc(h):
    def fn():
      pool = {} if c['pool'] is None else {
          'thread_pool': base.ThreadPool(c['pool'])}
      with mesh:
        if c.get('vit'):
          results[h] = init.initialize_from_vit(
              target=make_target(), filepath=NPZ, rules=rules, mesh=mesh,
              axis_resources_regexes=regexes or None, **kw)
        elif c.get('orbax'):
          results[h] = init.initialize_from_orbax(
              target=make_target(), directory=ORBAX,
              rules=[('^meta/', None)] + rules, mesh=mesh,
              axis_resources_regexes=regexes or None, **kw)
        else:
          results[h] = init.initialize_from_vmoe(
              target=make_target(), prefix=PREFIX, rules=rules, mesh=mesh,
              axis_resources_regexes=regexes or None, **pool, **kw)
    return fn

  ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
  ctx.check({k: v for k, v in fs.files.items()} == before, 'source-changed',
            'initialization changed the pretrained checkpoint')
  io_faults = {e[1] for e in w.events if e[0] == 'io_fault'}
  for h in w.hosts:
    if h.status in ('crashed', 'aborted'):
      continue
    if h.index in io_faults:
      ctx.check(h.status == 'raised', 'io-error-swallowed', f'host {h.index}')
      continue
    if expect_error:
      ctx.check(h.status == 'raised', 'error-swallowed',
                f'{expect_error}: host {h.index} {h.status}')
      ctx.check(isinstance(h.exc, (ValueError, KeyError)), 'wrong-error',
                lambda: f'{expect_error}: {fw.brief(h.exc)}')
      ctx.note(f'refused: {expect_error}')
      continue
    if h.status == 'raised':
      raise h.exc
    out = results[h.index]
    flat = {}

    def walk(d, path, flat=flat):
      for k, v in d.items():
        if isinstance(v, dict):
          walk(v, path + (k,), flat)
        else:
          flat['/'.join(path + (k,))] = v
    walk(out, ())
    ctx.check(set(flat) == set(targets), 'structure',
              sorted(set(flat) ^ set(targets)))
    for k, t in targets.items():
      got = flat[k]
      if t['value'] is None:
        want = initial[k]
      else:
        want = t['value']
      ctx.check(isinstance(got, jax.Array), 'not-initialized', k)
      ctx.check(got.shape == want.shape and got.dtype == want.dtype, 'type',
                f'{k}: {got.shape} {got.dtype}')
      ctx.check(np.array_equal(np.asarray(got), want), 'wrong-values',
                lambda: f'host {h.index} {k}: {np.asarray(got).ravel()[:6]} != '
                f'{want.ravel()[:6]}')
      ctx.check(got.sharding.is_equivalent_to(shardings[k], got.ndim),
                'wrong-sharding', f'{k}: {got.sharding}')
      ctx.note('arrays checked')


# -- fine-tuning --------------------------------------------------------------------


def pretrained(c):
  rs = np.random.RandomState(5)
  return {'opt/target/head': rs.normal(size=(12, train.CLASSES)).astype('f'),
          'opt/target/w': rs.normal(size=(12,)).astype('f'),
          'opt/state/step': np.asarray(123, np.int32)}


def with_init(c):
  names = {'head': 'head', 'w': 'w', 'both': 'head|w'}[c['which']]
  kind, src = (('vit', {'filepath': NPZ}) if c.get('vit') else
               ('orbax', {'directory': ORBAX}) if c.get('orbax') else
               ('vmoe', {'prefix': PREFIX}))
  return dict(c, initialization={
      'name': f'initialize_from_{kind}', **src,
      'rules': [(rf'^opt/target/({names})$', r'params/\1'), ('^opt/', None), ('^meta/', None)],
      'raise_if_target_unmatched': False})


_golden = {}


def golden(ctx, c, src):
  cc = {k: v for k, v in c.items()}
  cc['save'] = {'every_steps': 1}
  key = json.dumps(cc, sort_keys=True)
  if key not in _golden:
    if len(_golden) > 4:
      _golden.clear()
    case = {'property': 'C18', 'config': cc, 'io_seed': 0, 'plan': [],
            'sched': {'seed': 0, 'params': {'switch': 0.0}}}
    ctx = fw.Ctx(case, fw.Result())
    data_lib.reset(0)
    r = train.Run(ctx, with_init(cc), src.clone(), faults=False)
    for h in r.w.hosts:
      if h.status == 'raised':
        raise h.exc
    _golden[key] = {k: v[0]['state'][0] for k, v in r.final_states.items()}
  return _golden[key]


def run_finetune(ctx):
  c = ctx.config
  data_lib.reset(ctx.case['io_seed'])
  values = pretrained(c)
  leaves = [{'path': k, 'shape': list(v.shape), 'dtype': str(v.dtype),
             'spec': []} for k, v in values.items()]
  scratch = fw.Ctx(dict(ctx.case, plan=[]), fw.Result())
  fs = simfs.SimFS()
  save_source(scratch, c, fs, leaves, values)
  g = golden(ctx, c, fs)
  cc = with_init(c)
  names = {'head': ['head'], 'w': ['w'], 'both': ['head', 'w']}[c['which']]
  ctx.check(0 in g, 'no-checkpoint', sorted(g))
  check_start(ctx, g[0], values, names, 'undisturbed')
  data_lib.reset(ctx.case['io_seed'])
  total = c['steps']
  for attempt in range(4):
    r = train.Run(ctx, cc, fs, faults=attempt < 3)
    excused = any(k.startswith(('io_', 'crash')) for k in r.w.fired)
    for h in r.w.hosts:
      if h.status == 'raised' and not excused:
        raise h.exc
    for k, hosts in sorted(r.final_states.items()):
      vals = hosts[0]['state'][0]
      if k == 0:
        check_start(ctx, vals, values, names, f'attempt {attempt}')
      ctx.check(k in g and set(vals) == set(g[k]), 'structure', k)
      for name, v in vals.items():
        ctx.check(c13.same(v, g[k][name], True), 'trajectory',
                  lambda: f'step {k} (attempt {attempt}, resumed from '
                  f'{r.before[-1:]}): {name} = {v.reshape(-1)[:4]}, '
                  f'undisturbed {g[k][name].reshape(-1)[:4]}')
      ctx.note('checkpoints compared')
    if r.ok:
      ctx.check(total in r.store.steps, 'no-final-checkpoint',
                sorted(r.store.steps))
      ctx.note('fine-tuning completed')
      if attempt:
        ctx.note('fine-tuning completed after a restart')
      return
  ctx.fail('never-completes', '')


def check_start(ctx, state, values, names, what):
  for n in names:
    ctx.check(np.array_equal(state[f'params/{n}'], values[f'opt/target/{n}']),
              'not-pretrained', f'{what}: params/{n}')
  ctx.check(int(state['step']) == 0, 'step', f'{what}: {state["step"]}')
  for k, v in state.items():
    if k.startswith('opt_state/') and set(k.split('/')) & {
        'trace', 'mu', 'nu', 'count'}:
      ctx.check(not np.asarray(v).any(), 'optimizer-state', f'{what}: {k}')


def shrink(scenario, c):
  if scenario == 'finetune':
    yield from c14.shrink(scenario, c)
    return
  for k in range(len(c['groups'])):
    if len(c['groups']) > 1:
      yield dict(c, groups=c['groups'][:k] + c['groups'][k + 1:])
  one = {'hosts': 1, 'dev': 1, 'mesh': [1], 'perm': 0, 'explicit': False}
  if c['src'] != one:
    yield dict(c, src=one)
  for key, simple in [('num_shards', None), ('max_chunk_bytes', None),
                      ('pool', None), ('extra_target', 0), ('extra_source', 0),
                      ('catch_all', False), ('error', None)]:
    if c[key] != simple:
      yield {**c, key: simple}
  if c['hosts'] * c['per'] > 1:
    yield dict(c, hosts=1, per=1, experts=1)
