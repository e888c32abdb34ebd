"""C21: every process derives the same mesh and places the state by it."""
import collections
import math
import random

import flax
import jax
import numpy as np
import optax

from dst import ckpt
from dst import framework as fw
from dst import jaxsim
from dst import simfs
from dst import world as world_lib

base = partitioned = partitioning = train_state = None
FAULTY_RUNS = {'quick': 2, 'thorough': 4}
PREFIX = simfs.ROOT + '/run/ckpt'
_installed = False


class Device(jaxsim.SimDevice):
  """A device with coordinates, as the backends report them."""

  def __init__(self, did, process, platform, coords=None, core=None):
    super().__init__(did, process)
    self.platform = platform
    self.device_kind = {'tpu': 'TPU v4', 'gpu': 'A100', 'cpu': 'cpu'}[platform]
    self.client = None
    if coords is not None:
      self.coords, self.core_on_chip = list(coords), core

  def __repr__(self):
    return f'Device(id={self.id}, process={self.process_index})'


def setup():
  global base, partitioned, partitioning, train_state, _installed
  from vmoe import partitioning as m
  from vmoe.checkpoints import base as b, partitioned as p
  from vmoe.train import train_state as ts
  base, partitioned, partitioning, train_state = b, p, m, ts
  if _installed:
    return
  _installed = True
  real_devices, real_local = jax.devices, jax.local_devices

  def devices(*a, **kw):
    h = world_lib.current_host()
    devs = h and getattr(world_lib.active(), 'topology', None)
    return list(devs) if devs else real_devices(*a, **kw)

  def local_devices(*a, **kw):
    h = world_lib.current_host()
    devs = h and getattr(world_lib.active(), 'topology', None)
    if not devs:
      return real_local(*a, **kw)
    return [d for d in devs if d.process_index == h.index]

  jax.devices, jax.local_devices = devices, local_devices


# -- topologies ------------------------------------------------------------------


def divisors(n):
  return [d for d in range(1, n + 1) if n % d == 0]


def gen_machine(rng):
  """Processes, their devices and the number of partitions that are asked for."""
  if rng.random() < 0.4:
    hosts, per = rng.choice([(1, 1), (1, 2), (1, 4), (1, 8), (2, 1), (2, 2),
                             (2, 4), (3, 2), (4, 2), (4, 1), (3, 1), (2, 3),
                             (5, 2), (2, 6)])
    m = {'platform': rng.choice(['cpu', 'gpu']), 'hosts': hosts, 'per': per,
         # jax numbers the CPU devices of a process from process * 2**17.
         'stride': rng.choice([per, per, 1 << 17]) if per & (per - 1) == 0
                   else per}
    total = hosts * per
  else:
    while True:
      grid = rng.choice([
          (2, 2, 2, 1), (2, 4, 2, 1), (2, 4, 4, 1), (1, 2, 2, 1), (1, 4, 4, 1),
          (1, 2, 2, 2), (1, 2, 2, 4), (1, 4, 2, 2), (1, 4, 4, 2), (1, 8, 2, 2),
          (2, 2, 2, 2), (1, 2, 4, 4), (1, 1, 2, 4), (1, 4, 2, 4), (1, 1, 1, 4),
          (2, 1, 1, 1), (1, 3, 2, 1), (1, 2, 3, 2), (1, 2, 8, 2), (2, 8, 2, 1)])
      box = tuple(rng.choice([1, n, rng.choice(divisors(n))]) if i else
                  rng.choice([n, n, 1]) for i, n in enumerate(grid))
      hosts = math.prod(g // b for g, b in zip(grid, box))
      if hosts <= 8:
        break
    m = {'platform': 'tpu', 'grid': grid, 'box': box, 'hosts': hosts,
         'per': math.prod(box), 'ids': rng.choice(['grid', 'process', 'any'])}
    total = math.prod(grid)
  m['numbering'] = rng.getrandbits(16) if rng.random() < 0.5 else 0
  m['listing'] = rng.getrandbits(16) if rng.random() < 0.4 else 0
  m['partitions'] = rng.choice(
      divisors(total) + divisors(total) + [total, 3, 2 * total])
  m['explicit'] = rng.random() < 0.7    # pass the devices, or leave it to jax
  return m


def build(m):
  """The devices in the order in which jax lists them."""
  order = list(range(m['hosts']))
  if m['numbering']:
    random.Random(m['numbering']).shuffle(order)
  out = []
  if m['platform'] != 'tpu':
    for h in range(m['hosts']):
      for i in range(m['per']):
        out.append(Device(h * m['stride'] + i, h, m['platform']))
  else:
    grid, box = m['grid'], m['box']
    n = [g // b for g, b in zip(grid, box)]
    cells = []
    for z in range(grid[3]):
      for y in range(grid[2]):
        for x in range(grid[1]):
          for c in range(grid[0]):
            p = 0
            for a, b, k in reversed(list(zip((c, x, y, z), box, n))):
              p = p * k + a // b
            cells.append((order[p], (x, y, z), c))
    if m['ids'] == 'process':
      cells.sort(key=lambda t: t[0])
    ids = list(range(len(cells)))
    if m['ids'] == 'any':
      random.Random(1 + m['numbering']).shuffle(ids)
    out = [Device(i, p, 'tpu', xyz, c) for i, (p, xyz, c) in zip(ids, cells)]
    out.sort(key=lambda d: (d.process_index, d.id))
  if m['listing']:
    random.Random(m['listing']).shuffle(out)
  return out


def factors(m):
  """(partitions, replicas, devices per process) of each axis, or None."""
  k = min(m['partitions'], m['hosts'] * m['per'])
  if m['platform'] != 'tpu':
    sizes, local, order = (m['per'], m['hosts']), (m['per'], 1), (0, 1)
  else:
    # As many partitions as possible along the first axes of this order.
    sizes, local = m['grid'], m['box']
    order = (1, 2, 0, 3) if sizes[3] == 1 else (3, 2, 1, 0)
  out = {}
  for a in order:
    p = max(1, min(k, sizes[a]))
    out[a] = p
    if sizes[a] % p:
      return None
    k //= p
  if math.prod(out.values()) != min(m['partitions'], m['hosts'] * m['per']):
    return None
  return [(out[a], sizes[a] // out[a], local[a]) for a in out]


# -- states and rules --------------------------------------------------------------


def gen_state(rng):
  leaves = []
  for k in range(rng.randint(1, 5)):
    kind = rng.choice(['moe', 'moe', 'dense', 'scalar', 'one'])
    e = rng.choice([16, 48, 32])
    shape = {'moe': [e, rng.choice([1, 2, 3])], 'dense': [rng.choice([2, 5])],
             'scalar': [], 'one': [1, 1]}[kind]
    block = rng.randrange(3)
    name = {'moe': rng.choice(['Moe/Mlp/kernel', 'Moe/Mlp/bias',
                               'Moe/Router/kernel'])}.get(kind, 'Mlp/kernel')
    path = f'block_{block}/{name}'
    if any(path == l['path'] for l in leaves):
      continue
    leaves.append({'path': path, 'shape': shape,
                   'dtype': rng.choice(['float32', 'float32', 'bfloat16']),
                   'spec': []})
  rules = []
  for _ in range(rng.randint(0, 4)):
    rules.append([
        rng.choice(['Moe/Mlp/.*', 'Moe/.*', 'Mlp/kernel$', '.*/Moe/Mlp/bias',
                    'block_1/.*', 'opt_state/.*Moe', 'kernel', '^block_0',
                    '.*', 'nothing', '(mu|nu)/.*', 'params/.*/Mlp']),
        rng.choice([['expert'], ['expert'], 'expert', [['expert']],
                    [['expert', 'replica']], ['replica'], [], None])])
  return leaves, rules


def gen(rng, tier):
  del tier
  leaves, rules = gen_state(rng)
  machines = [gen_machine(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
  c = {
      'hosts': machines[0]['hosts'], 'machines': machines, 'leaves': leaves,
      'rules': rules,
      'tree': rng.choice(['params', 'frozen', 'train_state', 'train_state']),
      'optimizer': rng.choice(['adam', 'momentum', 'sgd', 'chain']),
      'num_shards': rng.choice([None, None, 3, 9]),
      'store': rng.choice(['posix', 'object']),
      'saves': rng.choice([1, 1, 2]),
  }
  return 'placement', c


def faults(scenario, config):
  del scenario, config
  return ['crash', 'io']


def plan(rng, scenario, config, probe):
  del scenario
  worlds = [2 * k for k in range(max(1, len(config['machines']) - 1))]
  worlds = [t for t in worlds if t in probe.lengths]
  if not worlds:
    return []
  return fw.draw_plan(rng, probe, ['crash', 'io'], 1, worlds)


def make_tree(c, values):
  """The tree of the training state, with `values` (one per parameter)."""
  params = ckpt.nest(c['leaves'], values)
  if c['tree'] == 'params':
    return params
  if c['tree'] == 'frozen':
    return flax.core.freeze(params)
  return params


def optimizer(c):
  return {
      'adam': lambda: optax.adam(1e-3),
      'momentum': lambda: optax.sgd(1e-3, momentum=0.9),
      'sgd': lambda: optax.sgd(1e-3),
      'chain': lambda: optax.chain(
          optax.clip_by_global_norm(1.0), optax.scale_by_adam(),
          optax.add_decayed_weights(0.1), optax.scale(-1.0)),
  }[c['optimizer']]()


def abstract(c):
  """The tree with shapes and dtypes only (as jax.eval_shape gives it)."""
  tree = make_tree(c, [
      jax.ShapeDtypeStruct(tuple(l['shape']), ckpt.np_dtype(l['dtype']))
      for l in c['leaves']])
  if c['tree'] != 'train_state':
    return tree

  def create(params):
    return train_state.TrainState.create(
        apply_fn=None, params=params, tx=optimizer(c), rngs={})

  return jax.eval_shape(create, tree)


def names_of(tree):
  """Paths of the leaves in the order of jax.tree_util.tree_leaves."""
  out = []
  for path, leaf in jax.tree_util.tree_flatten_with_path(tree)[0]:
    parts = []
    for k in path:
      for attr in ('key', 'name', 'idx'):
        if hasattr(k, attr):
          parts.append(str(getattr(k, attr)))
          break
    out.append(('/'.join(parts), leaf))
  return out


def reference_specs(c, tree):
  """First matching rule; arrays of at most one element are replicated."""
  import re
  out = []
  for name, leaf in names_of(tree):
    spec = ()
    for regex, s in c['rules']:
      if re.search(regex, name) and math.prod(leaf.shape) > 1:
        spec = (s,) if isinstance(s, str) else tuple(s or ())
        break
    out.append(tuple(tuple(x) if isinstance(x, (list, tuple)) else x
                     for x in spec))
  return out


def as_tuples(rules):
  """Rules as the configuration files write them."""
  def fix(s):
    if isinstance(s, list):
      return tuple(fix(x) for x in s)
    return s
  return [(regex, fix(s)) for regex, s in rules]


def canonical(spec):
  out = []
  for s in tuple(spec):
    s = () if s is None else (s,) if isinstance(s, str) else tuple(s)
    out.append(s)
  while out and not out[-1]:
    out.pop()
  return tuple(out)


def leaf_value(i, leaf, version):
  return ckpt.value({'shape': list(leaf.shape),
                     'dtype': np.dtype(leaf.dtype).name}, i, version)


# -- the run -------------------------------------------------------------------------


def check_mesh(ctx, m, devs, got):
  """`got`: host -> ids of its mesh, as nested lists, or an error."""
  c = list(got.values())
  refused = [g for g in c if isinstance(g, Exception)]
  fac = factors(m)
  if refused:
    for g in refused:
      ctx.check(isinstance(g, ValueError), 'mesh-error', lambda: fw.brief(g))
    ctx.check(len(refused) == len(c), 'mesh-differs',
              'some processes refuse the mesh, others do not')
    ok = fac is not None and all(p % l == 0 or r % l == 0 for p, r, l in fac)
    ctx.check(not ok, 'mesh-refused', lambda: f'{m}: {fw.brief(refused[0])}')
    ctx.note('refused meshes')
    return False
  ctx.check(fac is not None, 'mesh-accepted',
            f'{m}: the partitions are not a product of divisors of the axes')
  ctx.check(all(g == c[0] for g in c), 'mesh-differs',
            lambda: f'the processes have different meshes: {got}')
  names, ids = c[0]
  total = len(devs)
  k = min(m['partitions'], total)
  ctx.check(tuple(names) == ('expert', 'replica'), 'mesh-axes', f'{names}')
  arr = np.array(ids)
  ctx.check(arr.shape == (k, total // k), 'mesh-shape',
            f'{arr.shape} for {k} partitions of {total} devices')
  ctx.check(sorted(arr.flat) == sorted(d.id for d in devs), 'mesh-devices',
            'the mesh does not hold each device exactly once')
  owner = {d.id: d.process_index for d in devs}
  proc = np.vectorize(owner.get)(arr)
  for p in range(m['hosts']):
    r, q = np.nonzero(proc == p)
    area = (r.max() - r.min() + 1) * (q.max() - q.min() + 1)
    ctx.check(area == m['per'], 'mesh-scattered',
              lambda: f'{m}: the devices of process {p} are not a contiguous '
              f'slice: {proc.tolist()}')
    if m['platform'] != 'tpu':
      ctx.check(len(set(r)) == min(k, m['per']), 'mesh-communication',
                f'process {p} has {len(set(r))} partitions of {k}')
  ctx.note('meshes')
  return True


class Log:
  """Receives the description of the mesh that the application logs."""

  def __init__(self):
    self.lines = []

  def info(self, fmt, *args):
    self.lines.append(fmt % args if args else fmt)


def run(ctx):
  c = ctx.config
  fs = simfs.SimFS(c['store'])
  tree = abstract(c)
  want_specs = reference_specs(c, tree)
  named = names_of(tree)
  treedef = jax.tree_util.tree_structure(tree)
  saved = set()         # steps whose save has returned on all processes
  step = 0

  for k, m in enumerate(c['machines']):
    devs = build(m)
    meshes, restored = {}, {}
    done = collections.defaultdict(set)
    steps = list(range(step + 1, step + 1 + c['saves']))

    def divides(mesh, steps=steps):
      """Dimensions have to be divisible by the axes (jax insists on it)."""
      shape = dict(zip(mesh.axis_names, mesh.devices.shape))
      for (_, leaf), spec in zip(named, want_specs):
        if len(spec) > len(leaf.shape):
          return False
        for n, s in zip(leaf.shape, canonical(spec)):
          if n % math.prod(shape[a] for a in s):
            return False
      return True

    def host(h, m=m, devs=devs, meshes=meshes, restored=restored, done=done,
             steps=steps):
      def fn():
        try:
          if m['explicit']:
            mesh = partitioning.get_auto_logical_mesh(
                m['partitions'], jax.devices())
          else:
            mesh = partitioning.get_auto_logical_mesh(m['partitions'])
        except Exception as e:  # pylint: disable=broad-except
          meshes[h] = e
          return
        meshes[h] = (mesh.axis_names,
                     [[d.id for d in row] for row in mesh.devices])
        log = Log()
        try:
          partitioning.log_logical_mesh(mesh, logger=log)
        except Exception as e:  # pylint: disable=broad-except
          ctx.fail('mesh-log', fw.brief(e))
        ctx.check(len(log.lines) >= 2 + mesh.devices.shape[0], 'mesh-log',
                  log.lines)
        specs = partitioning.tree_axis_resources_from_regexes(
            tree=tree, axis_resources_regexes=as_tuples(c['rules']))
        flat, struct = jax.tree_util.tree_flatten(
            specs, is_leaf=lambda x: isinstance(
                x, jax.sharding.PartitionSpec))
        ctx.check(struct == treedef, 'rules-structure', f'{struct}')
        for (name, _), a, b in zip(named, flat, want_specs):
          ctx.check(canonical(a) == canonical(b), 'rules',
                    f'{name}: {a} instead of {b} by the rules {c["rules"]}')
        if not divides(mesh):
          return
        smesh = jaxsim.SimMesh(list(mesh.devices.flat), mesh.devices.shape,
                               mesh.axis_names)
        shardings = [jaxsim.SimSharding(smesh, tuple(s)) for s in flat]
        latest = base.find_latest_complete_checkpoint_for_prefix(
            PREFIX, ['.index', '.data'])
        if latest is not None:
          s = int(latest.rsplit('_', 1)[1])
          template = treedef.unflatten([
              ckpt.Template(leaf.shape, leaf.dtype, sh)
              for (_, leaf), sh in zip(named, shardings)])
          out = partitioned.restore_checkpoint(latest, template)
          arrays, struct = jax.tree_util.tree_flatten(out)
          ctx.check(struct == treedef, 'restored-structure', f'{struct}')
          for i, ((name, leaf), arr, sh) in enumerate(
              zip(named, arrays, shardings)):
            want = leaf_value(i, leaf, s)
            for shard in arr.addressable_shards:
              ctx.check(ckpt.same(shard.data, want[tuple(shard.index)]),
                        'wrong-values', lambda: f'{name} of step {s} on '
                        f'process {h}, device {shard.device}')
            mine = {d: tuple(x.indices(n)[:2] for x, n in zip(idx, want.shape))
                    for d, idx in sh.devices_indices_map(want.shape).items()
                    if d.process_index == h}
            have = {x.device: tuple(y.indices(n)[:2] for y, n in
                                    zip(x.index, want.shape))
                    for x in arr.addressable_shards}
            ctx.check(mine == have, 'wrong-placement',
                      lambda: f'{name} on process {h}')
          restored[h] = s
          ctx.note('restored on another mesh' if k else 'restored')
        for s in steps:
          state = treedef.unflatten([
              jaxsim.SimArray.from_global(leaf_value(i, leaf, s), sh, h)
              for i, ((_, leaf), sh) in enumerate(zip(named, shardings))])
          partitioned.save_checkpoint(
              f'{PREFIX}_{s}', state, num_shards=c['num_shards']).get()
          done[s].add(h)
          if len(done[s]) == m['hosts']:
            saved.add(s)
      return fn

    before = max(saved, default=None)
    w = ctx.world(fs, num_hosts=m['hosts'], devices_per_host=m['per'])
    w.topology = devs
    ctx.run_world(w, [host(h) for h in range(m['hosts'])])
    for h in w.hosts:
      if h.status == 'raised':
        if isinstance(h.exc, fw.Violation):
          raise h.exc
        if 'injected' not in str(h.exc):
          ctx.fail('job-failed', f'process {h.index}: {fw.brief(h.exc)}')
    if meshes:
      if not w.fired or len(meshes) == m['hosts']:
        ctx.check(len(meshes) == m['hosts'], 'mesh-error', 'no mesh')
        check_mesh(ctx, m, devs, meshes)
    if before is not None:
      for h, s in restored.items():
        ctx.check(s >= before, 'lost-checkpoint',
                  f'process {h} restored step {s}, but {before} was complete')
    if not w.fired:
      ctx.check(len(set(restored.values())) <= 1, 'restore-differs',
                f'{restored}')
    # Who looks at the storage afterwards (one process, no devices).
    w2 = ctx.world(fs, faults=False)
    seen = []
    ctx.run_world(w2, [lambda: seen.extend(
        base.iterate_complete_steps_for_prefix(PREFIX, ['.index', '.data']))])
    if w2.hosts[0].status == 'raised':
      raise w2.hosts[0].exc
    ctx.check(saved <= set(seen), 'lost-checkpoint',
              f'complete steps {sorted(saved)}, reported {seen}')
    # The next incarnation repeats the steps that were interrupted.
    step = max(seen, default=0)


def shrink(scenario, c):
  del scenario
  for k in range(len(c['machines'])):
    if len(c['machines']) > 1:
      ms = c['machines'][:k] + c['machines'][k + 1:]
      yield dict(c, machines=ms, hosts=ms[0]['hosts'])
  for k in range(len(c['leaves'])):
    if len(c['leaves']) > 1:
      yield dict(c, leaves=c['leaves'][:k] + c['leaves'][k + 1:])
  for k in range(len(c['rules'])):
    yield dict(c, rules=c['rules'][:k] + c['rules'][k + 1:])
  for key, simple in [('tree', 'params'), ('optimizer', 'sgd'),
                      ('num_shards', None), ('saves', 1), ('store', 'object')]:
    if c[key] != simple:
      yield {**c, key: simple}
  for k, m in enumerate(c['machines']):
    for key, simple in [('numbering', 0), ('listing', 0), ('explicit', True)]:
      if m[key] != simple:
        yield dict(c, machines=c['machines'][:k] + [{**m, key: simple}] +
                   c['machines'][k + 1:])
