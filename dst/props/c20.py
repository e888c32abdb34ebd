"""C20: expert-parallel MoE layers compute the routed mixture, on any job."""
import math

import numpy as np

from dst import ckpt
from dst import framework as fw
from dst import jaxsim
from dst import mh
from dst import simfs
from dst import train

init = partitioned = pjit_utils = vit_moe = None
LINES = 0.0
FAULTY_RUNS = {'quick': 1, 'thorough': 3}
PREFIX = simfs.ROOT + '/model/ckpt_5'
DIM, HID = 4, 3
JOBS = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1), (4, 1), (2, 3),
        (1, 8), (2, 4), (4, 2)]


def setup():
  global init, partitioned, pjit_utils, vit_moe
  train.setup()
  from vmoe import initialization as i
  from vmoe.checkpoints import partitioned as p
  from vmoe.data import pjit_utils as u
  from vmoe.nn import vit_moe as v
  from vmoe.projects.soft_moe import router  # pylint: disable=unused-import
  init, partitioned, pjit_utils, vit_moe = i, p, u, v


def draw_job(rng):
  hosts, per = rng.choice(JOBS)
  n = hosts * per
  order = list(range(n))
  if rng.random() < 0.4:
    rng.shuffle(order)
  return {'hosts': hosts, 'per': per, 'order': order,
          'parts': rng.choice([e for e in (1, 2, 3, 4, 8) if n % e == 0])}


def gen(rng, tier):
  del tier
  job = draw_job(rng)
  n = job['hosts'] * job['per']
  router = rng.choice(['items', 'items', 'items', 'items', 'experts', 'experts',
                       'soft', 'dense'])
  experts = rng.choice([1, 2, 3, 4, 6, 8])
  tokens = rng.choice([2, 4, 6])
  k = rng.randint(1, min(experts, 3))
  spec = rng.random() < 0.6
  # The batch is divisible by the devices of any job that may take over.
  jobs = [job]
  if rng.random() < 0.6:
    other = draw_job(rng)
    if other['hosts'] * other['per'] % n == 0 or (
        n % (other['hosts'] * other['per']) == 0):
      jobs.append(other)
  m = max(j['hosts'] * j['per'] for j in jobs)
  batch = m * rng.choice([1, 1, 2])
  total = batch * tokens
  groups = [g for g in range(1, total + 1) if total % g == 0 and (
      not spec or g % m == 0) and 2 <= total // g <= 24]
  g = rng.choice(groups)
  s = total // g
  c = {
      'jobs': jobs, 'hosts': max(j['hosts'] for j in jobs), 'router': router,
      'experts': experts, 'k': k, 'tokens': tokens, 'batch': batch,
      'group': s, 'spec': spec,
      'dispatcher': rng.choice(['einsum', 'indices']),
      'bpr': rng.random() < 0.5, 'bf16': rng.random() < 0.2,
      'batches': rng.choice([1, 2, 3]), 'prefetch': rng.choice([None, 1, 2]),
      'grads': rng.random() < 0.5, 'values': rng.getrandbits(20),
      'src': ckpt.gen_topology(rng), 'shards': rng.choice([None, 3]),
      'chunk': rng.choice([None, None, 16]),
      'slots': rng.randint(1, 3),
      'noise': rng.random() < 0.15, 'skew': rng.choice([0.0, 0.0, 2.0]),
  }
  if router == 'experts':
    c['dispatcher'] = 'einsum'
  if router == 'dense':
    c.update(capacity=s, k=experts, noise=False)
  elif router == 'experts' and rng.random() < 0.5:
    c['capacity'] = rng.randint(1, s)
  elif rng.random() < 0.5:
    c['capacity'] = rng.randint(1, max(1, s))
  else:
    c['factor'] = rng.choice([0.3, 0.5, 1.0, 1.05, 2.0])
    c['multiple'] = rng.choice([None, 1, 4, 'default'])
    c['rounding'] = rng.choice(['ceil', 'round', 'default'])
    if router == 'experts':
      c['factor'] = rng.choice([0.3, 1.0, 1.5, 2.0])
    cap = capacity(c)
    if cap is None or (router == 'experts' and cap > s):
      del c['factor'], c['multiple'], c['rounding']
      c['capacity'] = 1
  if router == 'soft':
    c['spec'] = spec
    c['noise'] = False
  if c['noise'] and len(c['jobs']) == 1:
    c['jobs'].append({'hosts': 1, 'per': 1, 'order': [0], 'parts': 1})
  return 'serve', c


def capacity(c):
  """None: refused."""
  if 'capacity' in c:
    return c['capacity']
  k = 1 if c['router'] == 'experts' else c['k']
  x = c['group'] * k * c['factor'] / c['experts']
  cap = round(x) if c['rounding'] == 'round' else math.ceil(x)
  if cap < 1:
    return None
  mult = 4 if c['multiple'] == 'default' else c['multiple']
  if mult:
    cap += -cap % mult
  return cap


def faults(scenario, config):
  del scenario, config
  return ['crash', 'io']


def plan(rng, scenario, config, probe):
  del scenario, config
  tags = sorted(probe.lengths)[:1]
  return fw.draw_plan(rng, probe, ['crash', 'io'], 1, tags)


# -- reference ---------------------------------------------------------------------


def softmax(x, axis=-1):
  e = np.exp(x - x.max(axis, keepdims=True))
  return e / e.sum(axis, keepdims=True)


def select(c, g):
  """(S, E) gates -> which (item, expert) pairs are processed; None if tied."""
  s, e = g.shape
  cap = capacity(c)
  if c['router'] == 'dense':
    return np.ones((s, e), bool)
  out = np.zeros((s, e), bool)
  tol = 2e-4
  if c['router'] == 'experts':
    for j in range(e):
      order = np.argsort(-g[:, j], kind='stable')
      if cap < s and g[order[cap - 1], j] - g[order[cap], j] < tol:
        return None
      out[order[:cap], j] = True
    return out
  order = np.argsort(-g, axis=1, kind='stable')
  srt = np.take_along_axis(g, order, 1)
  if e > 1 and (srt[:, :min(c['k'], e - 1)] -
                srt[:, 1:min(c['k'], e - 1) + 1] < tol).any():
    return None
  items = np.arange(s)
  if c['bpr']:
    items = np.argsort(-srt[:, 0], kind='stable')
    top = srt[items, 0]
    if e > 1 and (top[:-1] - top[1:] < tol).any():
      return None
  used = [0] * e
  for choice in range(c['k']):
    for i in items:
      j = order[i, choice]
      if used[j] < cap:
        out[i, j] = True
      used[j] += 1
  return out


def reference(c, params, x, sel, xp):
  """x: (G, S, D). The mixture, and the gates."""
  k0, b0, k1, b1 = (params['Mlp'][a][b] for a in ('Dense_0', 'Dense_1')
                    for b in ('kernel', 'bias'))

  def mlp(v):       # (E, n, D)
    h = xp.einsum('end,edh->enh', v, k0) + b0[:, None]
    h = 0.5 * h * (1 + xp.tanh(math.sqrt(2 / math.pi) *
                               (h + 0.044715 * h ** 3)))
    return xp.einsum('enh,ehd->end', h, k1) + b1[:, None]

  def smax(v, axis):
    ex = xp.exp(v - v.max(axis, keepdims=True))
    return ex / ex.sum(axis, keepdims=True)

  g, s, d = x.shape
  if c['router'] == 'soft':
    def unit(v, axis):
      return v / xp.sqrt((v * v).sum(axis, keepdims=True) + 1e-6)
    mu, scale = params['Router']['mu'], params['Router']['scale']
    lg = xp.einsum('gmd,dnp->gmnp', unit(x, -1), unit(mu, 0) * scale)
    disp = smax(lg, 1)
    comb = smax(lg.reshape(g, s, -1), -1).reshape(lg.shape)
    slots = xp.einsum('gmnp,gmd->ngpd', disp, x)
    e = slots.shape[0]
    y = mlp(slots.reshape(e, -1, d)).reshape(slots.shape)
    return xp.einsum('gmnp,ngpd->gmd', comb, y), None
  gates = smax(xp.einsum('gsd,de->gse', x,
                         params['Router']['dense']['kernel']), -1)
  e = gates.shape[-1]
  y = mlp(xp.broadcast_to(x.reshape(1, g * s, d), (e, g * s, d)))
  y = y.reshape(e, g, s, d)
  return xp.einsum('gse,egsd->gsd', gates * sel, y), gates


def aux_losses(gates, best):
  imp = gates.sum(1)
  importance = imp.var(-1) / imp.mean(-1) ** 2
  top1 = np.eye(gates.shape[-1])[np.asarray(best)].mean(1)
  gshard = (top1 * gates.mean(1)).mean(-1) * gates.shape[-1] ** 2
  return importance, gshard


def shapes(c):
  e, d = c['experts'], DIM
  out = {'Mlp/Dense_0/kernel': (e, d, HID), 'Mlp/Dense_0/bias': (e, HID),
         'Mlp/Dense_1/kernel': (e, HID, d), 'Mlp/Dense_1/bias': (e, d)}
  if c['router'] == 'soft':
    out['Router/mu'] = (d, e, c['slots'])
    out['Router/scale'] = ()
  else:
    out['Router/dense/kernel'] = (d, e)
  return out


def nest(flat):
  out = {}
  for k, v in flat.items():
    d = out
    *parts, last = k.split('/')
    for p in parts:
      d = d.setdefault(p, {})
    d[last] = v
  return out


def draw_values(c):
  """Parameters and batches without (near) ties."""
  rs = np.random.RandomState(c['values'])
  params = {k: rs.normal(size=s).astype('f') for k, s in shapes(c).items()}
  n = c['batch'] * c['tokens']
  xs, sels = [], []
  for _ in range(c['batches']):
    for _ in range(200):
      x = rs.normal(size=(c['batch'], c['tokens'], DIM)).astype('f')
      if c['skew']:
        x[..., 0] += c['skew']       # experts of different popularity
      if c['router'] == 'soft':
        sel = None
        break
      gates = softmax(x.astype('d').reshape(n // c['group'], c['group'], DIM)
                      @ params['Router/dense/kernel'].astype('d'))
      sel = [select(c, g) for g in gates]
      if all(s is not None for s in sel):
        sel = np.stack(sel)
        break
    else:
      return None
    xs.append(x)
    sels.append(sel)
  return params, xs, sels


# -- the job --------------------------------------------------------------------------


def make_model(c, deterministic=True):
  r = {'deterministic': deterministic}
  spec = (('expert', 'replica'),) if c['spec'] else None
  if c['router'] == 'soft':
    r.update(name='vmoe.projects.soft_moe.router.SoftRouter',
             num_slots=c['slots'], partition_spec=spec)
  elif c['router'] == 'dense':
    r.update(name='dst.tiny.DenseRouter', partition_spec=spec)
  else:
    d = {'name': c['dispatcher'], 'bfloat16': c['bf16'],
         'partition_spec': spec}
    if 'capacity' in c:
      d['capacity'] = c['capacity']
    else:
      d['capacity_factor'] = c['factor']
      if c['multiple'] != 'default':
        d['capacity_multiple_of'] = c['multiple']
      if c['rounding'] != 'default':
        d['capacity_ceil_or_round'] = c['rounding']
    r['dispatcher'] = d
    if c['router'] == 'items':
      r.update(num_selected_experts=c['k'], gshard_loss_weight=0.5,
               importance_loss_weight=2.0)
      d['batch_priority'] = c['bpr']
    else:
      r['name'] = 'NoisyTopItemsPerExpertRouter'
  return vit_moe.MlpMoeBlock(
      mlp_dim=HID, num_experts=c['experts'], group_size=c['group'],
      dropout_rate=0.0, deterministic=True, router=r)


def save_source(ctx, c, fs, params):
  topo = c['src']
  mesh = ckpt.build_mesh(topo)
  rng = ctx.rng('src')
  leaves = [{'path': k, 'shape': list(v.shape), 'dtype': 'float32',
             'spec': ckpt.gen_spec(rng, v.shape, topo['mesh'])}
            for k, v in params.items()]
  w = ctx.world(fs, faults=False, num_hosts=topo['hosts'],
                devices_per_host=topo['dev'])

  def save(h):
    def fn():
      tree = ckpt.nest(leaves, [
          jaxsim.SimArray.from_global(params[l['path']],
                                      ckpt.sharding_of(mesh, l, topo), h)
          for l in leaves])
      partitioned.save_checkpoint(PREFIX, tree, num_shards=c['shards'],
                                  max_chunk_bytes=c['chunk']).get()
    return fn

  ctx.run_world(w, [save(h) for h in range(topo['hosts'])])
  for h in w.hosts:
    if h.status != 'ok':
      raise h.exc or fw.HarnessError(h.status)


class Serve:
  """One incarnation: restores the model, then answers its batches."""

  def __init__(self, ctx, c, job, fs, xs, rs, start, faults):
    import jax
    n = job['hosts'] * job['per']
    self.w = w = ctx.world(fs, faults=faults, num_hosts=job['hosts'],
                           devices_per_host=job['per'])
    devs = mh.attach(w, job['hosts'], job['per'], job['order'])
    self.mesh = mesh = mh.mesh_of(devs, (job['parts'], n // job['parts']))
    P = jax.sharding.PartitionSpec
    shard = lambda *a: jax.sharding.NamedSharding(mesh, P(*a))
    rows = shard(('expert', 'replica'))
    model = make_model(c, deterministic=not c['noise'])
    rngs = {'gating': jax.random.PRNGKey(3)} if c['noise'] else None

    def target():
      out = {}
      for k, s in shapes(c).items():
        by = k.startswith('Mlp/') and c['experts'] % job['parts'] == 0
        out[k] = jax.ShapeDtypeStruct(s, np.float32,
                                      sharding=shard('expert') if by
                                      else shard())
      return nest(out)

    def loss(params, x, r):
      out, metrics = model.apply({'params': params}, x, rngs=rngs)
      total = (out * r).sum()
      if c['router'] == 'items':
        total += 3.0 * metrics['auxiliary_loss'].mean()
      return total, (out, metrics)

    @jax.jit
    def step(params, x, r):
      if c['grads']:
        g, (out, metrics) = jax.grad(loss, has_aux=True)(params, x, r)
      else:
        g, (out, metrics) = None, loss(params, x, r)[1]
      return jax.lax.with_sharding_constraint(out, rows), metrics, g

    per_dev = c['batch'] // n
    # Which rows of the global batch does a device hold?
    self.pos = {d.id: i for i, d in enumerate(mesh.devices.flat)}
    owner = w.owner

    def feed(h):
      mine = [d for d in mesh.devices.flat if owner[d.id] == h]
      for k in range(start, c['batches']):
        idx = np.concatenate([
            np.arange(self.pos[d.id] * per_dev, (self.pos[d.id] + 1) * per_dev)
            for d in mine])
        yield {'x': xs[k][idx], 'r': rs[k][idx]}

    self.out = [dict() for _ in range(job['hosts'])]

    def proc(h):
      def fn():
        with mesh:
          params = init.initialize_from_vmoe(
              target=target(), prefix=PREFIX, rules=[(r'^(.*)$', r'\1')],
              mesh=mesh, raise_if_target_unmatched=True)
          it = pjit_utils.prefetch_to_device(feed(h), c['prefetch'], mesh)
          for k, b in enumerate(it, start):
            out, metrics, g = step(params, b['x'], b['r'])
            own = {self.pos[s.device.id]: np.asarray(s.data)
                   for s in out.addressable_shards
                   if owner[s.device.id] == h}
            w.kernel.point('answer')
            self.out[h][k] = (own, jax.tree.map(np.asarray, metrics),
                              jax.tree.map(np.asarray, g))
      return fn

    ctx.run_world(w, [proc(h) for h in range(job['hosts'])])
    self.per_dev = per_dev


def run(ctx):
  c = ctx.config
  drawn = draw_values(c)
  if drawn is None:
    ctx.note('ties')
    drawn = draw_values(dict(c, values=c['values'] + 1))
    if drawn is None:
      return ctx.world(simfs.SimFS())
  params, xs, sels = drawn
  rs = [np.random.RandomState(k + 9).normal(size=x.shape).astype('f')
        for k, x in enumerate(xs)]
  fs = simfs.SimFS()
  save_source(ctx, c, fs, params)
  want = [expected(c, params, x, s, r) for x, s, r in zip(xs, sels, rs)]
  start, seen = 0, {}
  for attempt in range(3):
    job = c['jobs'][attempt % len(c['jobs'])]
    j = Serve(ctx, c, job, fs, xs, rs, start, attempt < 2)
    fired = any(k.startswith(('io_', 'crash')) for k in j.w.fired)
    for h in j.w.hosts:
      if h.status == 'raised' and not fired:
        raise h.exc
    for h, answers in enumerate(j.out):
      for k, (own, metrics, g) in answers.items():
        check(ctx, c, j, h, k, own, metrics, g, want[k], seen)
    if all(h.status == 'ok' for h in j.w.hosts):
      ctx.check(all(set(a) == set(range(start, c['batches'])) for a in j.out),
                'batches', [sorted(a) for a in j.out])
      if attempt == 0 and len(c['jobs']) > 1 and not ctx.plan:
        continue        # the same on another job
      return
    start = min([max(a, default=start - 1) + 1 for a in j.out])
    if start >= c['batches']:
      return
    ctx.note('restarted')
  ctx.fail('never-completes', '')


def expected(c, params, x, sel, r):
  d64 = {k: v.astype('d') for k, v in params.items()}
  n = c['batch'] * c['tokens']
  shape = (n // c['group'], c['group'], DIM)
  if c['noise']:
    return None
  out, gates = reference(c, nest(d64), x.astype('d').reshape(shape), sel, np)
  w = {'out': out.reshape(x.shape)}
  if gates is not None:
    best = gates.argmax(-1)
    w['aux'] = aux_losses(gates, best)
  if c['grads']:
    import jax
    import jax.numpy as jnp

    @jax.jit
    def grad(p):
      def loss(q):
        y, gates = reference(c, q, jnp.asarray(x.reshape(shape)), sel, jnp)
        total = (y * r.reshape(shape)).sum()
        if c['router'] == 'items':
          imp, gsh = aux_losses(gates, best)
          total += 3.0 * (2.0 * imp + 0.5 * gsh).mean()
        return total
      return jax.grad(loss)(p)
    w['grads'] = grad(nest(params))
  return w


def close(a, b, tol):
  a, b = np.asarray(a, 'd'), np.asarray(b, 'd')
  return a.shape == b.shape and np.abs(a - b).max(initial=0.0) <= tol * (
      1 + np.abs(b).max(initial=0.0))


def check(ctx, c, j, h, k, own, metrics, g, want, seen):
  low = c['bf16'] or c['router'] == 'soft'
  tol = 4e-2 if low else 2e-4
  mine = {p for d, p in j.pos.items() if j.w.owner[d] == h}
  ctx.check(set(own) == mine, 'placement', f'{sorted(own)} {sorted(mine)}')
  if want is None:
    # Noise: the same on all jobs.
    for p, v in own.items():
      for i, row in enumerate(v):
        key = (k, p * j.per_dev + i)
        ctx.check(close(row, seen.setdefault(key, row), tol),
                  'depends-on-topology', f'batch {k} row {key[1]}')
    for name, v in metrics.items():
      ctx.check(close(v, seen.setdefault((k, name), v), 10 * tol),
                'depends-on-topology', f'batch {k} {name}')
    if c['grads']:
      import jax
      for path, u in jax.tree_util.tree_leaves_with_path(g):
        was = seen.setdefault((k, jax.tree_util.keystr(path)), u)
        ctx.check(np.isfinite(u).all() and close(u, was, 10 * tol),
                  'depends-on-topology', f'gradient of {path}')
    ctx.note('batches compared between jobs')
    return
  for p, v in own.items():
    ref = want['out'][p * j.per_dev:(p + 1) * j.per_dev]
    ctx.check(close(v, ref, tol), 'wrong-output',
              lambda: f'batch {k}, host {h}, rows of device {p}: '
              f'{v.ravel()[:4]} != {ref.ravel()[:4]}')
  if c['router'] == 'items':
    imp, gsh = want['aux']
    ctx.check(close(metrics['importance_loss'], imp, 1e-3) and
              close(metrics['gshard_loss'], gsh, 1e-3) and
              close(metrics['auxiliary_loss'], 2.0 * imp + 0.5 * gsh, 2e-3),
              'auxiliary-loss', lambda: f'{metrics} != {imp} {gsh}')
  if c['grads']:
    import jax
    a = jax.tree_util.tree_leaves_with_path(g)
    b = jax.tree_util.tree_leaves_with_path(want['grads'])
    ctx.check([p for p, _ in a] == [p for p, _ in b], 'grads-structure', '')
    for (p, u), (_, v) in zip(a, b):
      ctx.check(close(u, v, 0.15 if low else 2e-3), 'wrong-gradient',
                lambda: f'batch {k} {jax.tree_util.keystr(p)}: '
                f'{u.ravel()[:4]} != {np.asarray(v).ravel()[:4]}')
    ctx.note('gradients compared')
  ctx.note('batches compared')


def shrink(scenario, c):
  del scenario
  if len(c['jobs']) > 1:
    yield dict(c, jobs=c['jobs'][:1])
    yield dict(c, jobs=c['jobs'][1:])
  one = {'hosts': 1, 'dev': 1, 'mesh': [1], 'perm': 0, 'explicit': False}
  if c['src'] != one:
    yield dict(c, src=one)
  for key, simple in [('grads', False), ('batches', 1), ('prefetch', None),
                      ('shards', None), ('chunk', None), ('bf16', False),
                      ('bpr', False), ('spec', False)]:
    if c[key] != simple:
      yield {**c, key: simple}
  if c['jobs'] != [{'hosts': 1, 'per': 1, 'order': [0], 'parts': 1}]:
    yield dict(c, jobs=[{'hosts': 1, 'per': 1, 'order': [0], 'parts': 1}],
               hosts=1)
