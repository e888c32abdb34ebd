"""C15: evaluations and progress reports of training happen when they should."""
import numpy as np

from dst import data as data_lib
from dst import framework as fw
from dst import simfs
from dst import tiny
from dst import train
from dst.props import c12
from dst.props import c14
from dst.props import c22

LINES = 0.0
FAULTY_RUNS = {'quick': 1, 'thorough': 3}
ATTEMPTS = 3
pa = clu_pa = None


def setup():
  global pa, clu_pa
  train.setup()
  c12.setup()
  from vmoe.train import periodic_actions as p
  from clu import periodic_actions as q
  pa, clu_pa = p, q


def gen(rng, tier):
  del tier
  if rng.random() < 0.25:
    hosts = rng.randint(1, 4)
    return 'actions', {
        'hosts': hosts, 'process': rng.choice([None, *range(hosts)]),
        'first': rng.choice([1, 1, 5]), 'steps': rng.randint(1, 12),
        'every': rng.choice([None, 1, 2, 3, 5]),
        'secs': rng.choice([None, 0.05, 0.3, 3600.0]),
        'on': rng.choice([None, [2, 3], [1, 6, 7]]),
        'metrics': rng.random() < 0.7}
  c = c14.draw_common(rng)
  c['contrastive'] = rng.random() < 0.25
  c['learn'] = True
  c['noise'] = rng.random() < 0.5
  c['optimizer'] = {'name': 'sgd', 'learning_rate': 0.5}
  c['save'] = {'every_steps': 1}
  c['examples'] = 11
  c['shards'] = data_lib.draw_shards(rng, 0, 11)
  c.pop('epochs', None)
  c['steps'] = rng.randint(1, 7)
  devs = c['hosts'] * c['per']
  if not c['contrastive']:
    c['evals'] = {}
    for name in ['val', 'ood'][:rng.choice([1, 1, 2])]:
      n = rng.choice([5, 9])
      c['evals'][name] = {
          'shards': data_lib.draw_shards(rng, 0, n), 'batch': devs * 2 + (
              devs if devs * 2 == c['batch'] else 0)}
    c['evaluate'] = {'every_steps': rng.choice([1, 2, 3, 100])}
    if rng.random() < 0.3:
      c['evaluate']['on_steps'] = [3]
    if rng.random() < 0.4:
      c['loss'] = 'sigmoid_xent'
    if rng.random() < 0.25:
      c['ensemble'] = rng.choice([2, 3])
  else:
    for kind, tasks in (('retrieval', ['coco', 'flickr']),
                        ('zeroshot', ['cifar', 'pets'])):
      if rng.random() < 0.7:
        c[kind] = {'when': draw_when(rng), 'tasks': {
            t: rng.randrange(100) for t in tasks[:rng.choice([1, 2])]}}
  # Few-shot evaluation takes one representation per image: not of ensembles.
  if rng.random() < 0.25 and not c.get('ensemble'):
    k = train.CLASSES * rng.choice([2, 3])
    c['fewshot'] = {
        'train': data_lib.draw_shards(rng, 0, k),
        'test': data_lib.draw_shards(rng, k, rng.choice([6, 9])),
        'l2': rng.choice([[1.0], [0.01, 1.0, 100.0]]), 'batch': devs * 2,
        'seed': rng.randrange(10**6), 'when': draw_when(rng)}
  rep = {'every_secs': rng.choice([None, None, 3600.0]),
         'every_steps': rng.choice([None, 1, 2, 3])}
  if rng.random() < 0.3:
    rep['on_steps'] = [2]
  if rng.random() < 0.3:
    rep['process_index'] = rng.choice([None, c['hosts'] - 1])
  c['report'] = rep
  return 'train', c


def draw_when(rng):
  """When a hook runs (besides the first and the last step)."""
  out = {}
  if rng.random() < 0.8:
    out['every_steps'] = rng.choice([1, 2, 3, 100])
  if rng.random() < 0.3:
    out['on_steps'] = [rng.randint(1, 6)]
  return out


def due_steps(when, first, total):
  return [s for s in range(first, total + 1)
          if (when.get('every_steps') and s % when['every_steps'] == 0)
          or s in when.get('on_steps', ()) or s in (first, total)]


def faults(scenario, config):
  del scenario, config
  return ['crash', 'clock']


def plan(rng, scenario, config, probe):
  del scenario, config
  return fw.draw_plan(rng, probe, ['crash', 'clock', 'clock'], 2, worlds=[0])


def run(ctx):
  data_lib.reset(ctx.case['io_seed'])
  if ctx.case['scenario'] == 'actions':
    return run_actions(ctx)
  c = ctx.config
  fs = simfs.SimFS()
  flops = set()
  for attempt in range(ATTEMPTS):
    r = train.Run(ctx, c, fs, faults=attempt < ATTEMPTS - 1)
    excused = any(k.startswith('crash') for k in r.w.fired)
    for h in r.w.hosts:
      if h.status == 'raised' and not excused:
        raise h.exc
    check_eval(ctx, c, r)
    check_hooks(ctx, c, r)
    check_progress(ctx, c, r, flops)
    if r.ok:
      return
  ctx.fail('never-completes', '')


def prefix_of(ctx, got, want, complete, cls, what):
  ctx.check(got == want[:len(got)], cls, f'{what}: {got}, due {want}')
  if complete:
    ctx.check(got == want, cls, f'{what}: {got}, due {want}')


def reference(c, name, vals):
  head = np.asarray(vals['params/head'], np.float64)
  n = c['examples']
  ids = np.array([i for s in c['evals'][name]['shards'] for i in s])
  logits = head[ids % n] + 2 * head[n]
  labels = np.eye(train.CLASSES)[ids % train.CLASSES]
  if c.get('ensemble'):
    # The loss and prediction of the mean of the members' probabilities.
    x = np.stack([f * np.roll(logits, k, axis=1)
                  for k, f in enumerate(tiny.FACTORS[:c['ensemble']])])
    if c.get('loss') == 'sigmoid_xent':
      p = (1 / (1 + np.exp(-x))).mean(0)
      q = (1 / (1 + np.exp(x))).mean(0)
      loss = -(labels * np.log(p) + (1 - labels) * np.log(q)).sum(1)
    else:
      p = np.exp(x - x.max(2, keepdims=True))
      p = (p / p.sum(2, keepdims=True)).mean(0)
      loss = -(labels * np.log(p)).sum(1)
    srt = np.sort(p, axis=1)
    correct = (p.argmax(1) == ids % train.CLASSES).mean()
    return correct, loss.mean(), (srt[:, -1] - srt[:, -2]).min()
  if c.get('loss') == 'sigmoid_xent':
    x = logits
    loss = (np.maximum(x, 0) - x * labels + np.log1p(np.exp(-abs(x)))).sum(1)
  else:
    m = logits.max(1, keepdims=True)
    lse = m[:, 0] + np.log(np.exp(logits - m).sum(1))
    loss = lse - (logits * labels).sum(1)
  srt = np.sort(logits, axis=1)
  margin = (srt[:, -1] - srt[:, -2]).min()
  correct = (logits.argmax(1) == ids % train.CLASSES).mean()
  return correct, loss.mean(), margin


def check_eval(ctx, c, r):
  base = r.before[-1] if r.before else 0
  total, first = c['steps'], base + 1
  if c.get('contrastive'):
    return
  ev = c['evaluate']
  due = [s for s in range(first, total + 1)
         if s % ev['every_steps'] == 0 or s in ev.get('on_steps', ())
         or s in (first, total)]
  for h, writer in enumerate(r.writers):
    for name in c['evals']:
      acc, loss = (writer.scalars(f'{name}/{m}') for m in ('prec@1', 'loss'))
      prefix_of(ctx, [s for s, _ in acc], due,
                r.w.hosts[h].status == 'ok', 'evaluation-steps',
                f'host {h}, {name}, from step {first} to {total}')
      ctx.check([s for s, _ in acc] == [s for s, _ in loss],
                'evaluation-steps', f'host {h}, {name}')
      for (s, a), (_, l) in zip(acc, loss):
        if s not in r.final_states:
          continue
        ra, rl, margin = reference(c, name, r.final_states[s][0]['state'][0])
        ctx.check(abs(l - rl) <= 1e-3 * (1 + abs(rl)), 'evaluation-loss',
                  f'host {h}, {name}, step {s}: {l} != {rl}')
        if margin > 1e-4:
          ctx.check(abs(a - ra) < 1e-5, 'evaluation-accuracy',
                    f'host {h}, {name}, step {s}: {a} != {ra}')
        ctx.note('evaluations checked')


def check_hooks(ctx, c, r):
  """The other periodic evaluations: when they run, and on which state."""
  first, total = (r.before[-1] if r.before else 0) + 1, c['steps']
  series = {}        # metric -> (steps due, value from the parameters)
  if c.get('retrieval') or c.get('zeroshot'):
    from big_vision.evaluators.proj.image_text import sim

    def embeddings(head, seed):
      images, texts = sim.inputs(c['examples'] + 1, seed)
      return images @ head, 2.0 * (texts @ head)

    if c.get('retrieval'):
      due = due_steps(c['retrieval']['when'], first, total)
      for t, seed in c['retrieval']['tasks'].items():
        for name, fn in {
            'txt2img/Recall@1': lambda zi, zt: zt.sum(),
            'txt2img/Recall@5': lambda zi, zt: abs(zt).sum(),
            'img2txt/Recall@1': lambda zi, zt: zi.sum()}.items():
          series[f'retrieval/{t}/{name}'] = (due, lambda head, fn=fn, s=seed: (
              fn(*embeddings(head, s)), 0.0))
    if c.get('zeroshot'):
      due = due_steps(c['zeroshot']['when'], first, total)
      for t, seed in c['zeroshot']['tasks'].items():
        series[f'zeroshot/{t}/accuracy'] = (due, lambda head, s=seed: (
            (lambda zi, zt: (zi @ zt.T).sum())(*embeddings(head, s)), 0.0))
  if c.get('fewshot'):
    f = c['fewshot']
    x, y, k = train.fewshot_table(c)

    def best(head):
      z = x.astype(np.float64) @ head
      res = [c12.accuracy(z[:k], y[:k], z[k:], y[k:], train.CLASSES, l)
             for l in f['l2']]
      # The regularizer is chosen by the result (of the only task).
      return max(a for a, _ in res), max(u for _, u in res)

    series['fewshot/shots/100shot'] = (
        due_steps(f['when'], first, total), best)
  for h, writer in enumerate(r.writers):
    for name, (due, value) in series.items():
      got = writer.scalars(name)
      prefix_of(ctx, [s for s, _ in got], due, r.w.hosts[h].status == 'ok',
                'hook-steps', f'host {h}, {name}, from step {first} to {total}')
      for s, v in got:
        if s not in r.final_states:
          continue
        head = np.asarray(
            r.final_states[s][0]['state'][0]['params/head'], np.float64)
        want, slack = value(head)
        ctx.check(abs(v - want) <= 2e-3 * (1 + abs(want)) + slack, 'hook-value',
                  f'host {h}, {name}, step {s}: {v} != {want}')
        ctx.note('hook values checked')


def check_progress(ctx, c, r, flops):
  base = r.before[-1] if r.before else 0
  total, first = c['steps'], base + 1
  rep = c['report']
  who = rep.get('process_index', 0)
  due = [s for s in range(first + 1, total + 1)
         if (rep['every_steps'] and s % rep['every_steps'] == 0)
         or s in rep.get('on_steps', ()) or s == total]
  for h, writer in enumerate(r.writers):
    got = [s for s, _ in writer.scalars('steps_per_sec')]
    met = [s for s, _ in writer.scalars('train/total_loss')]
    if who is not None and h != who:
      ctx.check(not got and not met, 'reporter',
                f'process {h} reports, {who} should')
      continue
    prefix_of(ctx, got, due, r.w.hosts[h].status == 'ok', 'progress-steps',
              f'host {h}, from step {first} to {total}')
    prefix_of(ctx, met, due, r.w.hosts[h].status == 'ok', 'metrics-steps',
              f'host {h}, from step {first} to {total}')
    for s, v in writer.scalars('train/global_norm/params'):
      if s not in r.final_states:
        continue
      vals = r.final_states[s][0]['state'][0]
      want = np.sqrt(sum((np.asarray(x, np.float64)**2).sum()
                         for k, x in vals.items() if k.startswith('params/')))
      ctx.check(abs(v - want) <= 1e-3 * (1 + want), 'metrics-of-step',
                f'step {s}: {v} != {want}')
      ctx.note('reports checked')
    check_losses(ctx, c, r, base, writer)
    for s, v in writer.scalars('flops'):
      flops.add(round(v / s, 3))
    ctx.check(len(flops) <= 1, 'cost-of-step', sorted(flops))


def check_losses(ctx, c, r, base, writer):
  """The reported metrics of a step: its batch, the parameters before it."""
  flat = lambda s: (r.base_state if s == base and base else
                    r.final_states[s][0]['state'][0] if s in r.final_states
                    else None)
  arr = lambda vals, k: np.asarray(vals[f'params/{k}'], np.float64)
  for name, lr in (('grads', 0.5), ('updates', 1.0)):
    for s, v in writer.scalars(f'train/global_norm/{name}'):
      a, b = flat(s - 1), flat(s)
      if a is None or b is None:
        continue
      want = np.sqrt(sum(((arr(b, k) - arr(a, k)) ** 2).sum()
                         for k in ('w', 'd', 'head'))) / lr
      ctx.check(abs(v - want) <= 1e-3 * (1 + want), 'metrics-of-step',
                f'norm of the {name} of step {s}: {v} != {want}')
      ctx.note('norms checked')
  if c['noise'] or (c.get('contrastive') and (c.get('microsteps') or 1) > 1):
    return
  total = dict(writer.scalars('train/total_loss'))
  for s, v in writer.scalars('train/main_loss'):
    vals = flat(s - 1)
    if vals is None or s - base > len(r.batches):
      continue
    x = r.batches[s - 1 - base].astype(np.float64)
    head, w = arr(vals, 'head'), arr(vals, 'w')
    if c.get('contrastive'):
      t = x.copy()
      t[:, -1] = 3.0
      lg = (x @ head) @ (t @ head).T
      sign = 2 * np.eye(len(x)) - 1
      main = np.logaddexp(0, -lg * sign).sum(1).mean()
    else:
      lg = x @ head
      hot = np.eye(train.CLASSES)[x[:, :-1].argmax(1) % train.CLASSES]
      main = c22.logit_gradients(c, lg, hot)[0].mean()
    for what, got, want in (('main', v, main),
                            ('total', total.get(s), main + (x @ w).mean())):
      ctx.check(got is not None and abs(got - want) <= 1e-3 * (1 + abs(want)),
                'metrics-of-step', f'{what} loss of step {s}: {got} != {want}')
      ctx.note('losses checked')


def run_actions(ctx):
  """The reporting actions alone, against the clock."""
  c = ctx.config
  w = ctx.world(simfs.SimFS(), num_hosts=c['hosts'], tick=0.03)
  logs = [train.Writer() for _ in range(c['hosts'])]
  runs = [[] for _ in range(c['hosts'])]
  calls = [[] for _ in range(c['hosts'])]

  class Rec(clu_pa.PeriodicAction):

    def __init__(self, h):
      super().__init__(every_steps=c['every'], on_steps=c['on'])
      self.h = h

    def _apply(self, step, t):
      runs[self.h].append(step)

  last = c['first'] + c['steps'] - 1

  def proc(h):
    def fn():
      rep = pa.ReportProgress(
          process_index=c['process'], num_train_steps=last, writer=logs[h],
          every_steps=c['every'], every_secs=c['secs'], on_steps=c['on'])
      one = pa.SingleProcessPeriodicAction(
          periodic_action=Rec(h), process_index=c['process'] or 0)
      for s in range(c['first'], last + 1):
        w.kernel.point('step')
        with rep.timed('part', wait_jax_async_dispatch=False):
          w.kernel.point('part')
        t = w.mono
        kw = {'scalar_metrics': {'a': s, 'b': {'c': 2 * s}}} if c['metrics'] else {}
        calls[h].append((s, t, rep(s, **kw), w.mono))
        one(s)
    return fn

  ctx.run_world(w, [proc(h) for h in range(c['hosts'])])
  for x in w.hosts:
    if x.status == 'raised':
      raise x.exc
  for h in range(c['hosts']):
    done = [s for s, *_ in calls[h]]
    mine = c['process'] is None or h == c['process']
    fixed = [s for s in done if (c['every'] and s % c['every'] == 0)
             or s in (c['on'] or ())]
    single = fixed if h == (c['process'] or 0) else []
    got_single = runs[h]
    if w.hosts[h].status != 'ok':
      single = single[:len(got_single)]
    ctx.check(got_single == single, 'single-process',
              f'process {h} of {c["process"]}: {got_single} != {single}')
    reported = [s for s, _ in logs[h].scalars('steps_per_sec')]
    if not mine:
      ctx.check(not reported, 'reporter', f'process {h}')
      continue
    prev = None
    expect = []
    for s, t0, said, t1 in calls[h]:
      if prev is None:
        prev = (t0, t1)
        ctx.check(not said, 'first-call', s)
        continue
      must = s in fixed or s == last
      timed = False
      if c['secs'] is not None:
        # Bounds of the time since the last report, whatever was read when.
        if t0 - prev[1] > c['secs']:
          must = True
        timed = t1 - prev[0] > c['secs']
      ctx.check(said or not must, 'report-missing', f'process {h}, step {s}')
      ctx.check(must or timed or not said, 'report-too-often',
                f'process {h}, step {s}')
      if said:
        prev = (t0, t1)
        expect.append(s)
    ctx.check(reported[:len(expect)] == expect and len(reported) <= len(
        expect) + 1, 'reported-steps', f'{reported} != {expect}')
    if c['metrics']:
      for s, v in logs[h].scalars('a'):
        ctx.check(v == s, 'metrics-of-step', f'{s}: {v}')
      for s, v in logs[h].scalars('b/c'):
        ctx.check(v == 2 * s, 'metrics-of-step', f'{s}: {v}')
      if w.hosts[h].status == 'ok':
        ctx.check([s for s, _ in logs[h].scalars('a')] == expect,
                  'metrics-steps', '')
    ctx.note('reporters checked')
