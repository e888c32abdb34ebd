"""Runs the real trainers in simulated jobs of several hosts."""
import itertools

import numpy as np

from dst import data as data_lib
from dst import mh
from dst import orbax_sim

trainer = contrastive = None
WORK = '/simfs/work'
CKPT = WORK + '/ckpt'
CLASSES = 3
serial = itertools.count()


def setup():
  global trainer, contrastive
  mh.install()
  data_lib.install()
  orbax_sim.install()
  from vmoe.train import trainer as t
  from vmoe.projects.contrastive import trainer as c
  trainer, contrastive = t, c


class Writer:

  def __init__(self):
    self.log = []

  def write_scalars(self, step, scalars):
    self.log.append((int(step), {k: float(v) for k, v in scalars.items()}))

  def write_texts(self, *a, **kw):
    pass

  write_summaries = write_images = write_histograms = write_hparams = write_texts

  def flush(self):
    pass

  close = flush

  def scalars(self, key):
    return [(s, m[key]) for s, m in self.log if key in m]


class Data:
  """The datasets of a case (a new set of names for every world)."""

  def __init__(self, c, bad=()):
    self.c = c
    self.name = f'sim_tr{next(serial)}'
    n, same = c['examples'], c.get('identical')

    def example(i):
      import tensorflow as tf
      if same:
        row = tf.constant(np.linspace(-1, 1, n), tf.float32)
        label = tf.constant(1)
      else:
        row = tf.one_hot(i, n)
        label = tf.cast(i, tf.int32) % CLASSES
      out = {'image': tf.concat([row, [1.0]], 0), 'labels': label, 'id': i}
      if c.get('contrastive'):
        out['text'] = tf.concat([row, [3.0]], 0)
      return out

    def eval_example(i):
      import tensorflow as tf
      return {'image': tf.concat([tf.one_hot(i % n, n), [2.0]], 0),
              'labels': tf.cast(i, tf.int32) % CLASSES, 'id': i}

    shards = c['shards']
    self.train = data_lib.SimBuilder(self.name, None, {'train': shards},
                                     example, bad=bad)
    self.evals = {}
    for name, e in c.get('evals', {}).items():
      self.evals[name] = data_lib.SimBuilder(
          f'{self.name}_{name}', None, {'test': e['shards']}, eval_example)
    if c.get('fewshot'):
      x, y, k = fewshot_table(c)

      def shot_example(i):
        import tensorflow as tf
        return {'image': tf.constant(x)[i], 'label': tf.constant(y)[i], 'id': i}

      f = c['fewshot']
      data_lib.SimBuilder(
          f'{self.name}_shots', None,
          {'train': f['train'], 'test': f['test']}, shot_example,
          num_classes=CLASSES)

  def config(self):
    c = self.c
    keep = ('keep("image", "text")' if c.get('contrastive')
            else f'keep("image", "labels")|onehot({CLASSES})')
    out = {'train': dict(
        name=self.name, split=c.get('split', 'train'), batch_size=c['batch'], process=keep,
        shuffle_buffer=c.get('shuffle', 4), **(
            {'prefetch_device': c['prefetch_device']}
            if c.get('prefetch_device') is not None else {}))}
    for name, e in c.get('evals', {}).items():
      out[name] = dict(name=f'{self.name}_{name}', split='test',
                       batch_size=e['batch'],
                       process=f'keep("image", "labels")|onehot({CLASSES})')
    return out


def fewshot_table(c):
  """Images and labels for few-shot evaluation: first the training ones."""
  f = c['fewshot']
  k = sum(map(len, f['train']))
  n = k + sum(map(len, f['test']))
  rng = np.random.default_rng(f['seed'])
  y = np.concatenate([np.arange(k), rng.integers(0, CLASSES, n - k)]) % CLASSES
  x = rng.normal(size=(n, c['examples'] + 1))
  x[np.arange(n), y] += 2.0
  return x.astype(np.float32), y.astype(np.int32), k


def make_config(c, data):
  import ml_collections
  noise = c.get('noise', True)
  rngs = (['dropout'] if noise or c.get('mixup') else []) + (
      ['mixup'] if c.get('mixup') else [])
  d = {
      'dataset': data.config(),
      'params_axis_resources': [(a, tuple(b)) for a, b in c.get('axes', [])],
      'optimizer': c['optimizer'],
      'extra_rng_keys': rngs,
      'seed': c.get('seed', 0),
      'save_checkpoint': c['save'],
      'profile': {'first_profile': 10**6},
      'report_progress': c.get('report', {'every_secs': None,
                                          'every_steps': 1}),
  }
  if c.get('epochs') is not None:
    d['train_epochs'] = c['epochs']
  else:
    d['train_steps'] = c['steps']
  if c.get('microsteps') is not None:
    d['microsteps'] = c['microsteps']
  if c.get('contrastive'):
    d['model'] = {'name': 'dst.tiny.TinyPair', 'noise': noise,
                  'learn': c.get('learn', True)}
  else:
    d['model'] = {'name': 'dst.tiny.Tiny', 'num_classes': CLASSES,
                  'noise': noise, 'learn': c.get('learn', True)}
    if c.get('mixed'):
      d['model']['mixed'] = True
    d['loss'] = {'name': c.get('loss', 'softmax_xent')}
    if c.get('ensemble'):
      d['loss'] = {'name': 'ensemble_' + d['loss']['name'],
                   'ensemble_size': c['ensemble']}
      d['model']['ensemble'] = c['ensemble']
    d['evaluate'] = c.get('evaluate', {'every_steps': 10**6})
    if c.get('mixup'):
      d['mixup'] = c['mixup']
    if c.get('adversarial'):
      d['adversarial'] = c['adversarial']
  if c.get('fewshot'):
    f = c['fewshot']
    d['fewshot'] = dict(
        f['when'], datasets={'shots': (f'{data.name}_shots', 'train', 'test')},
        shots=[100], l2_regs=f['l2'], batch_size=f['batch'],
        process='keep("image", "label")', seed=3)
  if c.get('retrieval'):
    r = c['retrieval']
    d['retrieval'] = dict(r['when'], dim=c['examples'] + 1, datasets={
        k: {'seed': v} for k, v in r['tasks'].items()})
  if c.get('zeroshot'):
    r = c['zeroshot']
    d['zeroshot'] = dict(r['when'], dim=c['examples'] + 1, datasets={
        k: {'seed': v} for k, v in r['tasks'].items()})
  if c.get('summarize'):
    d['summarize_arrays'] = tuple(c['summarize'])
  d['model']['record'] = bool(c.get('record'))
  if c.get('initialization'):
    d['initialization'] = c['initialization']
  return ml_collections.ConfigDict(d)


class Run:
  """One incarnation of the training job."""

  def __init__(self, ctx, c, fs, faults=True, topology=None, bad=()):
    hosts, per, experts = topology or (c['hosts'], c['per'], c.get('experts', 1))
    self.c = c
    self.data = Data(c, bad)
    self.fs = fs
    self.store = orbax_sim.store_of(fs, CKPT)
    self.before = sorted(self.store.steps)
    self.log_start = len(self.store.log)
    self.base_state = (state_of(self.store, self.before[-1])
                       if self.before else None)
    w = self.w = ctx.world(fs, faults=faults, num_hosts=hosts,
                           devices_per_host=per)
    devs = mh.attach(w, hosts, per, None)
    self.mesh = mh.mesh_of(devs, (experts, hosts * per // experts))
    self.batches = []
    self.writers = [Writer() for _ in range(hosts)]
    w.on_global = self._seen

    def proc(h):
      def fn():
        with self.mesh:
          mod = contrastive if c.get('contrastive') else trainer
          mod.train_and_evaluate(make_config(c, self.data), WORK, self.mesh,
                                 self.writers[h])
      return fn

    ctx.run_world(w, [proc(h) for h in range(hosts)])
    self.statuses = [h.status for h in w.hosts]
    self.ok = all(s == 'ok' for s in self.statuses)
    # Everything committed by this incarnation, even if deleted since.
    self.final_states = dict(w.__dict__.get('orbax_committed', {}))

  def _seen(self, arr):
    if (arr.ndim == 2 and arr.shape == (
        self.c['batch'], self.c['examples'] + 1)):
      a = np.array(arr)
      if a[0, -1] == 1.0:
        self.batches.append(a)

  def events(self):
    return self.store.log[self.log_start:]

  def restored(self):
    steps = {s for k, s, _ in self.events() if k == 'restore'}
    return steps


def state_of(store, step):
  """The committed state of a step: flat dict of numpy arrays."""
  return store.steps[step]['hosts'][0]['state'][0]


def index_of(store, step):
  return store.steps[step]['hosts'][0]['dataset_iterator'][1]
