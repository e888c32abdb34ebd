"""Datasets behind the `tensorflow_datasets` seam, and ordered tf.data.

`tfds.builder` of a name that starts with "sim_" returns a builder whose
examples live in memory, in shards. Its splits are the real tfds ones (slices,
percentages, even splits, files). tf.data transformations that are free to
deliver in any order (deterministic=False) deliver in an order given by the
seed of the case.
"""
import random

_installed = False
_registry = {}
_order = random.Random(0)


def install():
  global _installed
  if _installed:
    return
  _installed = True
  import tensorflow as tf
  import tensorflow_datasets as tfds_root
  import tensorflow_datasets.public_api as tfds

  real_builder = tfds.builder
  real_dir = tfds.builder_from_directory

  def builder(name=None, *a, **kw):
    if isinstance(name, str) and name.startswith('sim_'):
      return lookup(name, kw.get('data_dir'))
    return real_builder(name, *a, **kw)

  def builder_from_directory(d=None, *a, **kw):
    d = d if d is not None else kw.get('builder_dir')
    if isinstance(d, str) and d.startswith('sim_'):
      return lookup(None, d)
    return real_dir(d, *a, **kw)

  for m in (tfds, tfds_root):
    m.builder = builder
    m.builder_from_directory = builder_from_directory

  real_map = tf.data.Dataset.map

  def data_map(self, map_func, num_parallel_calls=None, deterministic=None,
               *a, **kw):
    if deterministic is False and num_parallel_calls is not None:
      k = 8 if num_parallel_calls < 0 else max(1, min(int(num_parallel_calls),
                                                      8))
      out = real_map(self, map_func, *a, **kw)
      if k > 1:
        out = out.shuffle(k, seed=_order.getrandbits(30),
                          reshuffle_each_iteration=True)
      return out
    if num_parallel_calls is not None:
      num_parallel_calls = None     # sequential: same order, no real threads
    return real_map(self, map_func, *a, num_parallel_calls=num_parallel_calls,
                    **kw)

  tf.data.Dataset.map = data_map


REORDER = 8      # how far an unordered map may look ahead


def reset(seed):
  """Start of a case: all the tf randomness is a function of the seed."""
  import tensorflow as tf
  _registry.clear()
  _order.seed(f'order/{seed}')
  tf.random.set_seed(seed & 0x7fffffff)


def lookup(name, data_dir):
  for key in ((name, data_dir), (name, None), (None, data_dir)):
    if key in _registry:
      return _registry[key]
  raise ValueError(f'no dataset {name!r} {data_dir!r}')


class Label:

  def __init__(self, n):
    self.num_classes = n


class Info:

  def __init__(self, splits, num_classes):
    self.splits = splits
    self.features = {'label': Label(num_classes)}


class SimBuilder:
  """What vmoe uses of a tfds builder."""

  def __init__(self, name, data_dir, shards, example_fn, num_classes=10,
               bad=()):
    """shards: {split: [[example ids]]}; example_fn(id tensor) -> features."""
    from tensorflow_datasets.core import naming
    from tensorflow_datasets.core import splits as splits_lib
    self.name, self.data_dir = name, data_dir
    self.shards = shards
    self.example_fn = example_fn
    self.bad = list(bad)
    self.prepared = 0
    self.reads = 0
    infos = []
    for split, sh in shards.items():
      infos.append(splits_lib.SplitInfo(
          name=split, shard_lengths=[len(s) for s in sh], num_bytes=0,
          filename_template=naming.ShardedFileTemplate(
              data_dir='/nowhere', dataset_name='d', filetype_suffix='tfrecord',
              template='{DATASET}-{SPLIT}.{FILEFORMAT}-{SHARD_X_OF_Y}')))
    self.info = Info(splits_lib.SplitDict(infos), num_classes)
    _registry[(name, data_dir)] = self

  def download_and_prepare(self, *a, **kw):
    del a, kw
    self.prepared += 1

  def ids(self, split):
    """The ids of a split, in file order."""
    out = []
    for fi in self.info.splits[split].file_instructions:
      out.extend(self._file(fi))
    return out

  def _file(self, fi):
    base = str(fi.filename).rsplit('/', 1)[-1]
    split = base.split('-')[1].split('.')[0]
    shard = int(base.split('-')[-3])
    ids = self.shards[split][shard]
    take = fi.take if fi.take is not None and fi.take >= 0 else len(ids)
    return ids[fi.skip:fi.skip + take]

  def as_dataset(self, split=None, *, batch_size=None, shuffle_files=False,
                 decoders=None, read_config=None, as_supervised=False):
    import tensorflow as tf
    assert batch_size is None and not as_supervised
    del decoders
    self.reads += 1
    files = [self._file(fi)
             for fi in self.info.splits[split].file_instructions]
    files = [f for f in files if f]
    if not files:
      raise ValueError('Instruction [] corresponds to no data!')
    flat = [i for f in files for i in f]
    starts, pos = [], 0
    for f in files:
      starts.append((pos, len(f)))
      pos += len(f)
    ids = tf.constant(flat, tf.int64)
    data = tf.data.Dataset.from_tensor_slices(tf.constant(starts, tf.int64))
    if shuffle_files and len(files) > 1:
      seed = getattr(read_config, 'shuffle_seed', None)
      data = data.shuffle(
          len(files), seed=seed,
          reshuffle_each_iteration=True if seed is None else False)
    data = data.interleave(
        tf.autograph.experimental.do_not_convert(
            lambda s: tf.data.Dataset.range(s[0], s[0] + s[1])),
        cycle_length=2 if shuffle_files else 1)
    bad = tf.constant(self.bad or [-1], tf.int64)

    def read(k):
      i = ids[k]
      ok = tf.debugging.Assert(tf.reduce_all(i != bad),
                               ['simulated read error', i])
      with tf.control_dependencies([ok] if ok is not None else []):
        i = tf.identity(i)
      return self.example_fn(i)

    return data.map(tf.autograph.experimental.do_not_convert(read))


def draw_shards(rng, first, n):
  """n consecutive ids in random shards (some of them empty)."""
  shards, i = [], 0
  while i < n:
    k = min(n - i, rng.randint(1, max(1, n)))
    if rng.random() < 0.1:
      shards.append([])
    shards.append(list(range(first + i, first + i + k)))
    i += k
  return shards
