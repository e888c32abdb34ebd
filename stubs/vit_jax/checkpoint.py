"""Stand-in for vit_jax.checkpoint: reads an npz file into nested dicts."""
import io

import numpy as np
import tensorflow as tf


def load(path):
  with tf.io.gfile.GFile(path, 'rb') as f:
    data = f.read()
  out = {}
  with np.load(io.BytesIO(data), allow_pickle=False) as arrays:
    for key in arrays.files:
      d = out
      *parts, last = key.split('/')
      for p in parts:
        d = d.setdefault(p, {})
      d[last] = arrays[key]
  return out
