"""What the stand-in evaluators share.

An evaluation embeds a few images and texts with the function it was given,
and all the processes of the job meet (the real ones run collectives).
"""
import numpy as np

IMAGES, TEXTS = 5, 4


def inputs(dim, seed):
  rng = np.random.default_rng([dim, seed])
  return (rng.normal(size=(IMAGES, dim)).astype(np.float32),
          rng.normal(size=(TEXTS, dim)).astype(np.float32))


def meet(label, value):
  from dst import world
  w = world.active()
  if w is None or world.current_host() is None or len(w.hosts) == 1:
    return value

  def combine(values):
    heads = [v[0] for v in values]
    if any(h != heads[0] for h in heads):
      return [ValueError(f'hosts disagree: {heads}')] * len(values)
    return [v[1] for v in values]

  out = w.collective(((label,), value), combine, 'bv_evaluate')
  if isinstance(out, Exception):
    raise out
  return out


def embed(predict_fn, devices, variables, dim, seed, label):
  if not devices:
    raise ValueError('no devices')
  images, texts = inputs(dim, seed)
  zi = predict_fn(variables, {'image': images})
  zt = predict_fn(variables, {'labels': texts})
  if zi[1] is not None or zt[0] is not None:
    raise ValueError('embeddings in the wrong place')
  return meet(label, (np.asarray(zi[0]), np.asarray(zt[1])))
