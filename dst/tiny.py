"""Small models for the trainers, built so that their state tells a history.

With plain SGD and learning rate 1 (and zero-initialised parameters):
  w    minus the mean of the images, summed over all steps: with one-hot images
       it counts how often each example was used;
  d    minus the sum of the random numbers drawn by the steps.
"""
import flax.linen as nn
import jax
import jax.numpy as jnp


# The members of an ensemble scale the logits, and rotate them by 0, 1, ...
FACTORS = (1.0, 1.3, 0.7)
drawn = []                 # random keys used by models with record=True


def record(module, key):
  if module.record and not module.is_initializing():
    if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
      key = jax.random.key_data(key)
    jax.debug.callback(lambda x: drawn.append(tuple(map(int, x))), key)


class Tiny(nn.Module):
  num_classes: int = 2
  deterministic: bool = False
  noise: bool = True
  learn: bool = True       # a head that the main loss trains
  record: bool = False
  mixed: bool = False      # logits are the labels that the images should have
  ensemble: int = 0        # members, whose logits follow each other

  @nn.compact
  def __call__(self, images):
    n = images.shape[-1]
    w = self.param('w', nn.initializers.zeros, (n,))
    d = self.param('d', nn.initializers.zeros, ())
    aux = jnp.mean(images @ w)
    if self.mixed:
      head = self.param('head', lambda *_: jnp.eye(self.num_classes)[
          jnp.arange(n) % self.num_classes].at[-1].set(0.0))
      logits = images @ head
      own = jnp.sum(jax.nn.softplus(logits) - logits * logits, axis=-1)
      return logits, {'auxiliary_loss': aux + d * 0.0,
                      'mixed_loss': jnp.mean(own),
                      'weight_min': jnp.min(images[:, :-1]),
                      'total_min': jnp.min(jnp.sum(images[:, :-1], -1)),
                      'total_max': jnp.max(jnp.sum(images[:, :-1], -1)),
                      'spread': jnp.mean(jnp.sum(images[:, :-1] ** 2, -1))}
    logits = images @ w * 0.0
    if self.learn:
      head = self.param('head', nn.initializers.normal(0.5),
                        (n, self.num_classes))
      logits = images @ head
    else:
      logits = jnp.zeros((images.shape[0], self.num_classes), images.dtype)
    if self.noise and not self.deterministic:
      key = self.make_rng('dropout')
      record(self, key)
      u = jax.random.uniform(key, ())
      aux = aux + d * u
      if self.learn:
        keep = jax.random.bernoulli(self.make_rng('dropout'), 0.8, logits.shape)
        logits = logits * keep
    else:
      aux = aux + d * 0.0
    if self.ensemble:
      logits = jnp.stack([f * jnp.roll(logits, k, axis=-1) for k, f in enumerate(
          FACTORS[:self.ensemble])], axis=1).reshape(-1, logits.shape[-1])
    return logits, {'auxiliary_loss': aux}


class TinyPair(nn.Module):
  """The same for the contrastive trainer (images and texts)."""
  deterministic: bool = False
  noise: bool = True
  learn: bool = True
  record: bool = False

  @nn.compact
  def __call__(self, images, texts):
    n = (texts if images is None else images).shape[-1]
    w = self.param('w', nn.initializers.zeros, (n,))
    d = self.param('d', nn.initializers.zeros, ())
    head = None
    if self.learn:
      head = self.param('head', nn.initializers.normal(0.5), (n, 3))
    if images is None or texts is None:
      # Embeddings of one of the towers.
      z = images @ head if texts is None else 2.0 * (texts @ head)
      return z, {'auxiliary_loss': 0.0}
    aux = jnp.mean(images @ w) + 0.0 * jnp.mean(texts)
    b = images.shape[0]
    if self.learn:
      z = images @ head
      logits = z @ (texts @ head).T
    else:
      logits = jnp.zeros((b, b), images.dtype)
    if self.noise and not self.deterministic:
      key = self.make_rng('dropout')
      record(self, key)
      u = jax.random.uniform(key, ())
      aux = aux + d * u
    else:
      aux = aux + d * 0.0
    return logits, {'auxiliary_loss': aux}


class Attacked(nn.Module):
  """A linear classifier with an (observed) router, for adversarial attacks."""
  num_classes: int = 3
  num_experts: int = 0
  selected: int = 1
  dispatcher: str = 'einsum'
  bfloat16: bool = False
  deterministic: bool = False
  noise: bool = False
  record: bool = False

  @nn.compact
  def __call__(self, images):
    b, t, d = images.shape
    w = self.param('w', nn.initializers.normal(1.0), (t * d, self.num_classes))
    logits = images.reshape(b, -1) @ w
    aux = jnp.zeros(())
    if self.noise and self.has_rng('dropout'):
      key = self.make_rng('dropout')
      record(self, key)
      aux = jax.random.uniform(key, ())
    metrics = {'auxiliary_loss': aux}
    if self.num_experts:
      from vmoe.nn import routing
      routing.NoisyTopExpertsPerItemRouter(
          num_experts=self.num_experts, num_selected_experts=self.selected,
          deterministic=self.deterministic, name='Router',
          dispatcher={'name': self.dispatcher, 'bfloat16': self.bfloat16,
                      'batch_priority': False,
                      'capacity': t * self.num_experts})(images)
    return logits, metrics


class DenseRouter(nn.Module):
  """All experts process all tokens."""
  num_experts: int
  partition_spec: tuple | None = None
  deterministic: bool = True
  dtype: type | None = None

  @nn.compact
  def __call__(self, inputs):
    import vmoe.moe
    gates = jax.nn.softmax(nn.Dense(self.num_experts, use_bias=False,
                                    name='dense')(inputs))
    return vmoe.moe.get_dense_einsum_dispatcher(
        gates, partition_spec=self.partition_spec), {}
