"""Stand-in (never executed by the simulations)."""
import flax.linen as nn


class MlpMixer(nn.Module):

  @nn.compact
  def __call__(self, x, *, train=False):
    return x
