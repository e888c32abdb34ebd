"""Stand-in layers: the parts of vit_jax.models_vit that vmoe builds on.

MlpBlock does what the original does (two dense layers with a GELU between
them, and dropout); the rest is never executed by the simulations.
"""
from typing import Any, Optional

import flax.linen as nn


class IdentityLayer(nn.Module):

  @nn.compact
  def __call__(self, x):
    return x


class AddPositionEmbs(nn.Module):

  @nn.compact
  def __call__(self, x):
    return x


class MlpBlock(nn.Module):
  mlp_dim: int = 1
  dtype: Any = None
  out_dim: Optional[int] = None
  dropout_rate: float = 0.1

  @nn.compact
  def __call__(self, inputs, *, deterministic=True):
    out_dim = inputs.shape[-1] if self.out_dim is None else self.out_dim
    x = nn.Dense(self.mlp_dim, dtype=self.dtype)(inputs)
    x = nn.gelu(x)
    x = nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)
    x = nn.Dense(out_dim, dtype=self.dtype)(x)
    return nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)


class VisionTransformer(nn.Module):

  @nn.compact
  def __call__(self, x, *, train=False):
    return x
