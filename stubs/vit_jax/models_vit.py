"""Stand-in for vit_jax.models_vit, with the published semantics."""
from typing import Any, Callable, Optional

import flax.linen as nn
import jax.numpy as jnp


class IdentityLayer(nn.Module):

  @nn.compact
  def __call__(self, x):
    return x


class AddPositionEmbs(nn.Module):
  posemb_init: Callable[..., Any]
  param_dtype: Any = jnp.float32

  @nn.compact
  def __call__(self, inputs):
    assert inputs.ndim == 3, inputs.ndim
    pe = self.param('pos_embedding', self.posemb_init, (1, inputs.shape[1], inputs.shape[2]), self.param_dtype)
    return inputs + pe


class MlpBlock(nn.Module):
  mlp_dim: int
  dtype: Any = jnp.float32
  param_dtype: Any = jnp.float32
  out_dim: Optional[int] = None
  dropout_rate: float = 0.1
  kernel_init: Callable[..., Any] = nn.initializers.xavier_uniform()
  bias_init: Callable[..., Any] = nn.initializers.normal(stddev=1e-6)

  @nn.compact
  def __call__(self, inputs, *, deterministic):
    out_dim = inputs.shape[-1] if self.out_dim is None else self.out_dim
    x = nn.Dense(features=self.mlp_dim, dtype=self.dtype, param_dtype=self.param_dtype, kernel_init=self.kernel_init, bias_init=self.bias_init)(inputs)
    x = nn.gelu(x)
    x = nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)
    x = nn.Dense(features=out_dim, dtype=self.dtype, param_dtype=self.param_dtype, kernel_init=self.kernel_init, bias_init=self.bias_init)(x)
    return nn.Dropout(rate=self.dropout_rate)(x, deterministic=deterministic)


class VisionTransformer(nn.Module):
  """Only a linear stand-in: vmoe merely wraps it."""
  num_classes: int
  patches: Any
  transformer: Any
  hidden_size: int
  resnet: Optional[Any] = None
  representation_size: Optional[int] = None
  classifier: str = 'token'
  head_bias_init: float = 0.0

  @nn.compact
  def __call__(self, inputs, *, train):
    x = nn.Conv(self.hidden_size, tuple(self.patches.size), strides=tuple(self.patches.size), padding='VALID', name='embedding')(inputs)
    x = x.reshape(x.shape[0], -1, x.shape[-1]).mean(1)
    x = nn.Dropout(rate=0.5)(x, deterministic=not train)
    return nn.Dense(self.num_classes, name='head')(x)
