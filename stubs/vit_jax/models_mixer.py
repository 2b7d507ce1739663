"""Stand-in for vit_jax.models_mixer."""
from typing import Any, Optional

import flax.linen as nn


class MlpMixer(nn.Module):
  patches: Any
  num_classes: int
  num_blocks: int
  hidden_dim: int
  tokens_mlp_dim: int
  channels_mlp_dim: int
  model_name: Optional[str] = None

  @nn.compact
  def __call__(self, inputs, *, train):
    x = nn.Conv(self.hidden_dim, tuple(self.patches.size), strides=tuple(self.patches.size), name='stem')(inputs)
    x = x.reshape(x.shape[0], -1, x.shape[-1]).mean(1)
    x = nn.Dropout(rate=0.5)(x, deterministic=not train)
    return nn.Dense(self.num_classes, name='head')(x)
