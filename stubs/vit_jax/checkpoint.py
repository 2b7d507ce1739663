"""Stand-in for vit_jax.checkpoint: reads a flat npz with '/'-separated names."""
import flax.traverse_util
import numpy as np


def load(path):
  with np.load(path, allow_pickle=False) as f:
    return flax.traverse_util.unflatten_dict({k: f[k] for k in f.files}, sep='/')
