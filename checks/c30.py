"""C30: the shipped configurations describe runnable, self-consistent experiments."""
import functools
import importlib
import inspect
import io
import math
import os
import re
import shutil
import tempfile
import unittest.mock as mock

import flax
import flax.traverse_util
from hypothesis import strategies as st
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import tensorflow as tf
import vmoe
from vmoe import partitioning
from vmoe.checkpoints import partitioned
from vmoe.data import builder as data_builder
from vmoe.data import input_pipeline
from vmoe.data import pp_ops
from vmoe.evaluate import fewshot
from vmoe.train import trainer
from vmoe.projects.contrastive import trainer as contrastive_trainer
from vmoe.projects.adversarial_attacks import lib as attack_lib
from checks.c15 import Dataset, Writer
from vlib.core import Sub, require, seeds, HarnessError
from vlib import npu

TIME_GUARD = {'quick': 480, 'thorough': 3600}
P = jax.sharding.PartitionSpec
VALID = '__valid__'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(partitioning.__file__)))


def discover():
  """All the modules of the repository with a get_config, and the arguments to call it with."""
  out = []
  for d, _, files in os.walk(os.path.join(ROOT, 'vmoe')):
    if 'configs' not in d.split(os.sep):
      continue
    for f in sorted(files):
      if not f.endswith('.py'):
        continue
      name = os.path.relpath(os.path.join(d, f[:-3]), ROOT).replace(os.sep, '.')
      module = importlib.import_module(name)
      if not hasattr(module, 'get_config'):
        continue
      if 'model' in inspect.signature(module.get_config).parameters:
        out += [(name, f'{t}-{b}') for t in ('vit', 'ec', 'soft') for b in ('s16', 's14', 'b16', 'l16', 'h14')]
      else:
        out.append((name, None))
  return sorted(out, key=lambda x: (x[1] is not None, x))


ALL = discover()
SINGLE = [c for c in ALL if c[1] is None]
if len(SINGLE) < 4:
  raise HarnessError('configurations not found')


def load(name, model):
  module = importlib.import_module(name)
  return module.get_config(model) if model is not None else module.get_config()


def hyper_of(name, model):
  module = importlib.import_module(name)
  if not hasattr(module, 'get_hyper'):
    return []
  swept = []

  class Hyper:

    def sweep(self, key, values):
      values = list(values)
      swept.append((key, values))
      return [{key: v} for v in values]

    def fixed(self, key, value, length=1):
      return self.sweep(key, [value] * length)

    def product(self, x, **kw):
      return x

    zipit = chainit = product

  kw = {'model': model} if model is not None and 'model' in inspect.signature(module.get_hyper).parameters else {}
  module.get_hyper(Hyper(), **kw)
  return swept


# ------------------------------------------------------------------ datasets
def jpeg(rng, h, w):
  img = rng.integers(0, 256, size=(h, w, 3)).astype(np.uint8)
  return tf.io.encode_jpeg(img).numpy()


class Builder:

  def __init__(self, features, n):
    self.features, self.num_examples = features, n

  def as_dataset(self):
    feats = self.features
    spec = {'image': tf.TensorSpec((), tf.string), 'label': tf.TensorSpec((), tf.int64), 'labels': tf.TensorSpec((None,), tf.int64),
            'real_label': tf.TensorSpec((None,), tf.int64), 'text': tf.TensorSpec((), tf.string), 'id': tf.TensorSpec((), tf.string)}
    return tf.data.Dataset.from_generator(lambda: iter(feats), output_signature=spec)

  def get_num_fake_examples(self, batch_size):
    return -len(self.features) % batch_size


class FakeAutoaugment:
  """Stands in for the package with RandAugment, which is not installed."""

  @staticmethod
  def distort_image_with_randaugment(image, num_layers, magnitude):
    require(int(num_layers) > 0 and 0 <= float(magnitude) <= 30, 'randaug arguments', num_layers=num_layers, magnitude=magnitude)
    # RandAugment works on uint8 images.
    require(image.dtype == tf.uint8, 'randaug needs an uint8 image', got=image.dtype)
    return image


class FakeText:
  """Stands in for the text ops of Big Vision, which is not installed."""

  class _Tokenizer:

    def string_to_id(self, s):
      return {'<pad>': 0}[s]

  @classmethod
  def create_tokenizer(cls, model, add_eos=True):
    return cls._Tokenizer()

  @staticmethod
  def tokenize(txt, tokenizer, max_len, *, pad_value, force_eos, multi_text):
    require(tf.convert_to_tensor(txt).dtype == tf.string, 'tokenize needs text')
    return tf.fill([int(max_len)], tf.cast(pad_value, tf.int32))


class patched_ops:  # pylint: disable=invalid-name
  """Context with the stand-ins."""

  def __enter__(self):
    self.ps = [mock.patch.object(pp_ops, 'autoaugment', FakeAutoaugment), mock.patch.object(pp_ops, 'bv_ops_text', FakeText)]
    for p in self.ps:
      p.start()

  def __exit__(self, *a):
    for p in self.ps:
      p.stop()


def make_datasets(dataset_config, features, batch):
  cfg = ml_collections.ConfigDict(dataset_config.to_dict())
  for v in cfg:
    cfg[v].batch_size = batch
    with cfg[v].unlocked():
      cfg[v].shuffle_buffer = 2   # (Same data, small buffer.)
  with patched_ops(), mock.patch.object(data_builder, 'get_dataset_builder', lambda name, split, **kw: Builder(features, len(features))):
    ds = input_pipeline.get_datasets(cfg)
    return ds, {k: next(iter(d)) for k, d in ds.items()}


def check_batch(b, n, num_classes, what, text=False):
  """One batch of a dataset of a config; returns the image size."""
  img = np.asarray(b['image'])
  require(img.ndim == 4 and img.shape[0] == n and img.shape[-1] == 3 and img.dtype == np.float32, f'{what}: images', shape=img.shape, dtype=img.dtype)
  require(img.shape[1] == img.shape[2], f'{what}: images are square', shape=img.shape)
  require(img.min() >= -1 - 1e-3 and img.max() <= 1 + 1e-3, f'{what}: values of the images are in [-1, 1]', lo=float(img.min()), hi=float(img.max()))
  require(img.min() < -0.3 and img.max() > 0.3, f'{what}: images of noise span [-1, 1]', lo=float(img.min()), hi=float(img.max()))
  if text:
    t = np.asarray(b['text'])
    require(t.ndim == 2 and t.shape[0] == n and np.issubdtype(t.dtype, np.integer), f'{what}: text', shape=t.shape)
    return img.shape[1]
  lab = np.asarray(b['labels'])
  require(lab.shape == (n, num_classes), f'{what}: labels are as many as the classes of the model', got=lab.shape, classes=num_classes)
  return img.shape[1]


def features_of(rng, n, num_classes):
  out = []
  for i in range(n):
    label = int(rng.integers(0, num_classes)) if i else num_classes - 1
    extra = sorted(int(x) for x in rng.choice(num_classes, size=int(rng.integers(0, 3)), replace=False))
    out.append(dict(image=jpeg(rng, int(rng.integers(30, 700)), int(rng.integers(30, 700))), label=label, labels=[label], real_label=extra, text='a caption', id=str(i)))
  return out


def variants_of(config):
  """The datasets of a config, as a dict of ConfigDicts."""
  if 'process' in config.dataset:
    return ml_collections.ConfigDict({'eval': config.dataset.to_dict()})
  return config.dataset


@st.composite
def pipeline_cases(draw):
  c = draw(st.sampled_from(ALL))
  return dict(config=c, n=draw(st.integers(1, 3)), seed=draw(seeds))


def run_pipeline(case, ctx):
  name, model = case['config']
  config = load(name, model)
  variants = variants_of(config)
  contrastive = 'text' in config.model
  rng = np.random.default_rng(case['seed'])
  num_classes = 17 if contrastive else config.model.num_classes
  n = case['n']
  feats = features_of(rng, n, num_classes)
  B = 4
  ndev = len(jax.devices())
  B = max(B, ndev)
  ds, batches = make_datasets(variants, feats, B)
  sizes = set()
  for v, b in batches.items():
    what = f'{name}: {v}'
    sizes.add(check_batch({k: np.asarray(x)[:min(n, B)] if v != 'train' else x for k, x in b.items() if k in ('image', 'labels', 'text')}, B if v == 'train' else min(n, B), num_classes, what, contrastive))
    if contrastive:
      continue
    lab = np.asarray(b['labels'])
    if v == 'train':
      require((lab.sum(-1) == 1).all(), f'{what}: one label per example')
      continue
    proc = variants[v].process
    want = np.zeros((B, num_classes))
    real = 'real_label' in proc
    for i, f in enumerate(feats[:B]):
      want[i, f['real_label'] if real else f['label']] = 1
    got = lab
    key = lambda m: sorted(tuple(np.flatnonzero(r)) for r in m)
    require(key(got) == key(want), f'{what}: labels of the evaluation batch', got=key(got), want=key(want))
    require(set(np.unique(got)) <= {0.0, 1.0}, f'{what}: labels are 0 or 1')
    valid = np.asarray(b[VALID])
    require(valid.sum() <= n, f'{what}: added examples are not valid', got=int(valid.sum()), n=n)
    # (The configs of the V-MoE paper count examples without real labels, the Soft MoE ones ask for leaving them out.)
    usable = sum(1 for f in feats[:B] if 'ignore_no_labels' not in proc or f['real_label'])
    require(valid.sum() == usable, f'{what}: exactly the real (and usable) examples are valid', got=int(valid.sum()), want=usable)
    ctx.more(1)
  require(len(sizes) == 1, f'{name}: all variants give images of the same size', got=sorted(sizes))
  # Few-shot data.
  if config.get('fewshot'):
    fs = config.fewshot
    with patched_ops():
      fn = input_pipeline.get_data_process_fn(fs.process)
    out = next(iter(Builder(feats, n).as_dataset().map(fn)))
    require(set(out) >= {'image', 'label'}, f'{name}: few-shot data', got=sorted(out))
    img = np.asarray(out['image'])
    require(img.shape == (min(sizes), min(sizes), 3), f'{name}: few-shot images have the size of the training images', got=img.shape, want=min(sizes))
    require(img.min() >= -1 - 1e-3 and img.max() <= 1 + 1e-3, f'{name}: few-shot image values')
    require(int(out['label']) == feats[0]['label'], f'{name}: few-shot label')
    main, shot = fs.main_task
    require(main in fs.datasets and shot in fs.shots, f'{name}: main few-shot task is one of the tasks', got=tuple(fs.main_task))
  # Swept fields exist and take the given type of values.
  for key, values in hyper_of(name, model):
    require(key.startswith('config.'), 'swept keys are fields of the config', got=key)
    fresh = load(name, model)
    for v in values:
      node, *rest = fresh, *key.split('.')[1:]
      for r in rest[:-1]:
        node = node[r]
      require(rest[-1] in node, f'{name}: swept field is not in the config', got=key)
      node[rest[-1]] = v
      ctx.more(1)
  patch = config.model.image.patch_size if contrastive else config.model.patch_size
  require(min(sizes) >= patch[0] and min(sizes) >= patch[1], f'{name}: images have at least one patch', size=min(sizes), patch=tuple(patch))
  ctx.nontriv(name, model, n)


# ------------------------------------------------------------------ abstract
def image_size(config):
  """Size of the training images, from the real pipeline."""
  rng = np.random.default_rng(0)
  contrastive = 'text' in config.model
  variants = variants_of(config)
  v = 'train' if 'train' in variants else 'eval'
  B = max(4, len(jax.devices()))
  _, b = make_datasets(ml_collections.ConfigDict({v: variants[v].to_dict()}), features_of(rng, 1, 17 if contrastive else config.model.num_classes), B)
  b = b[v]
  return {k: np.asarray(b[k]).shape[1:] for k in ('image', 'text', 'labels') if k in b}, {k: np.asarray(b[k]).dtype for k in ('image', 'text', 'labels') if k in b}


def flat(tree):
  return flax.traverse_util.flatten_dict(flax.serialization.to_state_dict(tree), sep='/')


def moe_of(model_config):
  return model_config.encoder.get('moe') or {}


@st.composite
def abstract_cases(draw):
  return dict(config=draw(st.sampled_from(ALL)), seed=draw(st.integers(0, 3)))


def run_abstract(case, ctx):
  name, model = case['config']
  config = load(name, model)
  if 'encoder' not in config.model and 'image' not in config.model:
    raise HarnessError(f'unexpected model config in {name}')
  contrastive = 'text' in config.model
  shapes, dtypes = image_size(config)
  variants = variants_of(config)
  B = (variants.train if 'train' in variants else variants.eval).batch_size
  mesh = partitioning.get_auto_logical_mesh(config.num_expert_partitions, jax.devices())
  require(mesh.axis_names == ('expert', 'replica'), 'axes of the mesh')
  tmp = tempfile.mkdtemp(prefix='c30_')
  try:
    with mesh:
      _abstract(name, model, config, contrastive, shapes, dtypes, B, mesh, tmp, ctx)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def check_groups(name, moe, tokens):
  if not moe.get('layers'):
    return
  g = moe['group_size']
  require(tokens % g == 0, f'{name}: groups divide the tokens of a batch', tokens=tokens, group_size=g)
  require((tokens // g) % moe['num_experts'] == 0, f'{name}: number of groups is a multiple of the number of experts', groups=tokens // g, experts=moe['num_experts'])


def check_params(name, config, params, model_cfg, prefix=''):
  """MoE layers are where the config says, with as many experts, and exactly they are partitioned."""
  moe = moe_of(model_cfg)
  layers = set(moe.get('layers') or ())
  L = model_cfg.encoder.num_layers
  found, dense, sharded = set(), set(), 0
  specs = flat(partitioning.tree_axis_resources_from_regexes(tree=params, axis_resources_regexes=config.params_axis_resources))
  for k, v in flat(params).items():
    if prefix and not k.startswith(prefix):
      continue
    m = re.search(r'encoderblock_([0-9]+)/(.*)$', k)
    is_expert = False
    if m:
      block = int(m.group(1))
      if m.group(2).startswith('Moe/'):
        found.add(block)
        if m.group(2).startswith('Moe/Mlp/'):
          is_expert = True
          require(v.shape[0] == moe['num_experts'], f'{name}: one set of parameters per expert', param=k, shape=v.shape)
      else:
        dense.add(block)
    spec = tuple(specs[k] or ())
    if is_expert:
      sharded += 1
      require(spec[:1] == ('expert',) and all(s is None for s in spec[1:]), f'{name}: experts are partitioned on the expert axis', param=k, spec=spec)
    else:
      require(all(s is None for s in spec), f'{name}: only experts are partitioned', param=k, spec=spec)
  require(found == layers, f'{name}: MoE layers', got=sorted(found), want=sorted(layers))
  require(dense == set(range(L)), f'{name}: number of blocks', got=len(dense), want=L)
  require(bool(layers) == bool(sharded), f'{name}: experts are partitioned')
  if layers:
    require(moe['num_experts'] % config.num_expert_partitions == 0, f'{name}: partitions divide the experts', experts=moe['num_experts'], partitions=config.num_expert_partitions)


def _abstract(name, model, config, contrastive, shapes, dtypes, B, mesh, tmp, ctx):
  sharding = jax.sharding.NamedSharding(mesh, P(('expert', 'replica')))
  SDS = lambda k: jax.ShapeDtypeStruct((B,) + tuple(shapes[k]), dtypes[k], sharding=sharding)
  total, _ = trainer.get_train_steps_and_epochs(train_steps=config.get('train_steps'), train_epochs=config.get('train_epochs'), train_batch_size=B, train_examples=1_281_167) if 'optimizer' in config else (1, 1)
  mod = contrastive_trainer if contrastive else trainer
  writer = Writer()
  keys = tuple(config.get('extra_rng_keys', []))
  if 'optimizer' not in config:
    # Attack: the model and the loss.
    net = trainer.create_flax_model(config=config.model, deterministic=True)
    from vmoe.projects.adversarial_attacks import restore  # pylint: disable=g-import-not-at-top
    loss_fn = restore.get_loss_including_auxiliary_fn(**config.loss)
    def f(rng, x, y):
      v = net.init({k: rng for k in ('params',) + keys}, x)
      z, metrics = net.apply(v, x, rngs={k: rng for k in keys})
      return v['params'], z, loss_fn(z, y, metrics)
    params, z, loss = jax.eval_shape(f, jax.random.PRNGKey(0), SDS('image'), SDS('labels'))
    require(z.shape == (B, config.model.num_classes), f'{name}: logits', got=z.shape)
    require(loss.shape in ((), (B,)), f'{name}: loss', got=loss.shape)
    check_params(name, config, params, config.model)
    tokens = B * ((shapes['image'][0] // config.model.patch_size[0]) * (shapes['image'][1] // config.model.patch_size[1]) + (config.model.classifier == 'token'))
    check_groups(name, moe_of(config.model), tokens)
    require(config.num_updates > 0 and config.max_epsilon > 0, f'{name}: the attack is enabled')
    ctx.nontriv(name)
    return
  net = mod.create_flax_model(config=config.model, deterministic=False)
  inputs = (SDS('image'), SDS('text')) if contrastive else (SDS('image'),)
  init = mod.make_create_train_state_fn(model=net, optimizer_config=config.optimizer, input_shape_dtypes=inputs, train_steps=total, extra_rng_keys=keys, seed=config.get('seed', 0))
  state = jax.eval_shape(init)
  summarizer = mod.create_tree_summarizer(config.get('summarize_arrays'))
  if contrastive:
    step = functools.partial(mod.train_step, loss_fn=mod.sigmoid_loss, microsteps=config.get('microsteps'), summarizer=summarizer)
    args = inputs
  else:
    train_loss, eval_loss, pred = trainer.get_loss_fn(**config.loss)
    step = functools.partial(mod.train_step, loss_fn=train_loss, microsteps=config.get('microsteps'), summarizer=summarizer)
    if config.get('adversarial', {}):
      step = mod.wrap_train_step_with_adversarial_attack(step, train_loss, **config.adversarial.to_dict())
    if config.get('mixup', {}):
      step = mod.wrap_train_step_with_mixup(step, partition_spec=P(mesh.axis_names), **config.mixup.to_dict())
    args = (SDS('image'), SDS('labels'))
  new_state, metrics = jax.eval_shape(step, state, *args)
  sig = lambda t: {k: (v.shape, v.dtype) for k, v in flat(t).items() if hasattr(v, 'shape')}
  require(sig(new_state) == sig(state), f'{name}: a training step keeps the shapes and types of the state', diff=sorted(set(sig(new_state).items()) ^ set(sig(state).items()))[:3])
  require('total_loss' in metrics and metrics['total_loss'].shape == (), f'{name}: loss of a training step')
  # Parameters: MoE layers and partitioning.
  if contrastive:
    check_params(name, config, state.params, config.model.image, 'img/' if any(k.startswith('img/') for k in flat(state.params)) else 'image/')
    img_cfg = config.model.image
  else:
    check_params(name, config, state.params, config.model)
    img_cfg = config.model
  # State: sharded like the parameters.
  opt = flat(partitioning.tree_axis_resources_from_regexes(tree=state, axis_resources_regexes=config.params_axis_resources))
  for k, spec in opt.items():
    if spec is None or k not in flat(state):
      continue
    expert = '/Moe/Mlp/' in k
    require((tuple(spec)[:1] == ('expert',)) == expert, f'{name}: partitioning of the state', leaf=k, spec=tuple(spec))
  tokens = B * ((shapes['image'][0] // img_cfg.patch_size[0]) * (shapes['image'][1] // img_cfg.patch_size[1]) + (img_cfg.get('classifier') == 'token')) * (moe_of(img_cfg).get('ensemble_size') or 1)
  check_groups(name, moe_of(img_cfg), tokens)
  # Weight decay rules all refer to some parameter.
  wd = config.optimizer.get('weight_decay')
  if wd is not None and not isinstance(wd, (int, float)):
    names = list(flat(state.params))
    left = set(names)
    for rx, _ in wd:
      hit = {k for k in left if re.search(rx, k)}
      require(hit, f'{name}: a weight decay rule applies to no parameter', rule=rx)
      left -= hit
  # Schedule: warmup and cooldown fit in the training.
  lr = config.optimizer.learning_rate
  require(lr.get('warmup_steps', 0) + lr.get('cooldown_steps', 0) < total, f'{name}: the learning rate schedule fits in the training', total=total)
  # Hooks accept the options of the config.
  mod.create_profile_hook(workdir=tmp, **config.get('profile', {}))
  progress = mod.create_progress_hook(writer=writer, first_step=1, train_steps=total, **config.get('report_progress', {}))
  mgr = mod.create_checkpoint_manager(workdir=tmp, **config.get('save_checkpoint', {}))
  mgr.close()
  base = config.model.copy_and_resolve_references()
  before = base.to_json()
  eval_cfg = base
  if not contrastive:
    evals = {k: Dataset([{'image': np.zeros((len(jax.devices()),) + tuple(shapes['image']), np.float32)}]) for k in variants_of(config) if k != 'train'}
    require(evals, f'{name}: there is evaluation data')
    _, eval_cfg = trainer.create_evaluation_hook(base_model_config=base, writer=writer, progress_hook=progress, datasets=evals, loss_fn=eval_loss, label_pred_fn=pred, first_step=1, train_steps=total, extra_rng_keys=keys, **config.get('evaluate', {}))
    enet = trainer.create_flax_model(config=eval_cfg.to_dict(), deterministic=True)
    def ev(params, rng, x, y):
      z, _ = enet.apply({'params': params}, x, rngs={k: rng for k in keys})
      return z, eval_loss(z, y), pred(z)
    z, loss, lab = jax.eval_shape(ev, state.params, jax.random.PRNGKey(0), *args)
    M = moe_of(config.model).get('ensemble_size') or 1
    require(z.shape == (B * M, config.model.num_classes), f'{name}: logits in evaluation', got=z.shape)
    require(loss.shape[0] == B and lab.shape == (B,), f'{name}: loss and predictions in evaluation', loss=loss.shape, pred=lab.shape)
  if config.get('fewshot'):
    seen = {}
    sig_action, sig_data = inspect.signature(fewshot.FewShotPeriodicAction), inspect.signature(input_pipeline.get_dataset)
    def fake(**kw):
      bound = sig_action.bind(**kw).arguments
      sig_data.bind(variant='fewshot', name='n', split='s', **bound.get('dataset_kwargs', {}))
      seen.update(kw)
    with mock.patch.object(fewshot, 'FewShotPeriodicAction', fake):
      mod.create_fewshot_hook(base_model_config=eval_cfg, writer=writer, progress_hook=progress, first_step=1, train_steps=total, extra_rng_keys=keys, **config.get('fewshot', {}))
    require(seen.get('process') == config.fewshot.process and dict(seen['datasets']) == config.fewshot.datasets.to_dict(), f'{name}: few-shot data options', got=seen)
    feat, _ = jax.eval_shape(lambda p, x, r: seen['apply_fn']({'params': p}, x, rngs={k: r for k in keys}), state.params, SDS('image'), jax.random.PRNGKey(0))
    want = img_cfg.get('representation_size') or img_cfg.hidden_size
    require(feat.shape == (B, want), f'{name}: few-shot features are the representation of the image', got=feat.shape, want=(B, want))
  if contrastive:
    for kind, make in (('retrieval', mod.create_retrieval_hook), ('zeroshot', mod.create_zeroshot_hook)):
      if config.get(kind):
        make(base_model_config=base, writer=writer, progress_hook=progress, first_step=1, train_steps=total, data_sharding=sharding, **config.get(kind))
        for proc in [config[kind].get('pp_img')] + [d.get('pp_img') for d in config[kind].datasets.values()]:
          if proc:
            with patched_ops():
              out = input_pipeline.get_data_process_fn(proc)({'image': tf.zeros((40, 50, 3), tf.uint8)})
            require(tuple(out['image'].shape) == tuple(shapes['image']), f'{name}: {kind} images', got=out['image'].shape, want=shapes['image'])
    # Both towers give embeddings of the same size.
    enet = mod.create_flax_model(config=base.to_dict(), deterministic=True)
    zi, _ = jax.eval_shape(lambda p, x: enet.apply({'params': p}, images=x, texts=None), state.params, SDS('image'))
    zt, _ = jax.eval_shape(lambda p, t: enet.apply({'params': p}, images=None, texts=t), state.params, SDS('text'))
    require(zi.shape == zt.shape, f'{name}: embeddings of images and texts', img=zi.shape, txt=zt.shape)
  require(base.to_json() == before, f'{name}: building the hooks changed the configuration of the model')
  ctx.nontriv(name, model)


# -------------------------------------------------------- descriptions
SIZES = {'S': (512, 2048, 8, 8), 'B': (768, 3072, 12, 12), 'L': (1024, 4096, 24, 16), 'H': (1280, 5120, 32, 16)}
PAIRS = [('S', 32), ('B', 32), ('B', 16), ('L', 32), ('L', 16), ('H', 14)]


@st.composite
def description_cases(draw):
  v, p = draw(st.sampled_from(PAIRS))
  where = draw(st.sampled_from(['Every', 'Last']))
  text = dict(v=v, p=p, E=draw(st.sampled_from([1, 2, 4, 8, 16, 32, 100])), K=draw(st.integers(1, 4)), where=where,
              n=draw(st.integers(1, 9)), epochs=draw(st.integers(1, 400)))
  return dict(d=text, image=draw(st.sampled_from([1, 2, 7, 14])) * p, classes=draw(st.sampled_from([2, 10, 1000])), which=draw(st.sampled_from(['common', 'common', 'im21k', 'adv', 'vit'])),
              bad=draw(st.sampled_from([None, None, None, 'lower', 'space', 'noepochs', 'tail', 'where'])))


def run_descriptions(case, ctx):
  from vmoe.configs.vmoe_paper import common  # pylint: disable=g-import-not-at-top
  from vmoe.configs.vmoe_paper import pretrain_imagenet21k as im21k  # pylint: disable=g-import-not-at-top
  from vmoe.projects.adversarial_attacks.configs import common as adv  # pylint: disable=g-import-not-at-top
  d = case['d']
  s = f"ViT-{d['v']}/{d['p']}, E={d['E']}, K={d['K']}, {d['where']} {d['n']}, {d['epochs']} Epochs"
  bad = {None: s, 'lower': s.replace('Epochs', 'epochs'), 'space': s.replace(', ', ',', 1), 'noepochs': s.rsplit(',', 1)[0], 'tail': s + ' x', 'where': s.replace('Every', 'First').replace('Last', 'First')}[case['bad']]
  which = case['which']
  if case['bad']:
    for f in (lambda: common.get_vmoe_config(bad, case['image'], case['classes']), lambda: common.get_optimizer_config(bad), lambda: common.get_num_epochs(bad), lambda: im21k.get_vmoe_params(bad), lambda: im21k.get_num_epochs(bad),
              lambda: im21k.get_optimizer_params(bad)):
      try:
        f()
      except ValueError:
        continue
      require(False, 'a malformed description is accepted', got=bad)
    ctx.nontriv('bad', case['bad'])
    return
  H, F, L, A = SIZES[d['v']]
  tokens = (case['image'] // d['p']) ** 2 + 1
  if which == 'vit':
    cfg = adv.get_vit_config(s, case['classes'])
    require(cfg.hidden_size == H and cfg.transformer.num_layers == L and cfg.transformer.mlp_dim == F and cfg.transformer.num_heads == A, 'size of the ViT', got=cfg.to_dict(), want=(H, F, L, A))
    require(tuple(cfg.patches.size) == (d['p'],) * 2 and cfg.num_classes == case['classes'], 'patches and classes of the ViT')
    require(adv.get_num_epochs(s) == d['epochs'], 'epochs')
    ctx.nontriv('vit', d['v'], d['p'])
    return
  if which == 'common':
    cfg, ep, opt, classes = common.get_vmoe_config(s, case['image'], case['classes']), common.get_num_epochs(s), common.get_optimizer_config(s), case['classes']
  elif which == 'im21k':
    cfg, ep, opt, classes = im21k.get_vmoe_params(s, image_size=case['image']), im21k.get_num_epochs(s), im21k.get_optimizer_params(s), 21843
  else:
    cfg, ep, opt, classes = adv.get_vmoe_config(s, case['classes'], case['image']), adv.get_num_epochs(s), None, case['classes']
    # With 2 experts the load loss is not finite, other auxiliary loss is used.
    r = cfg.encoder.moe.router
    if d['E'] <= 2:
      require(r.importance_loss_weight == 0 and r.load_loss_weight == 0 and r.gshard_loss_weight > 0, 'auxiliary losses with two experts', got=r.to_dict())
    else:
      require(r.importance_loss_weight > 0 and r.load_loss_weight > 0 and not r.get('gshard_loss_weight'), 'auxiliary losses', got=r.to_dict())
  e = cfg.encoder
  require((cfg.hidden_size, e.mlp_dim, e.num_layers, e.num_heads) == (H, F, L, A), 'size of the model', got=(cfg.hidden_size, e.mlp_dim, e.num_layers, e.num_heads), want=(H, F, L, A))
  require(tuple(cfg.patch_size) == (d['p'],) * 2 and cfg.num_classes == classes, 'patches and classes')
  require(e.moe.num_experts == d['E'] and e.moe.router.num_selected_experts == d['K'], 'experts', got=(e.moe.num_experts, e.moe.router.num_selected_experts))
  if d['where'] == 'Every':
    layers = [b - 1 for b in range(1, L + 1) if b % d['n'] == 0]
  else:
    evens = [b - 1 for b in range(1, L + 1) if b % 2 == 0]
    layers = evens[max(0, len(evens) - d['n']):]
  require(list(e.moe.layers) == layers, 'position of the MoE layers', got=list(e.moe.layers), want=layers, description=s)
  require(e.moe.group_size == 8 * tokens, 'groups have the tokens of 8 images', got=e.moe.group_size, want=8 * tokens)
  require(ep == d['epochs'], 'epochs', got=ep)
  if opt is not None:
    want = {('S', 32): 1e-3, ('B', 32): 8e-4, ('B', 16): 8e-4, ('L', 32): 6e-4, ('L', 16): 4e-4, ('H', 14): 3e-4}[(d['v'], d['p'])]
    require(opt.learning_rate.peak_value == want, 'peak learning rate', got=opt.learning_rate.peak_value, want=want)
  ctx.nontriv(which, d['v'], d['p'], d['where'], d['n'])


# ------------------------------------------------- fine-tuning initialisation
def shrink(cfg):
  """A small model with the structure of the given one."""
  cfg = ml_collections.ConfigDict(cfg.to_dict())
  with cfg.unlocked():
    cfg.hidden_size = 8
    if cfg.get('representation_size'):
      cfg.representation_size = 8
    cfg.encoder.num_heads = 2
    cfg.encoder.mlp_dim = 6
    cfg.encoder.num_layers = 2
    cfg.encoder.moe.layers = (1,)
    # A batch of 8 images has exactly one group per device or a multiple.
  return cfg


@st.composite
def init_cases(draw):
  names = [c for c in SINGLE if 'initialization' in load(*c)]
  return dict(config=draw(st.sampled_from(names)), seed=draw(seeds), same=draw(st.booleans()), mesh=draw(st.sampled_from([1, 2, 4])))


def run_init(case, ctx):
  name, _ = case['config']
  config = load(name, None)
  shapes, dtypes = image_size(config)
  B = 8
  mesh = partitioning.get_auto_logical_mesh(case['mesh'], jax.devices())
  tmp = tempfile.mkdtemp(prefix='c30_')
  try:
    with mesh:
      small = shrink(config.model)
      tokens = (shapes['image'][0] // small.patch_size[0]) ** 2 + 1
      with small.unlocked():
        small.encoder.moe.group_size = B // len(jax.devices()) * tokens * (moe_of(small).get('ensemble_size') or 1)
      sharding = jax.sharding.NamedSharding(mesh, P(('expert', 'replica')))
      images = jax.ShapeDtypeStruct((B,) + tuple(shapes['image']), jnp.float32, sharding=sharding)
      keys = tuple(config.extra_rng_keys)
      init = trainer.make_create_train_state_fn(model=trainer.create_flax_model(config=small, deterministic=False), optimizer_config=config.optimizer, input_shape_dtypes=(images,), train_steps=config.train_steps, extra_rng_keys=keys,
                                                seed=case['seed'] % 1000)
      shape = jax.eval_shape(init)
      specs = partitioning.tree_axis_resources_from_regexes(tree=shape, axis_resources_regexes=config.params_axis_resources)
      shardings = jax.tree_util.tree_map(lambda s: jax.sharding.NamedSharding(mesh, s), specs, is_leaf=lambda s: isinstance(s, P))
      state = jax.jit(init, out_shardings=shardings)()
      # The upstream parameters: the same model at 224px, with other classes.
      rng = np.random.default_rng(case['seed'])
      old = {k: np.asarray(v) for k, v in flat(state).items() if hasattr(v, 'shape')}
      source = {}
      gs = tokens if case['same'] else (224 // small.patch_size[0]) ** 2 + 1
      for k, v in old.items():
        if not k.startswith('params/'):
          continue
        kk = k[len('params/'):]
        s = v.shape
        if kk.endswith('pos_embedding'):
          s = (1, gs, v.shape[-1])
        elif kk.startswith('head/'):
          s = s[:-1] + (13,)
        elif 'Moe/Router/dense' in kk and 'ensemble' in small.name.lower():
          # The upstream EEE checkpoint has a single matrix.
          s = (v.shape[-3] * v.shape[-2], v.shape[-1]) if v.ndim == 3 else v.shape
        source[kk] = rng.normal(size=s).astype(np.float32)
      if case['seed'] % 2:
        source['pre_logits/kernel'] = source.get('pre_logits/kernel', rng.normal(size=(8, 8)).astype(np.float32))
        source['pre_logits/bias'] = source.get('pre_logits/bias', rng.normal(size=(8,)).astype(np.float32))
      if 'pre_logits/kernel' in source and not any('pre_logits' in k for k in old) and not any('pre_logits' in r[0] for r in config.initialization.rules):
        del source['pre_logits/kernel'], source['pre_logits/bias']
      prefix = os.path.join(tmp, 'ckpt')
      partitioned.save_checkpoint(prefix, flax.traverse_util.unflatten_dict({tuple(k.split('/')): jnp.asarray(v) for k, v in source.items()})).get()
      kw = config.initialization.to_dict()
      kw['prefix'] = prefix
      new = trainer.initialize_train_state_from_checkpoint(train_state=state, mesh=mesh, **kw)
      got = {k: np.asarray(v) for k, v in flat(new).items() if hasattr(v, 'shape')}
      require(set(got) == set(old), f'{name}: leaves of the initialised state')
      skip_pre = any('pre_logits' in r[0] for r in config.initialization.rules)
      for k, v in got.items():
        if k.startswith('params/') and not k.startswith('params/head/') and not (skip_pre and 'pre_logits' in k):
          src = source[k[len('params/'):]]
          if k.endswith('pos_embedding') and src.shape != v.shape:
            npu.close(v, zoom(src, v.shape), f'{name}: resized position embeddings', rtol=1e-3, atol=1e-4)
          else:
            npu.exact(v, src.reshape(v.shape), f'{name}: restored parameter {k}')
          require(src.size == v.size or k.endswith('pos_embedding'), f'{name}: size of {k}')
        else:
          npu.exact(v, old[k], f'{name}: {k} is kept')
      require(int(new.step) == 0, f'{name}: fine-tuning starts at step 0')
      ctx.nontriv(name, case['same'], case['mesh'])
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def zoom(src, shape):
  import scipy.ndimage  # pylint: disable=g-import-not-at-top
  tok, grid = src[:, :1], src[0, 1:]
  a, b = int(math.isqrt(grid.shape[0])), int(math.isqrt(shape[1] - 1))
  grid = scipy.ndimage.zoom(grid.reshape(a, a, -1), (b / a, b / a, 1), order=1)
  return np.concatenate([tok, grid.reshape(1, b * b, -1)], axis=1)


# ------------------------------------------------------------------ attack
def run_attack(case, ctx):
  name, _ = case['config']
  config = load(name, None)
  rng = np.random.default_rng(case['seed'])
  small = shrink(config.model)
  with small.unlocked():
    small.patch_size = (32, 32)
  n = len(jax.devices())
  B = 2 * n
  tokens = (384 // 32) ** 2 + (small.classifier == 'token')
  with small.unlocked():
    small.encoder.moe.group_size = tokens * 2
  tmp = tempfile.mkdtemp(prefix='c30_')
  try:
    with config.unlocked():
      config.model = small
      config.num_updates = case['updates']
      config.restore.prefix = os.path.join(tmp, 'ckpt')
      config.dataset.batch_size = B
    net = trainer.create_flax_model(config=small, deterministic=True)
    mesh = partitioning.get_auto_logical_mesh(config.num_expert_partitions, jax.devices())
    with mesh:
      v = jax.jit(lambda: net.init({k: jax.random.PRNGKey(0) for k in ('params',) + tuple(config.extra_rng_keys)}, jnp.zeros((B, 384, 384, 3))))()
    params = jax.tree_util.tree_map(lambda x: jnp.asarray(rng.normal(size=x.shape), jnp.float32) * 0.3, flax.core.unfreeze(v['params']))
    partitioned.save_checkpoint(config.restore.prefix, params).get()
    feats = features_of(rng, case['n'], 1000)
    writer = Writer()
    with patched_ops(), mock.patch.object(data_builder, 'get_dataset_builder', lambda **kw: Builder(feats, len(feats))):
      attack_lib.run_pgd_attack(config, tmp, mesh, writer)
    out = dict(np.load(os.path.join(tmp, 'pgd_state.npz')))
    require(int(out['num_images']) == len(feats), f'{name}: images attacked', got=int(out['num_images']), want=len(feats))
    require(np.isfinite(out['sum_loss']).all(), f'{name}: losses')
    require(out['sum_loss'][1] >= out['sum_loss'][0] - 1e-3 * (1 + abs(out['sum_loss'][0])) * 10, f'{name}: the attack lowered the loss', got=out['sum_loss'].tolist())
    require(any(k.startswith('sum_iou_experts') for k in out), f'{name}: routing changes')
    ctx.nontriv(name, case['n'], case['updates'])
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


ATTACK = [c for c in SINGLE if 'adversarial_attacks' in c[0]]
FINETUNE = [c for c in SINGLE if 'initialization' in load(*c)]
# --------------------------------------------------------------------- facts
CLASSES = {'cifar10': 10, 'cifar100': 100, 'imagenet2012': 1000, 'imagenet_v2': 1000, 'imagenet2012_real': 1000}
# Examples of the splits used for training.
TRAIN_EXAMPLES = {'cifar10': 50_000, 'cifar100': 50_000, 'imagenet2012': 1_281_167}
# hidden size, MLP size, blocks, heads of the models of the Soft MoE paper; MoE layers and experts.
SOFT_SIZES = {'s': (384, 1536, 12, 6), 'b': (768, 3072, 12, 12), 'l': (1024, 4096, 24, 16), 'h': (1280, 5120, 32, 16)}
SOFT_LAST = {'s': 6, 'b': 6, 'l': 12, 'h': 16}
SOFT_EXPERTS = {'s16': 128, 's14': 256, 'b16': 128, 'l16': 128, 'h14': 256}


def examples_of(split, total):
  """Indices of the examples of a split among `total` ones, per base split."""
  out = {}
  for part in split.split('+'):
    m = re.fullmatch(r'\s*(\w+)(?:\[(-?\d*)(%?):(-?\d*)(%?)\])?\s*', part)
    if not m:
      raise HarnessError(f'unknown split {split!r}')
    name, a, ap, b, bp = m.groups()
    pos = lambda x, p, d: d if not x else (int(round(int(x) * total / 100)) if p else int(x)) % (total + 1)
    out.setdefault(name, set()).update(range(pos(a, ap, 0), pos(b, bp, total)))
  return out


def run_facts(case, ctx):
  name, model = case['config']
  config = load(name, model)
  variants = variants_of(config)
  contrastive = 'text' in config.model
  for v in variants:
    ds = variants[v].name
    if ds in CLASSES and not contrastive:
      require(config.model.num_classes == CLASSES[ds], f'{name}: {v}: the model has the classes of the dataset', dataset=ds, got=config.model.num_classes, want=CLASSES[ds])
  if 'train' in variants:
    # Examples per split: the real number when it is known, as percentages and
    # absolute positions may be mixed.
    total = TRAIN_EXAMPLES.get(variants.train.name, 400_000)
    train = examples_of(variants.train.split, total)
    require(any(train.values()), f'{name}: there are training examples')
    for v in variants:
      if v == 'train' or variants[v].name != variants.train.name:
        continue
      ev = examples_of(variants[v].split, total)
      require(any(ev.values()), f'{name}: there are examples to evaluate', variant=v)
      for base, idx in ev.items():
        require(not idx & train.get(base, set()), f'{name}: no example used for evaluation is used for training', variant=v, train=variants.train.split, other=variants[v].split, examples=total)
  if config.get('fewshot'):
    for k, task in config.fewshot.datasets.items():
      a, b = (examples_of(task[i], 10_000) for i in (1, 2)) if isinstance(task, (tuple, list)) and len(task) == 3 else ({}, {})
      for base, idx in b.items():
        require(not idx & a.get(base, set()), f'{name}: few-shot test examples are not training examples', task=k)
  if model:
    kind, backbone = model.split('-')
    cfg = config.model.image if contrastive else config.model
    e = cfg.encoder
    want = SOFT_SIZES[backbone[0]]
    got = (cfg.hidden_size, e.mlp_dim, e.num_layers, e.num_heads)
    require(got == want, f'{name}: size of the model', model=model, got=got, want=want)
    require(tuple(cfg.patch_size) == (int(backbone[1:]),) * 2, f'{name}: size of the patches', model=model, got=tuple(cfg.patch_size))
    layers = tuple((e.get('moe') or {}).get('layers') or ())
    if kind == 'vit':
      require(not layers, f'{name}: the ViT baseline has no MoE layers', got=layers)
    else:
      L, n = want[2], SOFT_LAST[backbone[0]]
      require(layers == tuple(range(L - n, L)), f'{name}: the last half of the blocks are MoE layers', model=model, got=layers)
      require(e.moe.num_experts == SOFT_EXPERTS[backbone], f'{name}: number of experts', model=model, got=e.moe.num_experts)
  ctx.nontriv(name, model)


SUBS = [
    Sub('facts', st.builds(lambda c: dict(config=list(c)), st.sampled_from(ALL)), run_facts, quick=8, thorough=100, examples=tuple(dict(config=list(c)) for c in ALL)),
    Sub('attack', st.builds(lambda c, s, n, u: dict(config=c, seed=s, n=n, updates=u), st.sampled_from(ATTACK), seeds, st.integers(1, 9), st.integers(1, 3)), run_attack, quick=1, thorough=20),
    Sub('pipeline', pipeline_cases(), run_pipeline, quick=10, thorough=200, examples=tuple(dict(config=list(c), n=3, seed=i) for i, c in enumerate(SINGLE))),
    Sub('abstract', abstract_cases(), run_abstract, quick=6, thorough=100,
        examples=tuple(dict(config=list(c), seed=0) for c in SINGLE) + tuple(dict(config=list(c), seed=0) for c in ALL if c[1] and c[1].endswith('s16'))),
    Sub('descriptions', description_cases(), run_descriptions, quick=400, thorough=10000),
    Sub('init', init_cases(), run_init, quick=4, thorough=80, examples=tuple(dict(config=list(c), seed=i, same=False, mesh=4) for i, c in enumerate(FINETUNE))),
]
