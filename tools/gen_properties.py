"""Writes /verif/properties.jsonl (the single place where properties are edited)."""
import json, os, sys

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
  anchors = {'files': files,
             'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
  if observe:
    anchors['observe_at'] = observe
  if state:
    anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
  anchors['hook_needed'] = None
  assert len(title) <= 80, title
  P.append({'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': anchors})


prop('C01', 'Top-experts-per-item routing: choice rank, item priority and capacity',
     'For every gate matrix, each item is assigned to (at most) its K highest-gate experts, no expert of a group ever '
     'holds more than its capacity, and an assignment is dropped only because the expert was already filled by '
     'assignments with priority: every top-1 choice precedes every top-2 choice and so on, and within a choice rank items go in '
     'position order (vanilla) or in decreasing order of their largest gate, ties by position (batch priority). '
     'Every kept assignment occupies its own buffer slot and carries exactly the gate as its combine weight, dropped and '
     'unselected pairs contribute nothing, and the einsum and indices implementations make identical decisions.',
     ['inputs', 'configurations'], 'all gate matrices (with ties, extreme and non-normalised values), group sizes, numbers of experts, K, capacities, both dispatchers, both priorities',
     'moe_test.py checks two or three hand-written 3-5 item gate matrices; ties, K=E, capacity 1 and interactions of rank and priority are not sampled.',
     ['vmoe/moe.py'],
     [('cumsum over K-major one-hot assignment', 'vmoe/moe.py:_get_top_experts_per_item_common'),
      ('one_hot beyond capacity is zero', 'vmoe/moe.py:_get_top_experts_per_item_einsum_dispatcher'),
      ('out-of-range scatter ignored and gather masked', 'vmoe/moe.py:ExpertIndicesDispatcher')],
     ['get_top_experts_per_item_dispatcher(...).dispatch / .combine'])

prop('C02', 'Dispatch and combine transport every item to its experts and back unchanged',
     'For every dispatcher (dense, einsum, indices, bfloat16-wrapped) and every number of groups, experts, capacity and item shape, '
     'expert e receives exactly the items routed to it (each group dispatched independently, unused buffer slots zero) and the combined output of an item is the '
     'weight-times-output sum over the experts that processed it, so a sparse MoE layer equals applying each expert with its own parameters to '
     'its own items and combining, whatever the pytree structure of inputs/outputs, auxiliary outputs or output item shape, and whether or not it is jitted or sharded. '
     'The bfloat16 wrapper only changes floating-point precision, never the dtype of results, and leaves integer data intact.',
     ['inputs', 'configurations'], 'all G (multiple of E or not), S, E, C, trailing shapes, dtypes, routings, expert functions',
     'moe_test.py uses a handful of fixed shapes and checks mostly einsum shapes/values for one group count.',
     ['vmoe/moe.py'],
     [('group/expert axis exchange and its inverse', 'vmoe/moe.py:_dispatch, _receive'),
      ('scatter/gather of items', 'vmoe/moe.py:_scatter_nd'),
      ('lifted vmap over experts', 'vmoe/moe.py:sparse_moe_spmd')],
     ['BaseDispatcher.dispatch', 'BaseDispatcher.combine', 'sparse_moe_spmd(...).apply'])

prop('C03', 'Top-items-per-expert routing: every expert takes exactly its best items',
     'For every gate matrix each expert processes exactly `capacity` distinct items, and they are items with the largest gates for that expert (ties by position); '
     'the combine weight of each selected pair is its gate and everything else contributes nothing. '
     'The reported metrics (min/max number of experts per item, min/max selected gate, fraction of items processed by at least t experts for every power of two up to E and E itself) equal the values recomputed from the routing.',
     ['inputs', 'configurations'], 'all gate matrices, S, E, capacities up to S, given directly or by capacity factor',
     'one hand-written matrix in moe_test.py.',
     ['vmoe/moe.py'],
     [('top_k over the transposed gates', 'vmoe/moe.py:_get_top_items_per_expert_einsum_dispatcher')],
     ['get_top_items_per_expert_dispatcher'])

prop('C04', 'Expert capacity is the requested share of the tokens, never below one',
     'The capacity for N assignments over E experts with factor f is ceil(N*f/E) or the nearest integer, as asked, increased to the smallest multiple of the requested alignment (if any), '
     'so with f >= 1 and ceil a perfectly balanced routing never drops an item. '
     'Unknown rounding modes and parameters leading to a capacity below one raise an error; top-experts routing uses N = S*K and top-items routing N = S, and giving both or neither of capacity and capacity factor is rejected.',
     ['inputs', 'configurations'], 'all token counts, expert counts, factors, rounding modes and alignments',
     'four parameterised cases.',
     ['vmoe/moe.py'],
     [('compute_capacity', 'vmoe/moe.py:compute_capacity'), ('N = S*K / N = S', 'vmoe/moe.py:get_top_*_dispatcher')],
     ['compute_capacity', 'capacity of the returned dispatchers'])

prop('C05', 'Noisy routers: gates, auxiliary losses and determinism',
     'The router dispatches each group according to the softmax over experts of the linear gating logits plus, only when not deterministic and noise_std > 0, independent Gaussian noise of standard deviation noise_std/E drawn from the gating rng; '
     'with the noise off it is a pure function of the inputs. '
     'Per group, the importance, gshard and (noise only) load losses equal their published formulas, the auxiliary loss is their weighted sum over the positive weights, and no group influences another group\'s routing or losses.',
     ['inputs', 'configurations'], 'all inputs, expert counts, K, noise levels, loss weights, seeds, group counts',
     'routing_test.py checks shapes and one constant example per loss.',
     ['vmoe/nn/routing.py'],
     [('vmapped losses per group', 'vmoe/nn/routing.py:_compute_gates_softmax_and_metrics'),
      ('weighted sum', 'vmoe/nn/routing.py:_weighted_sum')],
     ['NoisyTopExpertsPerItemRouter.apply', 'NoisyTopItemsPerExpertRouter.apply'])

prop('C06', 'Ensemble routing keeps ensemble members isolated',
     'With an ensemble of M members interleaved in each group, the items of member m are only ever dispatched to the m-th block of num_experts/M experts, and '
     'their gates, combine weights and routing decisions are those of an independent router on that member\'s own items and gate columns. '
     'The grouping by ensemble member is an exact, invertible permutation of items, and each loss is reported per group and member from that member\'s gates alone.',
     ['inputs', 'configurations'], 'all ensemble sizes, group sizes, expert counts, inputs and noise settings',
     'ensemble_routing_test.py samples one configuration per function.',
     ['vmoe/nn/ensemble_routing.py'],
     [('reshape to/from per-member groups', 'vmoe/nn/ensemble_routing.py'),
      ('block-diagonal gates', 'vmoe/nn/ensemble_routing.py')],
     ['NoisyTopExpertsPerItemEnsembleRouter.apply'])

prop('C07', 'Soft MoE: slots and outputs are convex combinations',
     'For every input the soft router gives every slot of every expert a convex combination of the items of its own group (weights softmax over items) and every item a convex combination over all slots of all experts (weights softmax over slots), computed from the scaled similarity of the normalised inputs and slot parameters plus, only when stochastic, Gaussian noise. '
     'The output is equivariant to permutations of the items of a group, groups are independent, and an identity expert keeps every output coordinate within the range of that coordinate over the items.',
     ['inputs', 'configurations'], 'all inputs, numbers of experts/slots/items/groups, compute dtypes and options',
     'router_test.py checks shapes and rejects bad arguments.',
     ['vmoe/projects/soft_moe/router.py'],
     [('softmax over items / over (expert, slot)', 'vmoe/projects/soft_moe/router.py:SoftRouter')],
     ['SoftRouter.apply(...).dispatch/.combine'])

prop('C08', 'Optimal-transport routers: capacity, normalisation and weight semantics',
     'The sparsity-constrained optimal-transport routers return, for every input, a dispatcher in which every expert holds at most its capacity of items per group, the k-sparse and sparse projections give transport plans satisfying the marginal constraints up to solver tolerance with no more nonzeros per column than allowed, '
     'and items are routed by the transport plan while the combine weights are the softmax gates (of the selected pairs) where so configured. '
     'Deterministic routers are pure functions of their input and each group is routed independently.',
     ['inputs', 'configurations'], 'all inputs, group sizes, expert counts, solver settings',
     'tests run one or two configurations per router and check shapes/ranges.',
     ['vmoe/projects/sparsity_constrained_ot/ot_routing.py', 'vmoe/projects/sparsity_constrained_ot/kl_projection_routing.py',
      'vmoe/projects/sparsity_constrained_ot/ksparse_projection_routing.py', 'vmoe/projects/sparsity_constrained_ot/sparse_projection_routing.py'],
     [('replacement of combine weights by gates', 'ot_routing.py'), ('solver projections', '*_projection_routing.py')],
     ['router.apply'])

prop('C09', 'Partitioned checkpoints restore exactly what was saved under any layout',
     'Saving a tree of device arrays (any dtypes and shapes, zero-size included, however sharded) and restoring it returns exactly the same structure, shapes, dtypes and bytes, '
     'whatever the sharding at save and at restore, the number of shard files, the chunk size limit, the number of processes that wrote it, the restore concurrency limit and whether a structure template is given. '
     'Restored arrays take the sharding of the template, a template of another structure raises an error or at least never gives wrong data, the data is captured when the save is called (arrays may be freed before it is written), '
     'and the files store each element exactly once, where the index says, in chunks within the size limit, each file written by its own process only.',
     ['inputs', 'configurations'], 'all trees, dtypes, shapes, device layouts, shard counts, chunk limits, process counts',
     'partitioned_test.py mostly mocks the pieces and round-trips one small tree.',
     ['vmoe/checkpoints/partitioned.py', 'vmoe/checkpoints/types.py', 'vmoe/checkpoints/serialization.py'],
     [('slice assignment to shards', 'vmoe/checkpoints/partitioned.py'), ('index of slices per shard', 'vmoe/checkpoints/types.py:IndexInfo')],
     ['save_checkpoint', 'restore_checkpoint'])

prop('C10', 'A crash while saving never yields a partial or corrupt visible checkpoint',
     'At every point where a save can be interrupted, each checkpoint file under its final name holds either its complete previous content (is absent if there was none) or the complete new content; finding the latest complete checkpoint and resuming returns only steps all of whose files and shards were completely written, never a step with a temporary leftover, always the largest such step, and never confuses prefixes. '
     'A failed file operation makes the save fail, a later save repairs the leftovers, overwriting is refused when disallowed, removing checkpoints deletes exactly the matching files, and restoring what discovery returns gives the data saved at that step.',
     ['crash_points', 'histories', 'fault_sequences'], 'all sequences of saves and removals with a crash at every file operation',
     'tests only check completed saves and a fixed directory listing.',
     ['vmoe/checkpoints/base.py', 'vmoe/checkpoints/partitioned.py'],
     [('write to .tmp. and rename', 'vmoe/checkpoints/base.py:save_checkpoint'),
      ('steps with temp files are incomplete', 'vmoe/checkpoints/base.py:iterate_complete_steps_for_prefix')],
     ['find_latest_complete_checkpoint_for_prefix', 'iterate_complete_steps_for_prefix', 'remove_checkpoints', 'restore_checkpoint'])

prop('C11', 'Checkpoint serialization round-trips every supported value',
     'Serialising any tree of the supported types (scalars, strings, bytes, numpy and bfloat16 arrays of any shape including 0-d and empty, complex numbers, slices, slice sets, index information, chunked arrays) and deserialising it returns an equal value with the same types and dtypes. '
     'Lazily chunked arrays come back as exactly their chunks for every internal split, serialising does not modify its input, a template gives back its own structure, and slices slice, compare, hash and sort consistently with their numpy/tuple counterparts.',
     ['inputs'], 'all values of the supported types',
     'serialization_test.py samples a few values per type.',
     ['vmoe/checkpoints/serialization.py', 'vmoe/checkpoints/types.py'],
     [('msgpack ext types', 'vmoe/checkpoints/serialization.py'), ('slice types', 'vmoe/checkpoints/types.py')],
     ['to_bytes/from_bytes, to_state_dict/from_state_dict'])

prop('C12', 'Logical meshes use every device exactly once with the requested layout',
     'For every hardware topology and requested number of partitions, the logical mesh contains each device exactly once, has the requested number of expert partitions (at most the number of devices) on its first axis, and is the same on every process and for every order of the device list; each expert partition is a block of the hardware mesh, partitions being placed greedily along the preferred hardware axes, and the devices of each process form a contiguous slice of the logical mesh. '
     'Requests that do not factor into the hardware axes raise an error, all others succeed.',
     ['configurations'], 'all device topologies (TPU-like coordinates and others), process layouts and partition counts',
     'partitioning_test.py checks a few fixed topologies.',
     ['vmoe/partitioning.py'],
     [('tiling of the hardware mesh', 'vmoe/partitioning.py:get_logical_mesh*'), ('hardware mesh', 'vmoe/partitioning.py:get_hardware_mesh_*')],
     ['get_auto_logical_mesh', 'get_logical_mesh'])

prop('C13', 'Partition rules: first matching pattern decides, scalars replicated',
     'Every leaf of a tree gets the partition spec of the first pattern that matches its full slash-joined path, leaves of at most one element and leaves that match nothing are replicated, the tree structure is preserved, and nothing depends on the order of the tree\'s keys. '
     'Partition specs are parsed alike from every accepted notation, and constraining an array\'s sharding never changes its values.',
     ['inputs', 'configurations'], 'all trees, pattern lists and spec notations',
     'two small trees in partitioning_test.py.',
     ['vmoe/partitioning.py', 'vmoe/utils.py'],
     [('regex search over path', 'vmoe/partitioning.py:tree_axis_resources_from_regexes')],
     ['tree_axis_resources_from_regexes', 'parse_partition_spec', 'with_sharding_constraint'])

prop('C14', 'Evaluation data: every example exactly once, padding marked, hosts in step',
     'For every dataset size, split selection, batch size and number of processes, one pass over an evaluation dataset delivers over all processes every example of the split exactly once with the valid flag set, '
     'filled up with examples flagged invalid (zero content) so that all processes yield the same number of full batches of equal shape. '
     'Training data repeats indefinitely with only real examples in full batches, and preprocessing is applied to each example.',
     ['inputs', 'configurations'], 'all dataset sizes, splits, batch sizes, process counts, variants, caching and shuffling options',
     'input_pipeline_test.py checks a couple of configurations with one or few processes.',
     ['vmoe/data/input_pipeline.py', 'vmoe/data/builder.py'],
     [('fake examples', 'vmoe/data/builder.py'), ('even split and batching', 'vmoe/data/input_pipeline.py')],
     ['get_dataset', 'get_datasets'])

prop('C15', 'Evaluation metrics are exact over valid examples only',
     'The evaluator reports, for every dataset, the accuracy (label mass of the predicted class) and the loss (summed over trailing dimensions) averaged over exactly the valid examples, independently of batching, of the mesh of devices and of the (finite) content of padded examples; datasets do not influence each other, repeated evaluations start from scratch, run exactly at the configured steps and use the parameters given then. '
     'Evaluation never modifies the parameters, and no two batches of an evaluation get the same randomness.',
     ['inputs', 'histories', 'configurations'], 'all datasets, paddings, batch sizes, model outputs and repeated evaluations',
     'evaluator_test.py uses constants and mocks.',
     ['vmoe/evaluate/evaluator.py'],
     [('masking by valid flag', 'vmoe/evaluate/evaluator.py:evaluate_step'), ('accumulated sums', 'vmoe/evaluate/evaluator.py:EvalState')],
     ['EvaluateMultipleDatasets', 'evaluate_dataset'])

prop('C16', 'Device prefetching preserves order and content and never loses items',
     'Iterating through the device prefetcher yields exactly the elements of the source iterator, in order, with the same values, dtypes and structure, each numeric array split in order along its first axis over all devices of the mesh (other data passed through untouched), for every prefetch depth and source length; it never runs more than the prefetch depth ahead of the consumer. '
     'An error of the source always reaches the consumer, after at least all elements that were not prefetched; batches that do not divide over the devices are rejected, and the announced shapes, dtypes and shardings are those of the delivered (global) arrays.',
     ['inputs', 'histories', 'configurations'], 'all source lengths, prefetch depths, batch structures, shardings, partial consumptions',
     'pjit_utils_test.py checks one depth with mocks.',
     ['vmoe/data/pjit_utils.py'],
     [('bounded queue', 'vmoe/data/pjit_utils.py:prefetch_to_device')],
     ['prefetch_to_device', 'put_to_devices'])

prop('C17', 'Few-shot evaluation is exact ridge regression on the sampled shots',
     'For every feature set the few-shot accuracy for each number of shots and regularisation equals that of the closed-form L2-regularised least-squares classifier (features standardised on the shots, a constant bias feature of 100, targets +-1) fitted on exactly min(shots, available) valid training examples of each class and evaluated on exactly the valid test examples; '
     'it does not depend on padding, batching or devices, nor on which other shots and regularisations are evaluated, and repeated evaluations with the same seed give the same result. Per shot, one regularisation common to all datasets is chosen, the one with the best mean rank of accuracy, and the accuracies reported (including the main task, averaged over seeds) are those of that choice.',
     ['inputs', 'configurations'], 'all features, labels, shots, seeds, regularisation lists and paddings',
     'fewshot_test.py uses mocked/simple cases.',
     ['vmoe/evaluate/fewshot.py'],
     [('eigendecomposition solver', 'vmoe/evaluate/fewshot.py'), ('shot selection', 'vmoe/evaluate/fewshot.py')],
     ['FewShotPeriodicAction', 'module-level few-shot functions'])

prop('C18', 'Ensemble losses and predictions aggregate members as specified',
     "For every logits array whose rows interleave M ensemble members, the training losses are each member's own cross-entropy against its example's labels, row by row, and the evaluation losses and predicted labels come from the average over members of the members' (softmax or sigmoid) probabilities, one per original example and in order, accurate however extreme the logits; "
     'with a single member they reduce to the standard losses and the argmax, and classes of probability zero contribute nothing where the label is zero.',
     ['inputs', 'configurations'], 'all logits, labels, ensemble sizes, softmax and sigmoid variants',
     'ensemble_test.py checks few constants.',
     ['vmoe/evaluate/ensemble.py'],
     [('reshape by member and logsumexp', 'vmoe/evaluate/ensemble.py')],
     ['vmoe.evaluate.ensemble functions'])

prop('C19', 'Optimizer: freezing, decay, clipping and scaling hit exactly their parameters',
     'For every parameter tree and gradient history, frozen parameters (matching the frozen patterns, or not matching the trainable ones) never change; weight decay adds exactly rate*parameter, with the rate of the first matching rule, and nothing to unmatched parameters; each gradient is multiplied by the scale of its first matching rule, then clipped by global norm or value as requested, before the optimizer sees it. '
     'The composed update (scaling, clipping, SGD/momentum/Adam/Adafactor accumulation, decay, minus learning rate of the current step, freezing) equals the reference recurrences parameter by parameter, pairing parameters with updates by name whatever the order of keys in the trees; applying it advances the step by one and reports the true global norms. Contradictory options raise an error.',
     ['inputs', 'histories', 'configurations'], 'all parameter trees, rule lists, gradient sequences, optimizers and schedules',
     'optimizer_test.py checks single steps on small trees.',
     ['vmoe/train/optimizer.py', 'vmoe/train/train_state.py'],
     [('regex rule matching', 'vmoe/train/optimizer.py'), ('chain order', 'vmoe/train/optimizer.py:create_optimizer')],
     ['create_optimizer(...).update', 'TrainState.apply_gradients_and_compute_global_norms'])

prop('C20', 'Learning-rate schedules: bounded, continuous and exact at the milestones',
     'For every configuration and every step, including beyond the end, the learning rate is finite, non-negative and never above the peak value, grows linearly from zero during warm-up to reach the peak exactly at its end, follows its documented decay afterwards (constant, linear, cosine, polynomial, exponential, reciprocal square root with linear cool-down to zero) with no jump at the junctions, and stays at the final value after the last decay step. '
     'The decay length defaults to the total number of steps; unknown schedules and contradictory lengths raise an error.',
     ['inputs', 'configurations'], 'all steps (including beyond the end) and all schedule configurations',
     'schedule_test.py samples a few steps of a few configurations.',
     ['vmoe/train/schedule.py'],
     [('optax join of warm-up and decay', 'vmoe/train/schedule.py')],
     ['create_learning_rate_schedule'])

prop('C21', 'A training step is exact SGD on the mean loss whatever the microsteps',
     'One training step applies the optimizer once to the gradient of the loss averaged over the batch (plus the mean auxiliary loss), advances the step by one and advances the rngs so that no two steps or microsteps reuse the same randomness; splitting the batch into microsteps changes neither gradients nor metrics beyond rounding when the losses are means over examples. '
     'Mixup replaces every array of a batch by the same convex combination of examples: the weight of the own example is the largest (so at least 1/mixup size), the weights are the same for all mixed arrays, are shared at the configured granularity (batch, device, example), and only examples of the same device slice are mixed; invalid sizes, granularities or shapes are rejected. A wrapped training step equals the plain step on the mixed batch, and the state given by the caller is not modified by it. Loss functions are selected by name and unknown names are rejected.',
     ['inputs', 'histories', 'configurations'], 'all models, batches, microstep counts, mixup configurations and step sequences',
     'the trainer tests cannot run here; upstream they check few constants.',
     ['vmoe/train/trainer.py', 'vmoe/train/train_state.py'],
     [('microstep accumulation', 'vmoe/train/trainer.py:accumulate_gradients_and_metrics'), ('rng split', 'vmoe/utils.py:tree_rngs_split'), ('mixup', 'vmoe/train/trainer.py:mixup')],
     ['train_step', 'mixup'])

prop('C22', 'Checkpoint-to-model mapping copies every parameter by rule, and nothing silently',
     'Mapping a source tree onto a target tree by rules gives each target leaf exactly the source leaf that the first matching rule prescribes (renamed by regular expression, reshaped, squeezed, stacked in natural order of the names, expanded and tiled, or linearly resized with the class token kept apart), with the shape, dtype and device layout of the target, and never mixes up leaves. '
     'Target leaves not assigned keep their value when allowed, otherwise an error is raised; unmatched source leaves raise or, when allowed, are copied under the same name; dropped leaves are never used. A renamed leaf without target, a target assigned twice (other than by stacking), an impossible transformation, an empty node against an array, and (as configured) a wrong shape or dtype always raise. Initialising from a partitioned V-MoE checkpoint, a ViT npz or an Orbax directory gives the same result as mapping the saved tree, whatever the layouts on disk and on devices.',
     ['inputs', 'configurations'], 'all source/target trees, rule lists and flags',
     'the upstream tests sample a few trees and cannot run in this sandbox (missing dependency).',
     ['vmoe/initialization/mapping.py', 'vmoe/initialization/rules.py', 'vmoe/initialization/initialization.py'],
     [('rules applied in order', 'vmoe/initialization/mapping.py:map_state_dict')],
     ['map_state_dict'])

prop('C23', 'Image preprocessing ops match their definitions for every image and label',
     'For every image size, dtype and label set: crops return contiguous windows inside the image (the central crop has the requested size and is centred; the random one has an area in the requested range), resizes return the requested size with the chosen interpolation and the dtype of the input (the small-side variant keeps the aspect ratio by area averaging), flips give the image or its mirror image, each about half of the time, value-range maps linearly (per channel if asked, clipping if asked), one-hot encodes exactly the given labels with on/off values, decoding gives the encoded pixels, reshape keeps the values in order, keep/copy/flatten touch exactly the named features (the validity flag is always kept) and examples without labels are flagged invalid. '
     'Ops read and write exactly the configured features and never change others, whether run eagerly or in a tf.data graph; a pipeline string applies its ops left to right, and malformed strings or data that is no dictionary are rejected.',
     ['inputs', 'configurations'], 'all images, labels, sizes and op parameters',
     'pp_ops_test.py checks a single example per op.',
     ['vmoe/data/pp_ops.py', 'vmoe/data/input_pipeline.py'],
     [('op implementations', 'vmoe/data/pp_ops.py'), ('op chaining', 'vmoe/data/input_pipeline.py:get_data_process_fn')],
     ['vmoe.data.pp_ops', 'get_data_process_fn'])

prop('C24', 'Utilities: safe iteration, call-string parsing and rng derivation',
     'Parsing a call string resolves the name in the given default module (or fully qualified) and returns exactly the literal positional and keyword arguments without evaluating code; anything else is rejected. '
     'Safe zip/map yield lazily exactly what zip/map yield for equal-length inputs and raise for unequal ones; derived rngs are deterministic in the seed and distinct between names, seeds and splits; multiplying with no-NaN semantics is zero exactly where the multiplier is zero, with finite gradients there; a match function of a regex list is true exactly when one of the regexes, on its own, is found; partial classes bind exactly the given arguments.',
     ['inputs'], 'all argument literals, names, iterable lengths, seeds and names',
     'utils_test.py samples one or two calls per helper.',
     ['vmoe/utils.py'],
     [('ast.literal_eval', 'vmoe/utils.py:parse_call'), ('SafeZipIterator', 'vmoe/utils.py')],
     ['vmoe.utils'])

prop('C25', 'PGD attacks stay within the allowed perturbation and report exact totals',
     'For every model, input and attack configuration the adversarial images are the originals moved by the configured number of equal steps along the sign of the gradient of the attacked loss (with the auxiliary loss if asked), hence differ from them by at most the allowed L-infinity perturbation; every step uses a fresh random key and the keys returned are fresh too. Adversarial training runs the plain step on the attacked images; with zero steps or budget it is the plain step. '
     'The accumulated attack statistics (examples, correct predictions and losses before/after, changed predictions, overlap of the selected experts per router) equal the sums over exactly the valid examples of all batches, and the stored examples and reported rates agree with them.',
     ['inputs', 'histories', 'configurations'], 'all images, gradients, step counts, budgets, valid masks and batch histories',
     'attacks_test.py checks simple constants.',
     ['vmoe/projects/adversarial_attacks/attacks.py', 'vmoe/projects/adversarial_attacks/lib.py', 'vmoe/projects/adversarial_attacks/restore.py', 'vmoe/train/trainer.py'],
     [('sign steps', 'vmoe/projects/adversarial_attacks/attacks.py:stateless_attack_pgd'), ('masked sums', 'vmoe/projects/adversarial_attacks/attacks.py:stateful_attack'), ('program', 'vmoe/projects/adversarial_attacks/lib.py:run_pgd_attack'), ('adversarial training', 'vmoe/train/trainer.py:wrap_train_step_with_adversarial_attack')],
     ['stateless_attack_pgd', 'stateful_attack', 'run_pgd_attack', 'wrap_train_step_with_adversarial_attack'])

prop('C26', 'Tree summaries report exact per-parameter statistics under their names',
     'For every tree and rule list, the summary contains, for each leaf and each rule whose pattern is found in its path, exactly the values left after the chain of reductions of that rule, each named by path, reductions and index; each value equals the one computed directly from that leaf. Nothing else is reported and the tree is not changed; unknown operations and rules that give more values than allowed are rejected.',
     ['inputs', 'configurations'], 'all trees, rules and step sequences',
     'tree_summarizer_test.py samples few rules.',
     ['vmoe/train/tree_summarizer.py'],
     [('rule matching and reduction', 'vmoe/train/tree_summarizer.py')],
     ['TreeSummarizer.__call__'])

prop('C27', 'Interrupted training resumes from the last saved step with identical state',
     'After any history of training, checkpointing and interruption (an exception in the data, the metric writer or an evaluation, or a kill while saving), running train_and_evaluate again with the same configuration continues from the latest completely saved step with exactly the saved parameters, optimizer state, rngs and step (placed according to the axis resources, on whatever mesh), trains exactly the remaining steps and, given the same batch at each step, reaches the state of an uninterrupted run. '
     'Saved are step 0, every multiple of every_steps and the last step (the most recent keep_last of them and the multiples of keep_steps_multiple_of are retained), each with last_seen_index = step * batch size. '
     'Without a checkpoint training starts from the seeded initialisation or the configured initialisation source, which is read only then; leaves of a partly given state are reused as they are and only the others initialised. '
     'The number of steps is train_steps, or the epochs times the examples over the batch size rounded up; giving both or neither is rejected.',
     ['histories', 'crash_points', 'configurations'], 'all interruption points and configurations',
     'the trainer tests cannot run here; upstream they mock restoring.',
     ['vmoe/train/trainer.py', 'vmoe/train/train_state.py', 'vmoe/projects/contrastive/trainer.py'],
     [('checkpoint manager restore', 'vmoe/train/trainer.py:restore_or_create_train_state'), ('the training loop', 'vmoe/train/trainer.py:train_and_evaluate'), ('partial reuse', 'vmoe/train/trainer.py:create_or_reuse_train_state')],
     ['train_and_evaluate', 'restore_or_create_train_state', 'create_or_reuse_train_state', 'create_checkpoint_manager', 'get_train_steps_and_epochs'])

prop('C28', 'ViT-MoE: per-example outputs, exact auxiliary losses, undone token grouping',
     'The forward pass of a (ViT/ensemble) MoE model equals that of the transformer it is configured as: MoE layers exactly at the configured encoder positions and dense MLPs at all others, the configured classifier (token, first, gap or map pooling), position embeddings, patch embedding and optional representation layer, one row of logits (or of embeddings without head) per image. '
     'Every grouping of tokens into groups (also groups that straddle images) is undone exactly, so token order is preserved through MoE blocks; with ample capacity and noise off an image\'s output depends neither on the other images of the batch nor on the group size. '
     'The auxiliary loss is the sum over the MoE layers, whose metrics are reported separately per layer. Ensembles repeat the inputs once, before the first MoE layer, and route each member to its own experts only, members being consecutive per image in the output. '
     'Dropout and router noise act only in non-deterministic mode (unless the router configuration overrides it), experts start identical unless split_rngs asks for different ones, and group sizes that do not divide the tokens or unknown options are rejected.',
     ['inputs', 'configurations'], 'all model configurations, batch sizes and group sizes',
     'the model tests cannot run here (missing dependency) and upstream check shapes.',
     ['vmoe/nn/vit_moe.py', 'vmoe/nn/vit_moe_ensemble.py', 'vmoe/nn/routing.py', 'vmoe/nn/ensemble_routing.py'],
     [('reshape into groups and back', 'vmoe/nn/vit_moe.py:MlpMoeBlock'), ('loss sum', 'vmoe/nn/vit_moe.py:EncoderMoe')],
     ['VisionTransformerMoe.apply', 'VisionTransformerMoeEnsemble.apply'])

prop('C29', 'Contrastive models, loss, training step and evaluation hooks are exact',
     'Text towers equal the configured transformer with the configured pooling (last, first, average, maximum or attention); image and text embeddings are normalised to unit length per example, are the same whether one or both towers are given their input (one tower needs only its own parameters), and the logits are scale times the inner products of all pairs plus the optional bias, the scale and bias starting at their configured values; each tower\'s metrics are reported under its own name. '
     'The sigmoid loss of an image is the sum over all texts of the log-loss of the pair being a match exactly on the diagonal, finite for any finite logits, and non-square logits are rejected. '
     'A training step applies the gradient of the mean loss plus the model\'s auxiliary loss, averaged over microsteps that keep images and texts paired, each with a fresh rng. '
     'Retrieval, zero-shot and few-shot evaluations run on the first and last step and on the configured ones only, with the parameters given, on the deterministic (overridden) model and report each task\'s results under its own name; embedding both or none of image and text is rejected.',
     ['inputs', 'configurations', 'histories'], 'all inputs, model configurations, microsteps and step schedules',
     'models_test.py checks shapes and does not run here; the trainer and the evaluators have no tests.',
     ['vmoe/projects/contrastive/models.py', 'vmoe/projects/contrastive/evaluators.py', 'vmoe/projects/contrastive/trainer.py'],
     [('normalisation and logits', 'vmoe/projects/contrastive/models.py:TwoTower'), ('pooling', 'vmoe/projects/contrastive/models.py:TextTransformer'), ('loss', 'vmoe/projects/contrastive/trainer.py:sigmoid_loss'), ('hooks', 'vmoe/projects/contrastive/trainer.py:create_retrieval_hook')],
     ['TwoTower.apply', 'TextTransformer.apply', 'sigmoid_loss', 'train_step', 'create_retrieval_hook', 'create_zeroshot_hook'])

prop('C30', 'Shipped configurations describe runnable, self-consistent experiments',
     'Every configuration shipped with the repository (V-MoE and E3 papers, Soft MoE with each documented model argument, adversarial attack) runs as it is: all its data variants and its few-shot tasks give square RGB images of one and the same size with values in [-1, 1]; labels have exactly one entry per class of the model, set for exactly the labels of the example, and examples added for padding are marked as not valid; no example of the validation or test data (or of the few-shot test data) is used for training. '
     'Model, optimizer, loss, mixup, summaries and hooks accept their options and form a training step that keeps the shapes and types of the state; the evaluation and few-shot overrides give models that accept the same parameters and return logits per class, respectively the representation of each image. '
     'The model has MoE layers at exactly the configured blocks with the configured number of experts, exactly the parameters (and optimizer state) of experts are partitioned over the expert axis, the groups divide the tokens of a batch into a multiple of the number of experts, every weight decay rule applies to some parameter, the schedule fits in the training, and every swept field exists. '
     'Fine-tuning configurations start at step 0 with the parameters of the upstream checkpoint (position embeddings resized, router weights reshaped where asked) except for the new head and whatever they exclude. '
     'A description "ViT-<variant>/<patch>, E=<experts>, K=<selected>, Every|Last <n>, <m> Epochs" gives the model of that size with MoE layers in every n-th block (counting from one), respectively in the last n of the even blocks, groups of 8 images and m epochs, and a Soft MoE model argument such as soft-b16 the published model of that size with MoE layers in the last half of its blocks; malformed descriptions are rejected with ValueError.',
     ['configurations', 'inputs'], 'all shipped configurations and model arguments, input images and descriptions',
     'no test loads any configuration.',
     ['vmoe/configs/common_fewshot.py', 'vmoe/configs/eee_paper/eee_s32_last2_ilsvrc2012_ft_cifar100.py', 'vmoe/configs/vmoe_paper/common.py', 'vmoe/configs/vmoe_paper/pretrain_imagenet21k.py', 'vmoe/configs/vmoe_paper/vmoe_b16_imagenet21k_randaug_strong_ft_cifar10.py', 'vmoe/configs/vmoe_paper/vmoe_b16_imagenet21k_randaug_strong_ft_ilsvrc2012.py', 'vmoe/configs/vmoe_paper/vmoe_s32_last2_ilsvrc2012_randaug_light1.py', 'vmoe/configs/vmoe_paper/vmoe_s32_last2_ilsvrc2012_randaug_light1_ft_ilsvrc2012.py', 'vmoe/projects/adversarial_attacks/configs/attack/ilsvrc2012.py', 'vmoe/projects/adversarial_attacks/configs/common.py', 'vmoe/projects/soft_moe/configs/common.py', 'vmoe/projects/soft_moe/configs/pretrain_jft4b.py', 'vmoe/projects/soft_moe/configs/pretrain_laion.py'],
     [('descriptions', 'vmoe/configs/vmoe_paper/common.py:get_vmoe_config'), ('soft MoE models', 'vmoe/projects/soft_moe/configs/common.py'), ('upstream initialisation', 'vmoe/configs/eee_paper/eee_s32_last2_ilsvrc2012_ft_cifar100.py:get_config'), ('pre-training', 'vmoe/configs/vmoe_paper/pretrain_imagenet21k.py:get_config')],
     ['get_config', 'get_vmoe_config', 'get_optimizer_config', 'get_num_epochs', 'get_fewshot'])

prop('C31', 'Hooks and entry point: right steps, right process, exact reports',
     'Progress is reported on the multiples of every_steps, after every_secs, on the listed steps and on the first and last step (never on the very first call), only on the configured process (or on all), and every metric, nested ones under their path joined with "/", is written exactly once for that step with its exact value. Profiles start and stop at the configured steps, on the first process unless all are asked for; an action bound to one process never runs on another. '
     'Evaluation and few-shot hooks run on the first and the last step and on the configured ones only, evaluate the parameters given on the deterministic model with the configured overrides, and report values exact over the valid examples, with the evaluation costs that are known. '
     'Overriding a configuration changes neither the base nor the overrides and the result shares nothing with them; a model without a name is rejected with KeyError. The reported training cost is the cost per device and step, times the step, times the number of devices for totals; costs that are not positive are omitted. '
     'The barrier between processes fails when the processes are not at the same barrier. The entry point gives the main function the configuration, the working directory and an active mesh with every device once and the requested number of expert partitions (at most the number of devices), flushes the metrics also after errors, and writes to disk on process 0 only.',
     ['histories', 'schedules', 'configurations'], 'all schedules, step histories, process indices, configurations and metric trees',
     'the tests mock the hooks or run one schedule, and the trainer tests do not run here.',
     ['vmoe/train/periodic_actions.py', 'vmoe/train/trainer.py', 'vmoe/utils.py', 'vmoe/multihost_utils.py', 'vmoe/app.py'],
     [('progress schedule and flattening', 'vmoe/train/periodic_actions.py:ReportProgress'), ('hooks', 'vmoe/train/trainer.py:create_evaluation_hook'), ('overrides', 'vmoe/train/trainer.py:override_base_config'), ('training cost', 'vmoe/train/trainer.py:make_train_cost_fn'), ('barrier', 'vmoe/multihost_utils.py:sync_devices'), ('entry point', 'vmoe/app.py:run')],
     ['ReportProgress.__call__', 'SingleProcessPeriodicAction', 'create_progress_hook', 'create_profile_hook', 'create_evaluation_hook', 'create_fewshot_hook', 'override_base_config', 'create_flax_model', 'make_train_cost_fn', 'sync_devices', 'app.run'])

prop('C32', 'Work spread over several processes gives the result of one process',
     'On a cluster of processes, each with some of the devices, everything the library computes, stores and reports is what one process with all devices gives. Every process builds the same logical mesh, which uses each device once and gives each process a contiguous slice. A barrier completes when all processes are at it and fails on the processes whose name differs from that of the main process. '
     'Prefetching makes, of the rows of the processes, the global batch in the order of the mesh, for any order of the devices. Checkpoints of arrays laid out in any way over the processes hold each element once (exactly), in files that are all complete when saving ends, and can be restored, bit for bit, with any other layout by any other number of processes. '
     'Evaluation metrics count each valid example of all processes once and are the same on all processes; few-shot and attack results are those of one process, and each process stores the attack examples that it was fed. Training, also interrupted and resumed by another number of processes, gives the states, saved steps and positions in the data of an uninterrupted run on one process; reports bound to a process are made by that process only.',
     ['topologies', 'inputs', 'histories'], 'all numbers of processes and devices, meshes and device orders, array layouts, divisions of the data over processes, and interruptions',
     'the tests run in one process and mock process indices; no collective, barrier or non-addressable array is ever involved.',
     ['vmoe/multihost_utils.py', 'vmoe/partitioning.py', 'vmoe/checkpoints/partitioned.py', 'vmoe/data/pjit_utils.py', 'vmoe/evaluate/evaluator.py', 'vmoe/evaluate/fewshot.py', 'vmoe/train/trainer.py', 'vmoe/train/periodic_actions.py', 'vmoe/projects/adversarial_attacks/lib.py'],
     [('barrier', 'vmoe/multihost_utils.py:sync_devices'), ('who writes which slice', 'vmoe/checkpoints/partitioned.py:save_checkpoint'), ('global batches', 'vmoe/data/pjit_utils.py:prefetch_to_device'), ('device order', 'vmoe/partitioning.py:get_auto_logical_mesh'), ('stored examples', 'vmoe/projects/adversarial_attacks/lib.py:run_pgd_attack'), ('training', 'vmoe/train/trainer.py:train_and_evaluate')],
     ['sync_devices', 'save_checkpoint', 'restore_checkpoint', 'prefetch_to_device', 'get_auto_logical_mesh', 'EvaluateMultipleDatasets', 'FewShotPeriodicAction', 'run_pgd_attack', 'train_and_evaluate'])

def main():
  out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
  with open(out, 'w') as f:
    for p in P:
      f.write(json.dumps(p) + '\n')
  print(len(P), 'properties')

if __name__ == '__main__':
  main()
