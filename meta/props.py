"""Single source of properties.jsonl, MANIFEST.json and specs.json."""

BASE = 'vmoe/checkpoints/base.py'
PART = 'vmoe/checkpoints/partitioned.py'
SER = 'vmoe/checkpoints/serialization.py'
INP = 'vmoe/data/input_pipeline.py'
BLD = 'vmoe/data/builder.py'
PJU = 'vmoe/data/pjit_utils.py'
EVAL = 'vmoe/evaluate/evaluator.py'
FEW = 'vmoe/evaluate/fewshot.py'
TYPES = 'vmoe/checkpoints/types.py'
MHU = 'vmoe/multihost_utils.py'

CK_REAL = ['vmoe.checkpoints.* (all of it)', 'vmoe.multihost_utils',
           'flax.serialization/msgpack', 'numpy']
CK_STUB = ['tensorflow.io.gfile (in-memory file system, POSIX-like and '
           'object-store-like)', 'multiprocessing.pool.ThreadPool (seeded '
           'cooperative pool)', 'jax multi-process arrays, shardings and '
           'process topology (the real_jax scenarios use the real ones)',
           'jax.pmap (collective over the simulated hosts, body run by jax)',
           'clocks']
CK_ASSUME = ['a completed close or rename survives a process crash',
             'rename is atomic (POSIX) or copy-then-delete with an atomic '
             'appearance of the target (object store)',
             'a job whose peer died is torn down instead of waiting forever']

NOTE = ('seeded search over schedules, crash points and storage faults of the '
        'real code in a simulated job; not exhaustive: sampled, bounded '
        'topologies and sizes')

DATA_REAL = ['vmoe.data.input_pipeline', 'vmoe.data.builder',
             'vmoe.data.pp_ops', 'tf.data', 'tfds split arithmetic']
DATA_STUB = ['tfds dataset readers (in-memory shards with injected read errors)',
             'completion order of tf.data parallel maps (seeded shuffle)',
             'process topology (real CPU devices divided among the simulated '
             'processes; collectives are meeting points of the simulator)']
DATA_ASSUME = ['parallel preprocessing delivers an example at most 8 places '
               'out of order', 'at most four devices in all']

TRAINER = 'vmoe/train/trainer.py'
TRAIN_REAL = ['vmoe.train.* and vmoe.projects.contrastive.trainer',
              'vmoe.data.*', 'vmoe.evaluate.evaluator', 'vmoe.multihost_utils',
              'vmoe.partitioning', 'jax (tracing, XLA, shardings)', 'optax',
              'flax', 'clu', 'tf.data']
TRAIN_STUB = ['orbax.checkpoint.CheckpointManager (same semantics over the '
              'simulated storage)', 'a small model', 'tensorflow.io.gfile',
              'thread pools, clocks', 'tfds readers',
              'process topology (real CPU devices divided among the simulated '
              'processes; collectives are meeting points)']
TRAIN_ASSUME = ['a checkpoint that orbax has committed survives',
                'a job whose peer died is torn down', 'at most four devices']

CLAIMED = [
    dict(
        id='C01', title='A checkpoint file is published atomically',
        statement='At every moment, and after a crash or a failed write at any point, the path of a single-file checkpoint holds either nothing (only if no save to it ever completed) or the complete contents of one save, never a mixture, a prefix or an empty file. Once a save to the path has returned, every later read sees that save or a newer one, and a later save over whatever a crash left behind succeeds. If overwriting was not allowed and the path exists, the save fails and the existing contents stay as they were.',
        quantifier=(['schedules', 'crash_points', 'fault_sequences', 'histories'],
                    'every interleaving of one writer (synchronous or asynchronous saves, one after the other) with concurrent readers, every crash point and storage error of the writer, followed by a restart'),
        why='The tests save and restore once, on a healthy disk, without a reader or a crash in between.',
        files=[BASE, SER],
        mechanism=[('write to a temporary name, then rename', f'{BASE}: save_checkpoint'),
                   ('overwrite flag of the rename', f'{BASE}: save_checkpoint')],
        observe=['files in the checkpoint directory', 'vmoe.checkpoints.base.restore_checkpoint'],
        seeds=(3000, 60000), real=CK_REAL, stub=CK_STUB, assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C02', title='A sharded checkpoint restores exactly, on any topology',
        statement='Once every process of a job has finished saving a tree of partitioned arrays, any job restores exactly the saved values, dtypes and tree structure, with the requested partitioning, whatever the number of processes, devices, shards, the partitioning, the chunk size, the concurrency limits or the interleaving on either side. This includes scalars, arrays without elements, a restore without a template, saving over an older checkpoint of the same name, and checkpoints written by earlier versions of the library.',
        quantifier=(['inputs', 'configurations', 'schedules'],
                    'all trees, all pairs of (saving, restoring) topologies and partitionings, shard counts and chunk sizes, all interleavings of processes and I/O threads'),
        why='The tests use one process and a handful of shapes; the multi-process paths only run with mocks.',
        files=[PART, SER, TYPES, BASE],
        mechanism=[('index of slices and shards', f'{PART}: save_checkpoint'),
                   ('intersection of saved and wanted slices', f'{PART}: restore_checkpoint'),
                   ('encoding of chunks', f'{SER}')],
        observe=['vmoe.checkpoints.partitioned.restore_checkpoint'],
        seeds=(1200, 24000), real=CK_REAL, stub=CK_STUB, assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C03', title='A checkpoint reported as complete can be restored',
        statement='Every step that checkpoint discovery reports for a prefix (to an observer at any moment, or to a restarted job) belongs to that prefix and restores to exactly the state saved for that step, even if processes crashed while saving or removing checkpoints or checkpoints of other prefixes share the directory. A step with a temporary file or with a missing shard or suffix is never reported.',
        quantifier=(['schedules', 'crash_points', 'fault_sequences', 'histories'],
                    'every history of jobs that save steps (the state being a function of the step), crash, restart and remove old steps, with observers at every moment'),
        why='The tests give discovery a mocked list of files; no test looks at the directory of a job that crashed.',
        files=[BASE, PART],
        mechanism=[('temporary files mark incomplete steps', f'{BASE}: iterate_complete_steps_for_prefix'),
                   ('all shards and suffixes required', f'{BASE}: iterate_complete_steps_for_prefix')],
        observe=['vmoe.checkpoints.base.iterate_complete_steps_for_prefix',
                 'vmoe.checkpoints.base.find_latest_complete_checkpoint_for_prefix'],
        seeds=(500, 10000), real=CK_REAL, stub=CK_STUB,
        assumptions=CK_ASSUME + ['saving other values over a complete checkpoint in place is a known finding and excluded from the random histories'], note=NOTE),
    dict(
        id='C04', title='Discovery misses no complete checkpoint and orders steps',
        statement='A step whose save has returned on every process, and whose removal has not been requested, is always reported by checkpoint discovery, whatever leftovers of crashed saves (also of jobs with another number of processes) or files of other prefixes are around. Steps are reported once each in numeric order (increasing or decreasing, as asked), the latest checkpoint is the one with the highest reported step, and without any complete step there is none. A restarted job that meets no more faults gets its last step complete.',
        quantifier=(['schedules', 'crash_points', 'fault_sequences', 'histories'],
                    'every history of jobs that save, crash, restart and remove old steps, with observers at every moment'),
        why='The tests give discovery a mocked list of at most two steps.',
        files=[BASE, PART],
        mechanism=[('parsing and sorting of steps', f'{BASE}: iterate_complete_steps_for_prefix'),
                   ('latest', f'{BASE}: find_latest_complete_checkpoint_for_prefix')],
        observe=['vmoe.checkpoints.base.iterate_complete_steps_for_prefix',
                 'vmoe.checkpoints.base.find_latest_complete_checkpoint_for_prefix'],
        seeds=(700, 14000), real=CK_REAL, stub=CK_STUB,
        assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C05', title='An asynchronous sharded save is a snapshot',
        statement='When an asynchronous save of a sharded checkpoint has been started, the caller may delete or reuse the device arrays and change the tree immediately: the checkpoint holds the values at the time of the call, however late the storage is written. Several saves in flight do not affect each other.',
        quantifier=(['schedules', 'fault_sequences', 'inputs'],
                    'every interleaving of the training loop with the I/O threads, every number of saves in flight'),
        why='The tests wait for the save before they touch anything.',
        files=[PART, TYPES],
        mechanism=[('copy to host memory before returning', f'{PART}: _replace_jax_with_numpy_in_lazy_array_chunks')],
        observe=['vmoe.checkpoints.partitioned.save_checkpoint'],
        seeds=(700, 14000), real=CK_REAL, stub=CK_STUB, assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C06', title='Storage faults surface in saves and restores',
        statement='If a storage operation of a save or restore (single, bulk or sharded) fails on a process, the call (or its asynchronous result) fails on that process; it never reports success. A restore that returns has the exact values: truncated, emptied or missing files and templates with another structure are refused, and a save repeated after a failure succeeds.',
        quantifier=(['fault_sequences', 'schedules', 'inputs'],
                    'every storage error at every operation, every truncation point of every file, every interleaving of I/O threads'),
        why='No test injects a storage error.',
        files=[BASE, PART, SER],
        mechanism=[('results of the thread pool are collected', f'{BASE}, {PART}'),
                   ('structures are compared', f'{PART}: _restore_checkpoint_from_index')],
        observe=['return values and exceptions of vmoe.checkpoints'],
        seeds=(700, 14000), real=CK_REAL, stub=CK_STUB,
        assumptions=CK_ASSUME + ['bit flips inside of a file of the right size are not detected (there is no checksum) and not injected'], note=NOTE),
    dict(
        id='C07', title='The multi-process barrier, and directories made behind it',
        statement='No process leaves a barrier before all processes have entered it; all processes that use the name of the main process pass it, and a process that uses another name than the main process gets an error. A sharded save that may create its directory works on all processes however they are scheduled: no process writes before the main process has created the directory, and nothing is written if that fails.',
        quantifier=(['schedules', 'crash_points', 'fault_sequences', 'configurations'],
                    'all numbers of processes and local devices, all arrival orders, crashes and storage errors around the barrier'),
        why='The tests have a single process, where every barrier is trivial.',
        files=[MHU, PART],
        mechanism=[('sum of a hash over all devices', f'{MHU}: sync_devices'),
                   ('process 0 creates, everybody waits', f'{PART}: _make_dir_sync')],
        observe=['vmoe.multihost_utils.sync_devices', 'vmoe.checkpoints.partitioned.save_checkpoint'],
        seeds=(1500, 30000), real=CK_REAL, stub=CK_STUB, assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C08', title='Sharded saves store each element once, one writer per file',
        statement='In a sharded save every array element is stored in exactly one data shard, every file has exactly one writing process and is written once, the number of data shards is the requested one (at least one per process), no stored chunk exceeds the requested size (unless a single element does), and the index says where each chunk is. If all processes hold all the data, the shard sizes differ by at most one chunk.',
        quantifier=(['inputs', 'configurations', 'schedules', 'fault_sequences'],
                    'all trees, topologies, partitionings, replication patterns, shard counts and chunk sizes, all interleavings'),
        why='The tests check the assignment for a few arrays with a mocked process count.',
        files=[PART, TYPES],
        mechanism=[('assignment of chunks to shards', f'{PART}: save_checkpoint'),
                   ('splitting of slices', f'{PART}: _split_slicend')],
        observe=['files of the checkpoint, read with vmoe.checkpoints.base.restore_checkpoint'],
        seeds=(900, 18000), real=CK_REAL, stub=CK_STUB, assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C09', title='Each example is delivered once per evaluation pass, in step',
        statement='When the processes of a job read an evaluation split, over all processes each example of the split comes out exactly once per pass marked as valid, everything else in the batches is padding marked as invalid, and all processes get the same number of batches, all of the same size; this holds for every number of processes, shard layout, batch size, split expression, cache, prefetch and shuffle setting, for repeated and abandoned passes. Training data never ends, each process only ever sees its own part of the split, and the parts are disjoint and together cover it. The reported number of examples is the size of the split. A batch size that the processes or devices cannot divide is refused, and a read error surfaces instead of losing examples silently.',
        quantifier=(['inputs', 'configurations', 'schedules', 'fault_sequences', 'histories'],
                    'all shard layouts and split expressions, numbers of processes, batch sizes and pipeline options; all orders in which parallel preprocessing completes; read errors at any example; complete and abandoned passes in any order'),
        why='The tests use one process, a mocked builder and a few batch sizes.',
        files=[INP, BLD],
        mechanism=[('split of the examples among processes', f'{BLD}: TfdsBuilder.as_dataset'),
                   ('padding to equal numbers of equal batches', f'{BLD}: _get_num_fake_examples; {INP}: get_dataset')],
        observe=['vmoe.data.input_pipeline.get_dataset', 'vmoe.data.input_pipeline.get_data_num_examples'],
        seeds=(240, 4800), real=DATA_REAL, stub=DATA_STUB, assumptions=DATA_ASSUME, note=NOTE),
    dict(
        id='C10', title='Device prefetching preserves order, alignment and placement',
        statement='Iterating through the device prefetcher yields exactly the upstream batches, each once and in order, with the arrays of a batch still aligned; in the global array every process contributes exactly its rows and they lie on its own devices in the places the partitioning says. The prefetcher never runs further ahead of the consumer than its size, ends when the upstream ends, passes an upstream error on (delivering nothing beyond it), and refuses batches the local devices cannot divide.',
        quantifier=(['inputs', 'configurations', 'schedules', 'fault_sequences'],
                    'all prefetch sizes, stream lengths, batch structures, numbers of processes and devices, device orders of the mesh, partitionings, interleavings of the processes, and upstream errors at any batch'),
        why='The tests have one process and mock the device transfer.',
        files=[PJU],
        mechanism=[('queue of device batches', f'{PJU}: prefetch_to_device'),
                   ('global arrays from local buffers', f'{PJU}: put_to_devices, prefetch_to_device')],
        observe=['vmoe.data.pjit_utils.prefetch_to_device'],
        seeds=(3000, 60000), real=['vmoe.data.pjit_utils', 'jax arrays, meshes, shardings'],
        stub=['process topology: the real CPU devices are divided among the simulated processes, a global array is assembled from the buffers of all of them at a meeting point'],
        assumptions=['at most four devices in all'], note=NOTE),
    dict(
        id='C11', title='Evaluation metrics cover exactly the examples of the dataset',
        statement='A periodic evaluation runs exactly on its scheduled steps, and the accuracy and loss it reports for each dataset are the averages over exactly the (labelled) examples of that dataset, each counted once and padding never, whatever the number of processes, the batch size and the order of delivery. All processes take part and agree, an evaluation repeated with the same parameters gives the same result (stochastic models included), it uses the parameters of that step, and a read error fails the evaluation instead of changing its result.',
        quantifier=(['inputs', 'configurations', 'schedules', 'fault_sequences', 'histories'],
                    'all dataset sizes, numbers of processes and devices, batch sizes, step schedules, sequences of evaluations, read errors at any example'),
        why='The tests use one process and mocked datasets without padding at more than one batch size.',
        files=[EVAL, INP, PJU],
        mechanism=[('masked sums of the metrics', f'{EVAL}: evaluate_step, EvalState'),
                   ('loop over the dataset', f'{EVAL}: evaluate_dataset'),
                   ('schedule', f'{EVAL}: EvaluateMultipleDatasets')],
        observe=['scalars written by vmoe.evaluate.evaluator.EvaluateMultipleDatasets'],
        seeds=(160, 3200), real=DATA_REAL + ['vmoe.evaluate.evaluator', 'vmoe.data.pjit_utils', 'jax'], stub=DATA_STUB, assumptions=DATA_ASSUME, note=NOTE),
    dict(
        id='C12', title='Few-shot evaluation computes the protocol it reports',
        statement='A few-shot evaluation reports, for every dataset, number of shots, seed and regularisation, the accuracy on all test examples (each once, padding never) of the ridge classifier fitted on exactly `shots` training examples per class, drawn only from the training split; the regularisation reported as best (and used for the reported accuracies) is the one with the best average rank over all datasets and seeds, and the averages over seeds are those of the reported numbers. Results do not depend on the number of processes holding the data beyond the order of delivery, repeat exactly in every evaluation and every job with the same parameters and order of delivery, and a read error fails the evaluation.',
        quantifier=(['inputs', 'configurations', 'schedules', 'fault_sequences', 'histories'],
                    'all dataset sizes, class counts, shots, seeds, regularisations, numbers of processes and batch sizes; sequences of evaluations; read errors at any example'),
        why='The tests check the solver and the feature loop separately on one process with random arrays.',
        files=[FEW],
        mechanism=[('collection of the features', f'{FEW}: _compute_representation'),
                   ('selection of the shots', f'{FEW}: _compute_fewshot_metrics'),
                   ('ridge regression', f'{FEW}: _precompute_cache, _eig_fewshot_acc_fn')],
        observe=['scalars written by vmoe.evaluate.fewshot.FewShotPeriodicAction'],
        seeds=(80, 1600), real=DATA_REAL + ['vmoe.evaluate.fewshot', 'vmoe.data.pjit_utils', 'jax'], stub=DATA_STUB, assumptions=DATA_ASSUME, note=NOTE),
    dict(
        id='C13', title='An interrupted training run learns what an uninterrupted one does',
        statement='Whatever crashes, storage errors and restarts a training job goes through, every checkpoint it writes and the final model are exactly the ones an undisturbed run would have at that step, given the same batches: parameters, optimizer state, learning-rate position and random keys all continue where the checkpoint left off (up to rounding if the restarted job runs on another number of processes or devices). No random key is used twice, neither by two steps nor by two parts of a step (microsteps, updates of an adversarial attack). This holds for both trainers and for every combination of optimizer, schedule, microsteps, mixup, adversarial training and partitioning.',
        quantifier=(['crash_points', 'fault_sequences', 'schedules', 'configurations', 'histories'],
                    'all crash points of any process during setup, steps, saves and commits, repeated crashes, all training options, all interleavings'),
        why='No test restarts training, let alone after a crash.',
        files=[TRAINER, 'vmoe/train/train_state.py', 'vmoe/train/optimizer.py', 'vmoe/projects/contrastive/trainer.py'],
        mechanism=[('restore of the complete state', f'{TRAINER}: restore_or_create_train_state'),
                   ('state and random keys of each step', f'{TRAINER}: train_step, wrap_train_step_with_mixup, wrap_train_step_with_adversarial_attack, accumulate_gradients_and_metrics')],
        observe=['checkpoints written by train_and_evaluate'],
        seeds=(50, 1500), real=TRAIN_REAL, stub=TRAIN_STUB, assumptions=TRAIN_ASSUME, note=NOTE),
    dict(
        id='C14', title='Training checkpoints hold whole steps, on time, and resume latest',
        statement='The training checkpoint named k holds the effect of exactly k batches (each step applying one whole batch, whatever the microsteps), the step counter k and the data position k times the batch size, the same on all processes. Checkpoints are written at step 0, at every multiple of the interval and at the last step, and old ones are only removed as the retention options say. A restarted job resumes from the latest complete checkpoint, so a crash costs at most two intervals of work; when training returns, the checkpoint of the last step is complete; a job that meets no more faults finishes, and starting a finished job again does no harm.',
        quantifier=(['crash_points', 'fault_sequences', 'schedules', 'configurations', 'histories'],
                    'all crash points, failures of background saves, storage and data errors, repeated restarts, numbers of processes, intervals, retention and prefetch options'),
        why='No test runs the training loop to a second checkpoint or restarts it.',
        files=[TRAINER, 'vmoe/projects/contrastive/trainer.py'],
        mechanism=[('training loop', f'{TRAINER}: train_and_evaluate'),
                   ('checkpoint manager', f'{TRAINER}: create_checkpoint_manager'),
                   ('resume', f'{TRAINER}: restore_or_create_train_state'),
                   ('number of steps', f'{TRAINER}: get_train_steps_and_epochs')],
        observe=['checkpoints written by train_and_evaluate, batches given to it'],
        seeds=(90, 2000), real=TRAIN_REAL, stub=TRAIN_STUB, assumptions=TRAIN_ASSUME, note=NOTE),
    dict(
        id='C15', title='Training evaluates and reports on schedule, about the right step',
        statement='During training every process evaluates (also few-shot, and in contrastive training zero-shot and retrieval, where configured) on the first step after a (re)start, on the last step and on every scheduled step, exactly once each, with the parameters of that step; the prediction of an ensemble is the mean of those of its members. Progress and training metrics are reported only by the configured process, on every scheduled step except the first one after a (re)start, once each, and describe the step they are reported for (losses, gradient and update norms); time-based reports follow the monotonic clock, so jumps of the wall clock neither add nor remove reports. The reported cost is cumulative over restarts.',
        quantifier=(['schedules', 'crash_points', 'configurations', 'fault_sequences'],
                    'all schedules of evaluation and reporting, numbers of processes, restarts, interleavings and clock jumps'),
        why='The tests call the hooks with mocks on one process; no test looks at what a training run reports.',
        files=[TRAINER, 'vmoe/projects/contrastive/trainer.py', 'vmoe/projects/contrastive/evaluators.py', 'vmoe/train/periodic_actions.py', EVAL],
        mechanism=[('hooks', f'{TRAINER}: create_evaluation_hook, create_fewshot_hook, create_progress_hook, train_and_evaluate; vmoe/projects/contrastive/trainer.py: create_retrieval_hook, create_zeroshot_hook'),
                   ('process filter', 'vmoe/train/periodic_actions.py: ReportProgress, SingleProcessPeriodicAction')],
        observe=['scalars given to the metric writer'],
        seeds=(90, 2000), real=TRAIN_REAL + ['clu.periodic_actions', 'vmoe.evaluate.fewshot', 'vmoe.projects.contrastive.evaluators'], stub=TRAIN_STUB + ['big_vision evaluators (small stand-ins called by vmoe.projects.contrastive.evaluators)'], assumptions=TRAIN_ASSUME, note=NOTE),
    dict(
        id='C16', title='Removing checkpoints deletes the matching files, only those',
        statement='When a bulk removal returns, all listed files that the predicate selects are gone, and no other file has been touched, whatever the interleaving of the removal threads and other writers. If a removal fails the call fails, and a crash in the middle has removed a subset of the selected files.',
        quantifier=(['schedules', 'crash_points', 'fault_sequences', 'inputs'],
                    'all lists, predicates, pool sizes, interleavings, crash points and storage errors'),
        why='One test removes two of four files on a healthy disk.',
        files=[BASE],
        mechanism=[('parallel map over the files', f'{BASE}: remove_checkpoints')],
        observe=['files in the directory'],
        seeds=(5000, 100000), real=CK_REAL, stub=CK_STUB, assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C17', title='An adversarial attack covers the dataset and reports what it did',
        statement='An adversarial (PGD) attack on a checkpoint restores exactly the stored parameters, attacks every example of the dataset once, and stores and reports (on every process) the number of images, errors and losses before and after the attack, prediction changes and routing changes over exactly those examples, padding never counted. No pixel moves by more than the allowed epsilon, stored examples have all their fields aligned row by row, and each batch uses its own random keys. A read error or storage error fails the attack instead of changing its result, and an attack repeated after a failure or crash gives the complete result.',
        quantifier=(['inputs', 'configurations', 'schedules', 'fault_sequences', 'crash_points'],
                    'all dataset sizes, batch sizes, numbers of processes and devices, attack parameters, models with and without routers, orders of delivery, read and storage errors and crashes at any point'),
        why='The tests mock the restore and run one process on a dataset without padding.',
        files=['vmoe/projects/adversarial_attacks/lib.py', 'vmoe/projects/adversarial_attacks/attacks.py', 'vmoe/projects/adversarial_attacks/restore.py'],
        mechanism=[('loop over the dataset and results', 'vmoe/projects/adversarial_attacks/lib.py: run_pgd_attack, ExampleStorage'),
                   ('masked statistics and the attack', 'vmoe/projects/adversarial_attacks/attacks.py: stateful_attack, stateless_attack_pgd, AttackState'),
                   ('restore', 'vmoe/projects/adversarial_attacks/restore.py: restore_from_config')],
        observe=['pgd_state.npz and the examples file in the work directory', 'scalars given to the metric writer'],
        seeds=(150, 3000), real=DATA_REAL + ['vmoe.projects.adversarial_attacks.*', 'vmoe.checkpoints.*', 'vmoe.nn.routing', 'vmoe.moe', 'vmoe.partitioning', 'vmoe.data.pjit_utils', 'jax'],
        stub=DATA_STUB + ['a linear model (with a real router)', 'tensorflow.io.gfile', 'thread pools, clocks'],
        assumptions=DATA_ASSUME + ['examples are only stored by single-process jobs (a global array cannot be copied to one process)'], note=NOTE),
    dict(
        id='C18', title='Fine-tuning starts from exactly the pretrained weights, once',
        statement='Initializing from a pretrained checkpoint gives every target array exactly the value that the first matching rule says (rename, drop, reshape, squeeze, stack in natural order, expand and tile, resize of position embeddings), with the dtype, shape and sharding of the target, whatever the processes, devices and partitioning of the pretraining and the fine-tuning jobs, and the kind of the pretrained checkpoint (sharded, a ViT file, or a directory written by Orbax). Target arrays without a source keep their value; missing, doubly assigned or mismatching arrays are refused, converted or broadcast as the flags say. A storage error fails the initialization and the pretrained checkpoint is never modified. Fine-tuning starts with step 0 and a fresh optimizer state, and a restarted job continues from its own checkpoints and ends as an undisturbed job.',
        quantifier=(['inputs', 'configurations', 'schedules', 'fault_sequences', 'crash_points'],
                    'all sets of arrays and rules, topologies of both jobs, interleavings of the restoring threads, storage errors and crash points of the fine-tuning job'),
        why='The tests map small trees of one process, and never crash or restart a fine-tuning job.',
        files=['vmoe/initialization/initialization.py', 'vmoe/initialization/mapping.py', 'vmoe/initialization/rules.py', 'vmoe/train/trainer.py', 'vmoe/checkpoints/partitioned.py'],
        mechanism=[('restore and map', 'vmoe/initialization/initialization.py: initialize_from_vmoe, initialize_from_vit, initialize_from_orbax'),
                   ('rules', 'vmoe/initialization/rules.py: Rules; vmoe/initialization/mapping.py: map_state_dict'),
                   ('only without a checkpoint', 'vmoe/train/trainer.py: restore_or_create_train_state, initialize_train_state_from_checkpoint')],
        observe=['vmoe.initialization.initialize_from_vmoe, initialize_from_vit', 'checkpoints of the fine-tuning job'],
        seeds=(200, 5000), real=['vmoe.initialization.*', 'vmoe.checkpoints.*', 'vmoe.train.*', 'vmoe.partitioning', 'jax (host devices)', 'flax'],
        stub=['tensorflow.io.gfile', 'thread pools, clocks', 'jax multi-process arrays of the pretraining job', 'orbax storage (fine-tuning)', 'vit_jax checkpoint reader (same file format)', 'orbax.checkpoint.AsyncCheckpointer.restore (one directory per array, as before OCDBT)', 'a linear model'],
        assumptions=['a completed close or rename survives a process crash', 'the processes of the fine-tuning job run the same program and configuration'], note=NOTE),
    dict(
        id='C19', title='Bulk saves and restores pair every path with its own tree',
        statement='After a bulk save has succeeded, every path holds the tree that was given for it, and a bulk restore returns for each requested path the tree stored there (in the structure of its template, if given), for any number of files, pool size and completion order. Any file a crash leaves holds a complete tree of its own path.',
        quantifier=(['schedules', 'crash_points', 'inputs'],
                    'all sets of paths, pool sizes, interleavings and crash points'),
        why='One test saves three files and restores them.',
        files=[BASE],
        mechanism=[('map over the items', f'{BASE}: save_multiple_checkpoints_async, restore_multiple_checkpoints')],
        observe=['files in the directory', 'vmoe.checkpoints.base.restore_multiple_checkpoints'],
        seeds=(3000, 60000), real=CK_REAL, stub=CK_STUB, assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C20', title='Expert-parallel MoE layers compute the routed mixture on any job',
        statement='With experts and tokens partitioned over any number of processes and devices, in any device order, a mixture-of-experts layer gives every process the outputs of its own tokens, and each token the combination (weighted by its gates) of exactly the experts that its router chose: each expert takes at most its capacity of tokens per group, first choices before second ones and, among those, by position or (batch priority) by largest gate; choices that do not fit contribute nothing; with expert-choice routing each expert takes its best tokens up to the capacity, with dense dispatch all of them, and with soft routing every slot and token its convex combination. Groups do not influence each other. Outputs, auxiliary losses and the gradients of both (finite also when the load is perfectly balanced) are (up to rounding) the same for every dispatcher, topology and partitioning, and a job that crashes while serving and restarts on another topology from the sharded checkpoint goes on giving them.',
        quantifier=(['inputs', 'configurations', 'schedules', 'crash_points', 'fault_sequences'],
                    'all numbers of processes, devices and expert partitions, device orders, numbers of experts and choices, capacities, group sizes, dispatchers, crash points and storage errors of the job'),
        why='The tests run on one device, where partitioning has no effect, with a few arrays.',
        files=['vmoe/moe.py', 'vmoe/nn/routing.py', 'vmoe/nn/vit_moe.py', 'vmoe/projects/soft_moe/router.py', 'vmoe/partitioning.py', 'vmoe/data/pjit_utils.py'],
        mechanism=[('exchange of tokens between groups and experts', 'vmoe/moe.py: _dispatch, _receive, EinsumDispatcher, ExpertIndicesDispatcher'),
                   ('capacity and priority', 'vmoe/moe.py: compute_capacity, get_top_experts_per_item_dispatcher, get_top_items_per_expert_dispatcher'),
                   ('routers and layer', 'vmoe/nn/routing.py; vmoe/nn/vit_moe.py: MlpMoeBlock; vmoe/projects/soft_moe/router.py: SoftRouter')],
        observe=['vmoe.nn.vit_moe.MlpMoeBlock applied to the global batch of a job'],
        seeds=(200, 5000), real=['vmoe.moe', 'vmoe.nn.routing', 'vmoe.nn.vit_moe.MlpMoeBlock', 'vmoe.projects.soft_moe.router', 'vmoe.checkpoints.*', 'vmoe.initialization.*', 'vmoe.data.pjit_utils', 'jax (host devices)', 'flax'],
        stub=['vit_jax MlpBlock (same layers)', 'tensorflow.io.gfile', 'thread pools, clocks', 'jax multi-process arrays of the saving job', 'jax process topology'],
        assumptions=['XLA partitions a program correctly', 'gates that differ by less than 2e-4 are not drawn (rounding may decide ties either way)'], note=NOTE),
    dict(
        id='C21', title='All processes derive the same mesh and placement, on any machine',
        statement='For any machine (CPU, GPU or a TPU grid whose processes own equal aligned blocks, numbered in any way, devices listed in any order) and any number of expert partitions, all processes of a job derive the same logical mesh: axes (expert, replica), as many partitions as asked for (at most the number of devices), every device exactly once, the devices of each process in a contiguous slice, and on CPU and GPU each process spread over as many partitions as possible; or all of them refuse it with a ValueError, which they only do when the partitions are not a product of divisors of the axes of the hardware, or these cannot be divided among its processes. The rules that assign mesh axes to the arrays of a training state give each array the axes of the first rule that matches its path, arrays of one element none, and keep the structure of the state. A job that restarts on another machine, after a crash or storage error at any point, finds its last complete sharded checkpoint and every device gets exactly its slice of the saved values.',
        quantifier=(['inputs', 'configurations', 'schedules', 'crash_points', 'fault_sequences', 'histories'],
                    'all machines of up to 64 devices, numbers of partitions, numberings, listings, states, rules, sequences of machines, crash points and storage errors'),
        why='The tests mock a few topologies as seen by one process.',
        files=['vmoe/partitioning.py', PART, BASE, 'vmoe/train/train_state.py'],
        mechanism=[('mesh', 'vmoe/partitioning.py: get_auto_logical_mesh, get_logical_mesh_default, get_logical_mesh_tile_by_process'),
                   ('placement rules', 'vmoe/partitioning.py: tree_axis_resources_from_regexes'),
                   ('slices of each device', f'{PART}: save_checkpoint, restore_checkpoint')],
        observe=['vmoe.partitioning.get_auto_logical_mesh', 'vmoe.partitioning.tree_axis_resources_from_regexes',
                 'vmoe.checkpoints.partitioned.restore_checkpoint'],
        seeds=(700, 14000), real=['vmoe.partitioning', 'vmoe.train.train_state'] + CK_REAL, stub=CK_STUB + ['devices (ids, coordinates and processes only)'],
        assumptions=CK_ASSUME, note=NOTE),
    dict(
        id='C22', title='Every training step is the one that the configuration describes',
        statement='In both trainers, on any machine, with or without microsteps and partitioned parameters, every step moves the parameters exactly as the configured optimizer says: gradients of the mean total loss (softmax or sigmoid cross entropy, those of an ensemble, or the contrastive loss) over the whole batch, scaled by the first matching factor, clipped (global norm or absolute value), transformed (SGD, momentum, Adam, the Big Vision Adafactor), decayed by the first matching weight decay, multiplied by the learning rate of the schedule at the global step, and not at all where parameters are frozen, which keep their initial values for ever. The optimizer state holds that learning rate. This continues across crashes, storage errors, restarts, also on other machines, and when a finished job is extended to more steps (the schedule is then that of the longer training). The losses, norms and array summaries reported for a step are those of that step.',
        quantifier=(['configurations', 'histories', 'crash_points', 'fault_sequences', 'schedules'],
                    'all optimizers, clippings, scalings, decays, frozen and trainable patterns, schedules, machines, microsteps, interruptions and extensions of a training'),
        why='The tests check pieces of the optimizer for one update with fixed values; no test follows parameters over the steps of a training job, let alone an interrupted or extended one.',
        files=['vmoe/train/optimizer.py', 'vmoe/train/schedule.py', 'vmoe/evaluate/ensemble.py', 'vmoe/train/train_state.py', 'vmoe/train/tree_summarizer.py', TRAINER, 'vmoe/projects/contrastive/trainer.py'],
        mechanism=[('update rule', 'vmoe/train/optimizer.py: create_optimizer'),
                   ('learning rates', 'vmoe/train/schedule.py: create_learning_rate_schedule'),
                   ('gradients and metrics of a step', f'{TRAINER}: train_step, accumulate_gradients_and_metrics; vmoe/projects/contrastive/trainer.py: train_step, sigmoid_loss'),
                   ('summaries', 'vmoe/train/tree_summarizer.py: TreeSummarizer')],
        observe=['checkpoints written by train_and_evaluate, scalars given to the metric writer'],
        seeds=(80, 2000), real=TRAIN_REAL, stub=TRAIN_STUB, assumptions=TRAIN_ASSUME, note=NOTE),
]

PURE = ('a pure function of its arguments inside of one compiled step: no '
        'schedule, clock, I/O, fault or history for a simulator to vary, only '
        'inputs; ')


def _na(id, title, statement, text, why, files, mechanism, observe, reason,
        over=('inputs', 'configurations')):
  return dict(id=id, title=title, statement=statement,
              quantifier=(list(over), text), why=why, files=files,
              mechanism=mechanism, observe=observe, reason=reason)


NOT_APPLICABLE = [
    _na('N03', 'Load and ensemble losses of the routers',
        'The load loss, and the losses of the ensemble routers, are those of the papers and minimal for balanced routing.',
        'all gates', 'Sampled values only.', ['vmoe/nn/routing.py', 'vmoe/nn/ensemble_routing.py'],
        [('losses', 'vmoe/nn/routing.py')], ['metrics of the routers'], PURE + 'numerical identities.'),
    _na('N06', 'Preprocessing ops transform images and labels as named',
        'Every op in a preprocessing string has the effect of its name on every example.',
        'all examples and op strings', 'Sampled examples only.', ['vmoe/data/pp_ops.py'],
        [('ops', 'vmoe/data/pp_ops.py')], ['examples'], PURE + 'input generation.'),
    _na('N07', 'Interpolation used by the resizing rules',
        'Resized position embeddings are the values of the interpolation that ViT uses, for all orders and grid sizes.',
        'all grid sizes', 'A few sizes are tested.', ['vmoe/initialization/rules.py'],
        [('zoom', 'vmoe/initialization/rules.py: ZoomTransformation, VitZoomTransformation')], ['map_state_dict'],
        PURE + 'compares one numerical routine with another (that the resized values reach the right arrays of all processes is C18).'),
    _na('N08', 'Optimal-transport routers',
        'The sparsity-constrained routers give the marginals and the sparsity of their papers.',
        'all inputs', 'Sampled inputs only.', ['vmoe/projects/sparsity_constrained_ot'],
        [('routers', 'vmoe/projects')], ['router outputs'], PURE + 'numerical identities.'),
    _na('N09', 'Members of an ensemble transformer are independent',
        'The prediction of each member of an ensemble Vision Transformer depends on its own experts and copies of the images only.',
        'all inputs and parameters', 'Sampled inputs only.', ['vmoe/nn/vit_moe_ensemble.py'],
        [('groups of experts', 'vmoe/nn/vit_moe_ensemble.py')], ['predictions of the members'],
        PURE + 'a numerical identity of one model. (The losses and predictions of vmoe/evaluate/ensemble.py are part of C15 and C22.)'),
    _na('N10', 'Configuration strings are parsed as Python calls, safely',
        'Call strings in configurations are parsed into exactly the named callable and literal arguments and never evaluate anything else.',
        'all strings', 'A few strings are tested.', ['vmoe/utils.py'],
        [('parser', 'vmoe/utils.py: parse_call')], ['parse_call'], PURE + 'a fuzzing target.'),
    _na('N12', 'Zero-shot and retrieval accuracies of the contrastive evaluators',
        'The numbers that the contrastive evaluators report are the zero-shot and retrieval accuracies over exactly their datasets.',
        'all datasets and processes', 'Not tested at all.', ['vmoe/projects/contrastive/evaluators.py'],
        [('evaluators', 'vmoe/projects/contrastive/evaluators.py')], ['metrics'],
        'the accuracies are computed by classes of the big_vision package, which is not installed here: there is no real code to run in the simulator (when and with which parameters vmoe runs them is C15).',
        over=('inputs', 'schedules')),
]

NOTES = 'See DESIGN.md.'
