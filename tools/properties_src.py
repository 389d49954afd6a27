P("C01", "Partition epochs and shards cover every sequence exactly once",
  "For any dataset, any partition-epoch count and any number of data-parallel shards, the sequences handed out over all partitions of one full epoch and all shards are exactly the sequences of the (ordered, filtered) corpus: none is lost, none is handed out twice. The parts are balanced (sizes differ by at most one).",
  ["inputs", "configurations"], "all corpus sizes, partition counts, shard counts, orderings, epochs, seq filters and repeat factors",
  "Tests sample a handful of (num_seqs, partition_epoch, shards) triples; losing one sequence in one remainder class goes unnoticed in training.",
  ["returnn/datasets/basic.py", "returnn/datasets/generating.py", "returnn/datasets/hdf.py", "returnn/datasets/map.py", "returnn/datasets/meta.py"],
  [("partition and sharding of the seq order", "Dataset._apply_partition_epoch_and_sharding"), ("seed constant during a full epoch", "Dataset._get_random_seed_for_epoch")],
  "SeqOrder.tla is checked exhaustively for small corpora by TLC (split is a balanced partition); traces of the real ordering code and of real datasets over an enumerated + seeded configuration grid are validated by TLC against it. Bounded by the grid (up to ~60 seqs, 7 partitions, 4 shards).",
  observe=("Dataset.init_seq_order / get_current_seq_order / sequential reading",))
P("C02", "Sequence ordering schemes keep their documented order and are reproducible",
  "Every sequence ordering yields a permutation of the corpus (or its documented subset/repetition) with the order it documents (sorted by length, reverse, laplace bins, sort_bin_shuffle, random blocks of N epochs and so on). The order is a function of configuration and epoch only: a fresh process, a re-initialisation or a different history of epochs gives the same order.",
  ["inputs", "configurations", "histories"], "all orderings and their parameters, corpora with arbitrary lengths, all epochs, seeds and epoch histories",
  "Tests check a few orders on one small corpus; reproducibility across histories and the order relation for every length profile is not settled by samples.",
  ["returnn/datasets/basic.py"],
  [("ordering schemes", "Dataset.get_seq_order_for_epoch"), ("seed per epoch", "Dataset._get_random_seed_for_epoch")],
  "The order relations are TLA+ clauses (SeqOrder.tla); TLC validates every order observed from the real code over an enumerated + seeded grid of schemes, length profiles, epochs and histories.",
  observe=("Dataset.get_seq_order_for_epoch", "Dataset.init_seq_order"))
P("C03", "Any legal dataset access history sees the same sequences",
  "Whatever a consumer does within the access protocol (look-ahead probing for the end, overlapping load windows, skipping, metadata before data, abandoning an epoch half-way and re-initialising the same or another epoch), position i of epoch e always denotes the same sequence: its data, tag, length, the answer whether position i exists, the number of sequences and the completed fraction agree. Streaming sources are asked for each sequence once and in order.",
  ["histories", "inputs"], "all legal histories of init/probe/load/data/tag/length/fraction/finish calls, over the dataset kinds of the library",
  "Tests read datasets front to back; interleavings of probing, windows and re-initialisation are not sampled.",
  ["returnn/datasets/basic.py", "returnn/datasets/cached2.py", "returnn/datasets/meta.py", "returnn/datasets/map.py", "returnn/datasets/hdf.py", "returnn/datasets/postprocessing.py", "returnn/datasets/generating.py"],
  [("window of loaded sequences", "CachedDataset2._load_seqs"), ("end detection", "CachedDataset2.is_less_than_num_seqs"), ("re-initialisation", "MetaDataset.init_seq_order")],
  "The access protocol is a TLA+ state machine (DatasetAccessMC, exhaustive for small bounds); TLC-generated behaviours and seeded random histories are replayed into 15 kinds of real datasets and the recorded traces validated by TLC.",
  observe=("Dataset public access methods",))
P("C08", "Every batch plan covers each sequence and frame as configured, within limits",
  "For any corpus and batching configuration, the generated batches contain every sequence (after the documented filtering by length) exactly once and in order; with chunking, the chunks of a sequence cover all its frames with exactly the configured step and size, aligned over all data streams; no batch exceeds batch_size, max_seqs, max_seq_length or max_total_num_seqs unless a single sequence alone does so; frame-wise batching partitions the frames.",
  ["inputs", "configurations"], "all length profiles, data streams, chunk sizes/steps, batch limits, and batching modes (recurrent, chunked, frame-wise)",
  "Tests use a few hand-written lengths; a lost last chunk or an exceeded limit in one remainder class goes unnoticed.",
  ["returnn/datasets/basic.py", "returnn/engine/batch.py"],
  [("batch generation", "Dataset._generate_batches"), ("chunk iteration", "Dataset.iterate_seqs"), ("batch slices", "Batch.add_frames / try_sequence_as_slice / add_sequence_as_slice")],
  "Batching.tla defines the legal batch plans; BatchingMC is checked exhaustively for small length profiles; real batch plans over enumerated and seeded configurations are validated by TLC.",
  observe=("Dataset.generate_batches", "Batch"))
P("C09", "The PyTorch data pipeline delivers every sequence unaltered exactly once",
  "For any batching and chunking options (batch_size per key or for all, max_seqs, max_seq_length filters, chunking with all min-chunk-size rules, bucketed or online-shuffled batches, extra data pipes), the torch pipeline emits batches which together contain each remaining sequence or chunk exactly once, with unaltered content and lengths, padding only beyond the length, in dataset order (unless shuffling was requested), and within the configured limits.",
  ["inputs", "configurations"], "all length profiles, keys, batch limits, chunkings and pipe combinations",
  "Tests run single configurations; lost tail chunks, wrong lengths of one stream or limit overruns depend on lengths and options.",
  ["returnn/torch/data/pipeline.py"],
  [("batching", "BatchingIterDataPipe"), ("chunking", "ChunkingIterDataPipe"), ("collation", "collate_batch"), ("bucketing/shuffling", "BucketOrderingIterDataPipe / ShufflingDataPipe")],
  "Same Batching.tla specification; traces recorded from the real data pipes over enumerated and seeded configurations are validated by TLC.",
  observe=("data pipe output batches",))
P("C11", "The file cache only ever hands out complete, up-to-date copies",
  "FileCache.get_file returns the path of a complete copy of the current source file, whatever processes crash at whatever point while filling the cache, however many processes ask concurrently, when the source was modified (before or during an earlier copy), and when the disk is full for a while (it retries). A partially copied file never becomes visible under the cache path. Files in use are kept alive until released and never deleted by the clean-up, which deletes oldest first, only as much as configured or needed, and fails only if it cannot free enough.",
  ["crash points", "schedules", "histories", "faults"], "all crash points, modification points, full-disk points, interleavings of processes, and directory states at clean-up",
  "Tests run get_file in a healthy single process; crash points, races with modification and directory states are not sampled.",
  ["returnn/util/file_cache.py", "returnn/util/basic.py"],
  [("copy under lock, temp file and rename", "FileCache._copy_file_if_needed"), ("staleness check", "FileCache._check_existing_copied_file_maybe_cleanup"), ("keep-alive", "_TouchFilesThread"), ("policy", "FileCache.cleanup")],
  "FileCacheMC (one action per file system operation, crashes and modifications anywhere) is model-checked incl. liveness; the real code is driven one file system operation at a time: every crash/modification/full-disk point of a get_file is enumerated, TLC behaviours are replayed with several processes, and TLC validates the recorded traces and clean-up decisions.",
  observe=("FileCache.get_file", "FileCache.release_files", "FileCache.cleanup"))
P("C12", "The lock file gives mutual exclusion and survives crashed holders",
  "At most one live process holds a LockFile at a time, whatever the interleaving; a lock of a live holder is never removed by others; a lock left by a crashed process is taken over after the timeout, and not before; every waiter eventually obtains the lock when the others release it or die; unlock leaves no lock behind; is_locked tells the truth.",
  ["schedules", "crash points"], "all interleavings of file system operations of several processes, deaths at any operation",
  "Tests lock and unlock in one process; interleavings and crashes are not sampled.",
  ["returnn/util/basic.py"],
  [("lock/unlock/takeover", "LockFile.lock / LockFile.unlock / LockFile.maybe_remove_old_lockfile")],
  "LockFileMC is model-checked (safety and progress) with processes dying anywhere; the real LockFile code is scheduled one file system operation at a time following TLC behaviours and seeded schedules; TLC validates the observed lock file life cycle. One known finding (takeover race).",
  observe=("LockFile.lock", "LockFile.unlock", "LockFile.is_locked"))
P("C13", "The LRU memo cache returns the right value and respects its bound",
  "lru_cache returns, for every history of calls, concurrent calls, explicit set/peek/pop, resizing and clearing, the value which was computed or set last for exactly these arguments; it evicts least recently used entries first, never exceeds maxsize, and its statistics and length are those of the history.",
  ["histories", "schedules"], "all histories of cache operations with up to three overlapping calls, argument forms and sizes",
  "Tests run one short history.",
  ["returnn/util/lru_cache.py"],
  [("cache", "lru_cache / _lru_cache_wrapper")],
  "LruCacheMC is explored exhaustively for small keys/sizes; TLC behaviours and seeded histories are replayed into the real cache and validated by TLC.",
  observe=("lru_cache wrapper methods",))
P("C15", "The learning rate follows its schedule; its history survives restarts",
  "The learning rate used in an epoch is a function of the configuration and of the recorded history only (constant, list, newbob with all its variants, multi-epoch averaging, min/max, warmup, user-defined function), identical whether training ran through or was stopped and restarted at any point. The learning rate file is at any crash point either the old or the new complete history; loading it gives back all epochs, rates and scores; a score is never attributed to another epoch.",
  ["histories", "crash points", "configurations"], "all score histories, restart points, control types and options, crash points while writing the file",
  "Tests evaluate single newbob steps; a dependence on in-memory state or a non-atomic file write only shows after a restart at one particular point.",
  ["returnn/learning_rate_control.py"],
  [("decision", "LearningRateControl.calc_learning_rate_for_epoch and subclasses"), ("persistence", "LearningRateControl.save / load")],
  "LearnRate.tla states the control rules over integer-scaled histories; LearnRateMC explores restart histories; the real controllers are run over enumerated and seeded histories with restarts at every point and crashes at every file system operation of save(), the traces are validated by TLC.",
  observe=("LearningRateControl.get_learning_rate_for_epoch", "set_epoch_error", "save", "load"))
P("C16", "Checkpoint clean-up keeps what it promises; resume picks the right epoch",
  "cleanup_old_models never deletes one of the last N models, an explicitly kept epoch, or one of the best N models of any recorded score (nan and missing scores count as bad); it deletes model and optimizer state together, everything else is deleted, dry runs delete nothing, and over a whole training the best model ever seen stays. Training resumes from the last epoch with complete model and optimizer files (or from exactly the epoch configured), with the matching file name.",
  ["histories", "configurations"], "all histories of saved epochs, scores, clean-ups, restarts; all sets of existing model/optimizer files",
  "Tests run one history; losing the best model needs a particular score history.",
  ["returnn/engine/base.py", "returnn/torch/engine.py"],
  [("clean-up", "EngineBase.cleanup_old_models"), ("resume", "EngineBase.get_epoch_model / get_train_start_epoch / get_existing_models"), ("deletion", "Engine.delete_model")],
  "Retention.tla gives the local clean-up rule; RetentionMC proves (exhaustively for small bounds) that any implementation of the rule keeps the best model ever; histories with seeded scores and all subsets of files of a few epochs are executed with the real code on disk and validated by TLC.",
  observe=("files left after cleanup_old_models", "EngineBase.get_epoch_model"))
P("C04", "MultiProcDataset delivers what the wrapped dataset delivers",
  "For any number of workers, buffer size and timing of the worker processes, MultiProcDataset (sharding_method seq_order and dedicated) delivers over every legal access history (epochs, partition epochs, abandoned and re-initialised epochs, skipped sequences, seq_list/seq_order, finish_epoch) exactly the sequences of the wrapped dataset: each position has the right tag and data, none is lost or delivered twice, replies of an abandoned epoch never leak into the next one, and it never blocks for ever.",
  ["schedules", "histories", "configurations"], "all worker timings, worker counts, buffer sizes and legal access histories",
  "Tests read two or three epochs front to back with one timing.",
  ["returnn/datasets/multi_proc.py", "returnn/datasets/meta.py"],
  [("seq order and worker loop", "MultiProcDataset._seq_order_proc_loop / MultiProcDataset._worker_proc_loop"), ("collecting", "MultiProcDataset._collect_single_seq")],
  "MultiProcMC models seq-order process, workers and consumer with re-initialisation, skips and stale replies (safety and progress, model-checked); seeded histories run on the real dataset with real processes and TLC compares with the wrapped dataset.",
  observe=("Dataset public access methods",))
P("C05", "DistributeFilesDataset covers every file exactly once per full epoch",
  "For any set of files and sizes, any partition_epoch, any number of shards and any ordering, the files of all sub-epochs (and all shards) of one full epoch are exactly all files, each in one place, distributed evenly by size; every sub-epoch delivers exactly the sequences of its files, also when read through preloading worker processes over any history of epochs (forward, backward, repeated, abandoned, skipped, finished with and without freeing).",
  ["inputs", "histories", "schedules", "configurations"], "all file sets with sizes, partition and shard counts, orderings, preload settings, epoch histories",
  "Tests sample two or three file lists and go forward through epochs.",
  ["returnn/datasets/distrib_files.py", "returnn/datasets/basic.py"],
  [("file distribution", "DistributeFilesDataset._distribute_evenly_by_size"), ("epochs and workers", "DistributeFilesDataset.init_seq_order"), ("worker protocol", "_WorkerProcParent")],
  "DistribFilesMC checks the distribution law and the preloading protocol exhaustively for small bounds; real file sets and histories are driven and validated by TLC.",
  observe=("DistributeFilesDataset.init_seq_order", "Dataset public access methods"))
P("C06", "Composed datasets deliver exactly what their parts deliver",
  "ConcatDataset, CombinedDataset (interleaved by epoch order, random, sampling_sizes, repeat), MetaDataset (data_map, seq_list, control dataset, per-part tags), ConcatSeqsDataset (postfix removal, padding), MultiEpochDataset and VariableDataset deliver, for any parts and orders and any load windows, items whose every stream is exactly the right sequence of the right part, in the composition's documented order or multiset, over each full epoch exactly once, with even sub-epochs and the right num_seqs.",
  ["inputs", "configurations", "histories"], "all parts (sizes, orders, missing keys, unknown length), all order modes, partition epochs, load windows",
  "Tests compose two small datasets with one order each.",
  ["returnn/datasets/meta.py", "returnn/datasets/multi_epoch.py", "returnn/datasets/basic.py"],
  [("seq order of the composition", "CombinedDataset._expand_dataset_sec_idxs / MetaDataset.get_seq_order_for_epoch"), ("data", "MetaDataset._collect_single_seq / ConcatSeqsDataset._collect_single_seq")],
  "Compose.tla defines the law of each composition; ComposeMC checks the reference machine; real compositions over parts whose frames identify themselves are validated by TLC.",
  observe=("Dataset public access methods",))
P("C07", "What is written to HDF files is what is read from them",
  "For any history of writer sessions - SimpleHDFWriter batches (padded, one or several dynamic axes, dense/sparse/string/scalar extra streams, labels, empty sequences), extension of existing files, HDFDatasetWriter dumps of other datasets, also several files together and NextGen HDF files - HDFDataset gives back exactly the sequences in order: tags, lengths, every value of every stream, dtypes and labels, by position and by tag. A writer which crashes anywhere never leaves a partial file at the destination: it is as before, or complete.",
  ["inputs", "histories", "crash points"], "all batch shapes, lengths, streams, sessions, data keys and crash points of close",
  "Tests write one or two files of one shape; key-dependent column orders, extension histories and crash points are not sampled.",
  ["returnn/datasets/hdf.py", "returnn/util/basic.py"],
  [("batch writer", "SimpleHDFWriter.insert_batch / close"), ("dump", "HDFDatasetWriter.dump_from_dataset"), ("reader", "HDFDataset.add_file / HDFDataset._get_data_by_real_seq_idx / NextGenHDFDataset")],
  "HdfStore.tla specifies files as sequences of records incl. unpadding and publication; HdfStoreMC (crash anywhere, extension) is model-checked; seeded histories of the real writers, killed at enumerated file system operations, are read back and validated by TLC.",
  observe=("HDFDataset public access methods", "files on disk"))
P("C17", "A training which crashes and restarts anywhere equals the uninterrupted one",
  "With the torch engine, a training killed at any point (any file system operation, also in the middle of a file write) and restarted, any number of times, goes through exactly the steps of the uninterrupted training: it resumes from the last complete checkpoint (never further back than the last finished save, never from a torn file), and parameters, optimizer state, step counters, learning rates, data order, recorded scores and final model are those of the uninterrupted training. A training extended to more epochs continues in the same way.",
  ["crash points", "histories"], "all crash points, several crashes, save intervals, clean-up settings, optimizers, schedules, orderings",
  "Tests train without crashing; crash points during save/clean-up are not sampled.",
  ["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/engine/base.py", "returnn/learning_rate_control.py"],
  [("save", "Engine._save_model / Updater.save_optimizer"), ("resume", "EngineBase.get_epoch_model / Engine._load_model / Updater.load_optimizer"), ("clean-up", "EngineBase.cleanup_old_models")],
  "CheckpointMC (crash anywhere in save/clean-up, restarts; safety and progress) is model-checked; real trainings are killed at file system operations (sampled in quick, every one in thorough) and restarted; TLC compares each step with the uninterrupted run.",
  observe=("train steps", "checkpoint files", "learning rate file"))
P("C18", "Each update applies exactly the gradients of its batches and scores add up",
  "In the torch training loop, every parameter update uses exactly the gradients of the batches since the previous update (constant or dynamic gradient accumulation), clipped, with the learning rate in effect in that step (per-epoch, dynamic function, multiplier) and weight decay for exactly the selected parameters; frozen parameters and evaluation never change anything. Loss scales, normalisations and error signals count as documented. The recorded train and dev scores of an epoch are the properly weighted means over all its sequences, independent of batching, and each sequence counts once.",
  ["inputs", "configurations", "histories"], "all corpora, batchings, accumulation and learning rate settings, loss definitions, epochs",
  "Tests check that training runs or the loss decreases; a lost batch gradient or a wrongly weighted score still trains.",
  ["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/frontend/run_ctx.py"],
  [("train loop", "Engine.train_epoch / Engine._run_step"), ("update", "Updater.step / Updater.set_learning_rate"), ("losses", "RunCtx.mark_as_loss / Loss.get_scaled_reduced_loss"), ("accumulated scores", "NumbersDict sums in Engine")],
  "TrainLoop.tla is the training loop in exact integer arithmetic (TrainLoopMC checked for small bounds); real trainings of a linear model on integer data are recorded step by step and every parameter, loss and score is validated by TLC.",
  observe=("parameters before each step", "recorded scores"))
P("C10", "Dataset post-processing delivers exactly what the mapping functions define",
  "For any wrapped dataset, any chain of sequence maps and stream maps (mapping, filtering, duplicating, merging, re-tagging, reordering like LaplaceOrdering) and any history of epochs (also abandoned and repeated ones) and load windows, PostprocessingDataset delivers exactly the sequences the functions define on the wrapped dataset's epoch: data, tags, order, nothing lost or repeated; random functions depend on the epoch (and seed) only; the completed fraction is monotone and the end is recognised.",
  ["inputs", "configurations", "histories"], "all chains of maps, all corpora (sized, partitioned, streaming), all epoch and access histories",
  "Tests use one pipeline on one dataset read once; chains, empty results, restarts and abandoned epochs are not sampled.",
  ["returnn/datasets/postprocessing.py", "returnn/datasets/cached2.py"],
  [("mapping", "PostprocessingDataset._build_mapping_iter / PostprocessingDataset._collect_single_seq"), ("reordering", "LaplaceOrdering"), ("composition", "Sequential")],
  "Postproc.tla defines stages as operators on sequences of records; PostprocMC (incremental laplace machine = laplace order, terminates) is model-checked exhaustively for small sources; recorded epochs of the real dataset over seeded chains and histories are validated by TLC.",
  observe=("PostprocessingDataset public access methods",))
P("C24", "Forwarding hands every sequence to the callback exactly once, without padding",
  "For any dataset, batching, ordering and model outputs (any axis order, own time axes, several dynamic axes, beams with own lengths, scalars), forward_with_callback calls init once, then process_seq exactly once per sequence with its tag and exactly its own part of every output - without batch axis and without padding - and finish once; also when batches are split because memory ran out in any step, and for repeated forwards.",
  ["inputs", "configurations", "faults"], "all corpora, batchings, output layouts, and out-of-memory points",
  "Tests forward a few sequences of one layout; padding leaks depend on the length profile and layout, and the out-of-memory path is not run at all.",
  ["returnn/torch/engine.py", "returnn/torch/data/extern_data.py", "returnn/torch/data/tensor_utils.py", "returnn/forward_iface.py"],
  [("forward loop", "Engine.forward_with_callback"), ("splitting on out-of-memory", "raw_dict_split_batch"), ("batch to raw tensors", "collate_batch / raw_dict_to_extern_data")],
  "Forward.tla defines the callback protocol and the outputs of each sequence; ForwardMC (batching and splitting on faults) is model-checked; traces of the real engine with garbage in all padding and injected out-of-memory errors are validated by TLC.",
  observe=("ForwardCallbackIface calls",))
P("C19", "Cached positional encodings are those of the dims and offsets asked for",
  "Whatever was computed before, and whatever dims were freed, created anew or got other sizes in the meantime, sinusoidal_positional_encoding and relative_positional_encoding return an encoding over exactly the dims asked for with exactly the positions asked for (dim sizes, offsets, single-step or full sequence, base, dtype): the cache is never observable.",
  ["histories", "inputs"], "all histories of calls, dim life times, re-sizings and argument combinations",
  "Tests compute an encoding once per process; wrong hits and lookups with dead dims need a history.",
  ["returnn/frontend/_cache.py", "returnn/frontend/attention.py", "returnn/util/lru_cache.py"],
  [("cache", "Cache.get / Cache.set / DimWrapper"), ("encodings", "relative_positional_encoding / sinusoidal_positional_encoding")],
  "PosEnc.tla defines the positions; PosEncMC (identification of dims, life times, re-use of ids) is model-checked exhaustively for small bounds; seeded histories of real calls are decoded to positions and validated by TLC.",
  observe=("rf.sinusoidal_positional_encoding", "rf.relative_positional_encoding"))
P("C20", "Dim math computes the sizes it says, and dim equality is sound",
  "For any expression over dims (+, -, *, //, ceildiv, truediv, their left-hand variants, declare_same_as, copies) of static, scalar-dynamic and per-sequence-dynamic dims, whatever simplification is applied, the size of the derived dim is, per sequence, the arithmetic on the operands' sizes; its dim value is never below the longest sequence; its mask is the prefix of each sequence. Equality is an equivalence relation that agrees with the hash, identifies the same expression built twice, and never identifies dims of different sizes or separately created dims; when the sizes change from step to step, rebuilt expressions follow.",
  ["inputs", "histories"], "all dim expressions (without negative intermediate dims) over all sizes, orders of construction and evaluation, and size changes between steps",
  "Tests cover a few hand-written expressions; simplification rules, caches and equality interact, and each wrong rule needs one particular nesting.",
  ["returnn/tensor/_dim_extra.py", "returnn/tensor/dim.py"],
  [("simplification", "_OpLinearTerm / _OpMultTerm"), ("sizes", "_DimMixin.complete_dyn_size"), ("equality", "_DimMixin.is_equal / _DimMixin._eq_simple / __hash__"), ("cache", "_CacheDimMath / reset_eager"), ("mask", "_DimMixin.get_mask")],
  "DimAlg.tla evaluates expressions on sequences of sizes and states the equality laws; DimAlgMC (a simplifying linear-term machine) is model-checked for small bounds; seeded expressions built through the real operators are validated by TLC. Bounded: up to ~12 nodes, batch <= 3, sizes <= ~50.",
  observe=("Dim operators, get_size_tensor, get_dim_value, get_mask, ==, hash",))
P("C21", "Frontend ops on padded batches compute what they define on the sequences",
  "For any chain of RETURNN frontend ops over the time and feature axes of a padded batch (elementwise, position, reverse, shift, pad, slice, prefix/suffix concat, cumulative and total reductions, masked select/scatter, gather, where, windows, pooling and convolution with any padding/stride/dilation, unfold, stack/split, pack/merge of axes, scatter, top-k, sort, matmul, edit distance), the result - values and resulting lengths - is, sequence by sequence, what the op defines on that sequence alone: padding frames are never visible and no axis is mixed up, in the torch backend.",
  ["inputs", "configurations"], "all chains of ops, all length profiles, axis orders, dtypes and padding contents",
  "Tests run each op on one batch, often unpadded; leaks of padding and wrong lengths depend on the length profile and on the ops before.",
  ["returnn/frontend/array_.py", "returnn/frontend/conv.py", "returnn/frontend/reduce.py", "returnn/torch/frontend/_backend.py"],
  [("array ops", "rf.concat / rf.pad / rf.slice / rf.masked_select / rf.masked_scatter / rf.reverse_sequence / rf.shift_right / rf.gather / rf.window"), ("reductions", "TorchBackend.reduce / rf.cumsum / rf.top_k"), ("convolution, pooling", "TorchBackend.conv / TorchBackend.pool / make_conv_out_spatial_dims")],
  "Ragged.tla defines each op on sequences (no padding exists there); RaggedMC checks laws between the definitions; chains of real ops on garbage-padded batches are validated by TLC. Bounded: batch <= 4, lengths <= ~12, integer-valued data.",
  observe=("raw tensors and dim sizes of the results",))

P("C22", "Model modules give each sequence its result, whatever it is batched with",
  "For every sequence module of the RETURNN frontend (self-attention variants, relative-position attention, recurrent cells, normalization, convolution and conv modules, Transformer/Conformer encoders and decoders, losses, spectral features), the result for a sequence - and the gradient with respect to its frames - does not depend on the other sequences of the batch, the amount or content of padding, or the axis order of the inputs; a causal module's result on a prefix is the prefix of its result, and running it step by step with its explicit state gives the same as running it on the whole sequence.",
  ["inputs", "configurations", "histories"], "all modules x options x length profiles x batch compositions x axis orders x split points of a step-by-step run",
  "Tests run a module on one batch and compare at best with a reference implementation on the same batch; leaks between padding and content, and state mistakes, need other compositions of the same sequences.",
  ["returnn/frontend/attention.py", "returnn/frontend/rec.py", "returnn/frontend/normalization.py", "returnn/frontend/conv.py", "returnn/frontend/encoder/conformer.py", "returnn/frontend/decoder/transformer.py", "returnn/frontend/loss.py", "returnn/torch/frontend/_backend.py"],
  [("attention", "rf.SelfAttention / CausalSelfAttention / RelPosSelfAttention / CrossAttention and their *State"), ("recurrence", "rf.LSTM / rf.scan"), ("models", "ConformerEncoder / TransformerEncoder / TransformerDecoder")],
  "SeqModel.tla: one abstract function per module from sequences to results; every observed run (batch composition, padding, order, prefix, step-by-step) has to be a run of the same function; SeqModelMC checks the design clauses on a small machine. Numeric comparison with tolerance. Bounded: lengths <= ~9, batch <= 4.",
  observe=("results and input gradients per sequence",))

P("C23", "A TF recurrent layer computes its step equations, optimized or not",
  "For every sub-network of a TensorFlow RecLayer (layers referring to each other, to previous frames, to initial outputs, to layers outside of the loop, masked computations, gathers, cumulative sums), with a given number of frames or a dynamic end condition: the output is, for each sequence of a padded batch, what the step-by-step equations of the sub-network define; it is the same with and without moving layers out of the loop, and independent of the padding and of the other sequences.",
  ["inputs", "configurations"], "all sub-networks (graphs of layers with prev-references) x batches x end conditions x with/without optimization",
  "Tests sample a few hand-written networks; which layers get moved out of the loop and how their frames are aligned depends on the whole graph.",
  ["returnn/tf/layers/rec.py", "returnn/tf/layers/basic.py", "returnn/tf/network.py"],
  [("loop construction, moving layers out", "_SubnetworkRecCell"), ("masked computation", "MaskedComputationLayer / UnmaskLayer"), ("accumulated outputs", "_SubnetworkRecCell.get_output / _get_output_dim_tag")],
  "RecNet.tla is an interpreter of the step equations; RecNetMC checks it on all small nets (determinism, causality, moved-out layers = pointwise ones); traces of real TFNetworks built from seeded random sub-networks are validated by TLC. Bounded: <= 7 layers, lengths <= 7, integer-valued data.",
  observe=("layer outputs of TFNetwork",))

P("C25", "TF layers on padded batches compute what they define on the sequences",
  "For any chain of TensorFlow layers over the time and feature axes of a padded batch (elementwise, positions, shift, pad, slice, per-sequence slice, prefix/postfix, cumulative sums, repeat, resize, masked selection, gather/scatter, switch, windows, pooling, convolution, top-k, split/merge of axes, flatten/unflatten of batch and time, chunking, stacking, linear, dot, reductions over time, feature, batch), the result - values and lengths - is, sequence by sequence, what the layers define on that sequence alone, in any axis order; padding is never visible.",
  ["inputs", "configurations"], "all chains of layers, all length profiles, axis orders and padding contents",
  "Tests run each layer on one batch, mostly in batch-major layout; leaks of padding, wrong axes and wrong lengths depend on the length profile, the axis order and on the layers before.",
  ["returnn/tf/layers/basic.py", "returnn/tf/layers/rec.py", "returnn/tf/util/basic.py", "returnn/tensor/_tensor_extra.py"],
  [("slicing", "SliceLayer / SliceNdLayer / GatherLayer / ScatterNdLayer / ShiftAxisLayer"), ("length changing layers", "PadLayer / PrefixInTimeLayer / PostfixInTimeLayer / RepeatLayer / WindowLayer / ConvLayer / PoolLayer"), ("axes", "MergeDimsLayer / SplitDimsLayer / FlattenBatchLayer / ReduceLayer / SwapAxesLayer")],
  "Ragged.tla (shared with C21) defines the ops on sequences; RaggedMC checks laws between the definitions; chains of real layers on garbage-padded batches are validated by TLC. Bounded: batch <= 3, lengths <= ~20, integer-valued data; strided convolution/pooling with same padding only as same_static (TF's SAME depends on the batch by definition).",
  observe=("layer outputs and their sequence lengths",))
P("C26", "CTC automata, Baum-Welch, Viterbi and edit distances are exact",
  "For any batch of label sequences, frame scores and lengths: the CTC/RNA automata accept exactly the alignments of the labels, each by exactly one path; Baum-Welch yields the sum over all paths and the exact soft alignment, Viterbi a best path and its score, and the CTC losses these values and gradients (none in the padding); the edit distance ops (plain, row-wise, optimal completion, per successor) yield the minimal number of edits; no batch entry influences another.",
  ["inputs"], "all label sequences, weights, automata, lengths and batch compositions",
  "Tests compare a few fixed batches with reference implementations; which paths are missing or counted twice depends on repeated labels, blank position, lengths and the neighbours in the batch.",
  ["returnn/native_op.py", "returnn/tf/native_op.py", "returnn/util/fsa.py"],
  [("automata", "get_ctc_fsa_fast_bw / GetCtcFsaFastBwOp"), ("sums and best paths", "FastBaumWelchOp / FastViterbiOp / ctc_loss / ctc_loss_viterbi"), ("edit distance", "EditDistanceOp / OptimalCompletionEditDistanceOp / NextEditDistanceRowOp / NextEditDistanceReduceOp")],
  "Align.tla defines alignments by collapsing strings, sums over all of them with integer weights (exact), paths of automata, and the Levenshtein distance; AlignMC checks the forward recursion, the row recursion and the completion law against the definitions; results of the compiled native ops (CPU) are validated by TLC. Bounded: <= 5 frames, <= 4 classes, <= 5 symbols, batch <= 4. A sequence without any alignment has, by convention of the op, score 0 and no soft alignment.",
  observe=("outputs and gradients of the ops",))

P("C27", "The native code cache only hands out complete, up-to-date libraries",
  "Whatever number of processes ask for (the same or different) native code in one cache directory at the same time, wherever any of them crashes, and whenever the headers change: each call that returns names a library which is complete, belongs to the code asked for and is not older than the headers at the time of the call, and it stays complete while in use; calls do not fail and do not hang because of what other or crashed processes do; recently used libraries are not cleaned up.",
  ["schedules", "crash points", "histories"], "all interleavings of file system operations of any processes, all crash points",
  "Tests compile in one process; an incomplete library is only seen when another process looks at the right moment, or after a crash at the right moment.",
  ["returnn/util/native_code_compiler.py", "returnn/util/basic.py"],
  [("compile under lock", "NativeCodeCompiler._maybe_compile / _maybe_compile_inner"), ("validity", "NativeCodeCompiler._need_recompile / _save_info"), ("clean-up", "NativeCodeCompiler._cleanup_old")],
  "NativeCache.tla / NativeCacheMC: the algorithm with one action per file operation, crashes, changed headers; safety and progress checked by TLC (with either fix removed, TLC finds the races of the pinned commit); the real code is run under controlled schedules (TLC's and seeded) with a stand-in compiler. Bounded: <= 4 processes, 2 codes.",
  observe=("returned file names and the content of the files",))

P("C28", "Text is turned into exactly the labels which vocabulary and options define",
  "For any vocabulary (file format, special symbols by option or file, appended labels) and any text: word, character and byte vocabularies yield the ids of the units in order, unknown ones the unknown label or an error; byte-pair encoding yields the normal form of the merge rules (in order of priority, restricted to the vocabulary); sampled segmentations spell the word and are reproducible by seed, depth-first search prefers the longest units, enumeration finds all; decoding inverts encoding. Text datasets yield every sentence of the files once, in order, with its tag and these labels, for all keys in parallel.",
  ["inputs", "configurations"], "all vocabularies, merge tables, options and texts (incl. unknown words, empty lines, several files, missing final newline)",
  "Tests encode a few sentences with one vocabulary; a wrong merge order, a lost last sentence or a label out of the range of the data type shows only for particular texts and vocabularies.",
  ["returnn/datasets/util/vocabulary.py", "returnn/util/bpe.py", "returnn/datasets/lm.py"],
  [("vocabularies", "Vocabulary / CharacterTargets / Utf8ByteTargets / BytePairEncoding / SamplingBytePairEncoding"), ("byte-pair encoding", "StandardBytePairEncoder / PrefixTree / CharSyncSearch / DepthFirstSearch"), ("text datasets", "LmDataset / TranslationDataset / TranslationFactorsDataset")],
  "TextVocab.tla defines merges as a rewriting system, all segmentations of a word, UTF-8, and the sequences of a corpus; TextVocabMC checks a scanning merge machine and a stack-based search against the definitions; real vocabularies and datasets on seeded inputs are validated by TLC. Bounded: words <= ~15 characters, <= 8 merges, <= 10 lines.",
  observe=("get_seq / get_seq_labels / labels", "sequences, tags and dims of the datasets"))
