"""Single source of properties.jsonl and MANIFEST.json (run `python3 meta/props.py`).

Each entry: id, title, statement, over, text (quantifier), why, files, mechanism,
and for claimed ones: technique, level, note. A check is claimed when
checks/<id>.py exists; the rest is listed under not_applicable."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", na=None, hook=None):
    P.append(locals())


RM = "runtime monitoring: "

prop("C01", "Checkpoint saves are crash-atomic",
     "If the process dies at any point while a training checkpoint is being saved, a later run that lists the checkpoints sees either the complete checkpoint or does not see it at all. Every checkpoint that is listed loads back completely, with exactly the values saved for its step. Checkpoints completed earlier are not affected.",
     ["crash_points", "fault_sequences"], "every file system operation of a save (synchronous or asynchronous, any number of data/tensor parallel ranks), cut before or torn in it, followed by a restart",
     "No existing test runs the checkpoint manager, let alone kills it; the property quantifies over every crash point.",
     ["src/fairseq2/checkpoint/manager.py", "src/fairseq2/file_system.py", "src/fairseq2/io.py"],
     [("temporary step directory committed by a rename", "src/fairseq2/checkpoint/manager.py")],
     RM + "every file system call of a save is traced; crashes are injected at each and the recovered directory is judged by a fresh manager against what was saved",
     "Held at every crash point enumerated in the recorded file system traces of generated save histories (process crashes and torn writes; not loss of data that the operating system had acknowledged).", "fault_enumeration")

prop("C02", "Checkpoints give back exactly what was saved",
     "Loading a saved checkpoint step gives back exactly the trainer, model, optimizer and data reader state that was passed to the save of that step, on every rank, even if training keeps modifying the same tensors while an asynchronous save is still running. At most one save runs at a time, and its completion callback runs once, after the step is visible. The model part can be loaded as a model checkpoint.",
     ["inputs", "schedules", "histories"], "arbitrary state (dtypes, shapes, aliased and non-contiguous tensors), sync/async saves, delays injected in the background save, mutation after the save call, world topologies",
     "No existing test runs the checkpoint manager.",
     ["src/fairseq2/checkpoint/manager.py", "src/fairseq2/io.py", "src/fairseq2/utils/threading.py"],
     [("state is staged on the host before the background save", "src/fairseq2/checkpoint/manager.py")],
     RM + "random save/mutate/load histories with injected delays, compared with bitwise snapshots",
     "Held on the generated histories and schedules.")

prop("C03", "Checkpoint retention keeps what the policy says",
     "Deleting stale checkpoints keeps exactly the checkpoints that the retention policy asks for: the last n, the best n by score (ties broken towards the newer), and those at the configured interval, and never the most recent one. What is kept stays loadable, what is deleted disappears from the listing, also if a crash interrupts the deletion.",
     ["histories", "crash_points"], "every history of saves, scores and deletions under every retention setting, and crashes inside a deletion",
     "No existing test runs the checkpoint manager.",
     ["src/fairseq2/checkpoint/manager.py", "src/fairseq2/trainer.py"],
     [("stale step computation and step deletion", "src/fairseq2/checkpoint/manager.py")],
     RM + "histories of saves and deletions (with injected crashes) judged by a reference model of the policy",
     "Held on the generated histories.")

prop("C04", "Resuming training equals never stopping",
     "A training run that is stopped or preempted at any step, and restarted from its last checkpoint, ends with the same model parameters, optimizer state, learning rate, metrics totals, step, epoch and consumed batches as a run that was never interrupted. This holds for any number of restarts and across epoch boundaries. A run restarted after it is complete does not train any further.",
     ["crash_points", "histories", "configurations"], "every stop step, several consecutive restarts, gradient accumulation, fp16 loss scaling, step/epoch limits and checkpoint schedules",
     "No existing test runs the trainer.",
     ["src/fairseq2/trainer.py", "src/fairseq2/checkpoint/manager.py", "src/fairseq2/datasets/data_reader.py", "src/fairseq2/utils/rng.py", "src/fairseq2/metrics/bag.py"],
     [("state saved and restored for every stateful part of the run", "src/fairseq2/trainer.py")],
     RM + "differential runs of the real trainer, interrupted vs uninterrupted, compared bit by bit",
     "Held on the generated runs (CPU, one process, float32 and emulated fp16 scaling).")

prop("C05", "Trainer schedules are honoured",
     "Validation, checkpointing, metric publication and stopping happen exactly at the steps and epochs that the settings ask for: each due event occurs once at its step, none occurs when it is not due, and training ends at the first of its step limit, epoch limit or a stop request. The final state is always saved, completely, before the run ends. Each batch of the data is used exactly once per epoch.",
     ["configurations", "histories"], "all combinations of step/epoch based intervals and delays for validation, checkpointing and metrics, limits, accumulation, data lengths and stop requests",
     "No existing test runs the trainer.",
     ["src/fairseq2/trainer.py", "src/fairseq2/validator.py"],
     [("schedule predicates evaluated after every step", "src/fairseq2/trainer.py")],
     RM + "the event log of real trainer runs is compared with a specification computed from the settings",
     "Held on the generated configurations.")

prop("C06", "Overflowing fp16 steps leave no trace",
     "With fp16 loss scaling, a step with non-finite gradients changes neither parameters, optimizer state nor the step's learning rate position, shrinks the scale, and is repeated; any other step applies exactly the unscaled gradients. The scale grows only after the configured number of consecutive good steps, never leaves its configured bounds, and training fails once the minimum scale still overflows. Saving and restoring the scaler in between changes nothing.",
     ["fault_sequences", "histories"], "every sequence of finite, infinite and NaN gradients, scale settings, and save/restore points",
     "The existing tests do not run the loss scaler.",
     ["src/fairseq2/optim/fp16_loss_scaler.py", "src/fairseq2/trainer.py"],
     [("overflow check and scale update around the optimizer step", "src/fairseq2/optim/fp16_loss_scaler.py")],
     RM + "injected overflow sequences monitored against a reference automaton of the scale and of the parameters",
     "Held on the generated sequences (CPU).")

prop("C07", "Accumulation and data parallelism preserve the gradient",
     "The update of a training step depends only on the set of examples in it: splitting the same batches over any number of micro-batches and data parallel ranks gives the same gradient as one batch holding them all, normalized by the total number of targets. All ranks hold identical parameters after every step, also if a rank has no targets in it.",
     ["configurations", "schedules"], "splits of the same examples over gradient accumulation and gloo ranks, loss normalization on and off, uneven target counts, delays between ranks",
     "The existing tests run neither the trainer nor more than one process.",
     ["src/fairseq2/trainer.py", "src/fairseq2/nn/ddp.py", "src/fairseq2/nn/data_parallel.py", "src/fairseq2/nn/utils/grad.py"],
     [("gradient synchronization only in the last micro-batch; normalization by the reduced target count", "src/fairseq2/trainer.py")],
     RM + "real trainer runs over process groups compared with a single-batch reference",
     "Held on the generated splits (gloo/CPU, float32 up to rounding).")

prop("C08", "Ranks read in lockstep and without loss",
     "Data parallel ranks read the same number of batches: a step is delivered on all ranks or on none, and whenever one of them runs out of data before the others, reading stops everywhere or goes on with empty steps there until all are out, as configured. Each step delivers the configured number of batches except for a final remainder (as many as every rank has, where ranks stop together), which is delivered or dropped as configured. The position of a reader can be saved and restored at any step without losing or repeating a batch.",
     ["schedules", "inputs", "histories"], "rank counts, uneven data lengths, accumulation counts, drop and sync modes, save/restore points, delays between ranks",
     "No existing test runs a data reader over more than one process.",
     ["src/fairseq2/datasets/data_reader.py"],
     [("minimum number of batches agreed by an all-gather", "src/fairseq2/datasets/data_reader.py")],
     RM + "per-rank logs of delivered batches over threaded and gloo gangs checked offline for agreement, order and conservation",
     "Held on the generated histories.")

prop("C09", "Process grids and collectives are consistent",
     "The process groups of a run partition the ranks: each rank is in exactly one group per parallelism dimension, with ranks and sizes that match the group, and groups of different dimensions intersect in at most one rank. Collective operations on a group give every member the combined result of exactly its members' inputs, in rank order where order matters. Inconsistent sizes are rejected.",
     ["configurations", "schedules"], "world sizes, tensor/pipeline/replica/shard sizes and inputs of collectives",
     "The existing tests do not create process groups of more than one process.",
     ["src/fairseq2/gang.py"],
     [("rank grid sliced into sub-gangs", "src/fairseq2/gang.py")],
     RM + "every rank of gloo (and simulated) gangs logs its groups and collective results, judged by a reference grid",
     "Held for the world sizes and topologies run (gloo/CPU).")

prop("C10", "Data pipeline operators do what they say",
     "Every data pipeline operator emits exactly the examples its definition prescribes for what its inputs emit: nothing is lost, invented, duplicated or reordered beyond that, for any nesting of operators, regardless of parallelism, prefetching and timing. A failing example is reported in its place, after all examples before it. Resetting a pipeline starts the same sequence again.",
     ["programs", "inputs", "schedules", "fault_sequences"], "compositions of all operators with all their options, sizes around the window/bucket/shard limits, thread timings, failing examples",
     "The existing tests of the data pipeline sample a few small cases per operator and need the native extension, so none runs here.",
     ["native/src/fairseq2n/data", "src/fairseq2/data/data_pipeline.py"],
     [("one data source class per operator", "native/src/fairseq2n/data")],
     RM + "emitted traces of randomly composed pipelines of the real native code, checked per operator against reference models, with injected delays and failures",
     "Held on the generated pipelines and schedules.")

prop("C11", "Data pipeline state resumes exactly",
     "Saving the state of a data pipeline at any position and loading it into a pipeline of the same definition, new or used, makes that pipeline emit exactly the examples that the original emits after that position. Saving does not disturb the pipeline, and saving again after a restore works the same.",
     ["programs", "histories", "schedules"], "compositions of all operators, every save position including start, epoch boundaries and end, restores in new/used/exhausted pipelines, chains of saves",
     "The existing tests save at one or two positions per operator in isolation, and none runs here.",
     ["native/src/fairseq2n/data", "src/fairseq2/data/data_pipeline.py"],
     [("position tape recorded through the operators", "native/src/fairseq2n/data/tape.h")],
     RM + "save/restore histories on randomly composed real pipelines compared with the uninterrupted trace",
     "Held on the generated pipelines and positions.")

prop("C12", "Native code is memory safe",
     "Reading, resetting, saving, restoring and destroying data pipelines, and converting data in native code, never reads or writes out of bounds, uses freed memory, leaks, or runs into undefined behaviour, for any data and any order of these operations.",
     ["inputs", "programs", "histories"], "random pipelines and data driven through random operation sequences, malformed text and state included",
     "The existing tests do not run the native code, and would not notice silent memory errors.",
     ["native/src/fairseq2n"],
     [("ownership in data and data sources", "native/src/fairseq2n")],
     RM + "AddressSanitizer and UndefinedBehaviorSanitizer over the native sources driven by a random operation generator",
     "Held on the executions driven (third-party decoders replaced by stand-ins; operators built without TBB).")

prop("C13", "Native code is free of races and deadlocks",
     "Background threads of the data pipeline (prefetching, parallel and asynchronous mapping) never race with the reading thread and never deadlock: each read, reset, save or destruction completes once the functions it calls return.",
     ["schedules"], "thread interleavings of reads, resets, saves and destruction with slow and failing functions",
     "The existing tests do not run the native code, and would not notice races.",
     ["native/src/fairseq2n/data/prefetch_data_source.cc", "native/src/fairseq2n/data/map_data_source.cc", "native/src/fairseq2n/detail/thread_pool.h"],
     [("mutexes and condition variables around shared queues", "native/src/fairseq2n/data")],
     RM + "ThreadSanitizer over the native sources with injected delays, plus a progress watchdog",
     "Held on the interleavings seen (pthread build, without TBB).")

prop("C14", "Batching conserves every element",
     "Collating, padding, packing and bucketing by length keep every element of every example: each output row holds exactly one input sequence (or packed inputs back to back), followed by padding only, with the lengths reported correctly. No batch exceeds its configured size limits. Only examples that the settings exclude are left out.",
     ["inputs", "configurations"], "random nested examples, dtypes, pad settings, per-column overrides, packing and bucketing configurations",
     "The existing tests of the native collater are a few cases and do not run here.",
     ["native/src/fairseq2n/data/collater.cc", "native/src/fairseq2n/data/packed_data_source.cc", "native/src/fairseq2n/data/bucket_by_length_data_source.cc", "src/fairseq2/data/data_pipeline.py", "src/fairseq2/nn/utils/padding.py"],
     [("collater and packing data sources", "native/src/fairseq2n/data")],
     RM + "real native code run on generated examples, with conservation monitors that rebuild the inputs from the outputs",
     "Held on the generated examples.")

prop("C15", "Text is read back byte for byte",
     "Reading a text file emits exactly its lines, in order, each byte of the text preserved, whatever the line lengths, line endings, trimming options, empty lines, multi-byte characters and block boundaries. The string functions give the same results as their reference definitions on every valid text. Malformed text is reported as an error, never silently altered.",
     ["inputs"], "random and adversarial text (multi-byte characters across block boundaries, CR/LF mixes, empty and huge lines, invalid UTF-8), all reader options, and save/restore inside a file",
     "The existing tests read one small file and do not run here.",
     ["native/src/fairseq2n/data/text", "native/src/fairseq2n/data/text/utf8_stream.cc", "native/src/fairseq2n/data/immutable_string.cc", "src/fairseq2/data/text"],
     [("record reader over byte and utf8 streams", "native/src/fairseq2n/data")],
     RM + "real native readers run on generated files and judged by Python's own decoder and splitter",
     "Held on the generated texts.")

prop("C16", "Parquet loading conserves rows",
     "Streaming a parquet dataset delivers every row of every selected fragment exactly once per epoch over all ranks together, whatever the sharding, shuffling, fragment splitting and batching. Filters and column selections select exactly the rows and columns they describe. Batch building keeps every row within its configured size limits. A pipeline restored from its saved state delivers exactly the remaining rows, and the same configuration delivers the same rows in the same order again. Conversion to tensors and table transformations keep the values of each row.",
     ["inputs", "configurations", "histories"], "random tables, file and row group layouts, shard counts, shuffle and split settings, filters and bucketing settings",
     "The existing tests of it need the native extension, so they do not run here; they sample a few tables.",
     ["src/fairseq2/data/parquet"],
     [("fragment streaming, loading and table bucketing", "src/fairseq2/data/parquet")],
     RM + "real loaders run on generated datasets, delivered rows counted by unique ids",
     "Held on the generated datasets.")

prop("C17", "Beam search returns what its model scores",
     "Every hypothesis of beam search is a sequence that its model can produce, starting with the prompt and ending with the end-of-sequence token unless cut at the length limit; its score is the sum of the model's log-probabilities of its steps under the configured normalization, and hypotheses are returned best first without duplicates. The search keeps the best open hypotheses up to the beam size at every step, so with a beam wide enough to hold all sequences the best one is returned. Results of a prompt do not depend on the other prompts in the batch (length limits count from the longest prompt of the batch).",
     ["inputs", "configurations"], "random stateful models (sequence-dependent log-probabilities), prompts, beam sizes, limits and normalizations",
     "The existing tests do not run generation.",
     ["src/fairseq2/generation/beam_search", "src/fairseq2/generation/generator.py"],
     [("beam step, reordering and finished-hypothesis bookkeeping", "src/fairseq2/generation/beam_search/generator.py")],
     RM + "real generator runs on table-driven models; every emitted hypothesis is re-scored and judged by an exhaustive reference",
     "Held on the generated models and settings.")

prop("C18", "Sampling only draws what it may",
     "Sampled sequences only contain tokens allowed at their step: within the top-k or the top-p nucleus of the model's distribution, never padding, nor the end token before the minimum length. Scores, step scores and lengths describe the returned sequence, sequences end at the end token or at the length limit, and the frequency of tokens follows the model's renormalized distribution. The same random seed gives the same sequences.",
     ["inputs", "configurations"], "random stateful models, prompts, samplers and settings, many seeds",
     "The existing tests do not run generation.",
     ["src/fairseq2/generation/sampling", "src/fairseq2/generation/generator.py"],
     [("sampler masks and multinomial draw", "src/fairseq2/generation/sampling")],
     RM + "real generator runs on table-driven models with membership, score and chi-square monitors",
     "Held on the generated models; the distribution claim is statistical.")

prop("C19", "Step processors forbid exactly what they define",
     "The n-gram repeat blocker assigns zero probability to exactly those next tokens that would complete an n-gram which the sequence already contains, and the banned sequence processor to exactly those that would complete a banned sequence. All other probabilities, and the sequences, are left as they are, for every n-gram size, set of banned sequences, sequence length and batch.",
     ["inputs"], "random and adversarial sequences, n-gram sizes, batch sizes and steps",
     "The existing tests try a handful of sequences.",
     ["src/fairseq2/generation/step_processor.py"],
     [("sliding window comparison", "src/fairseq2/generation/step_processor.py")],
     RM + "direct runs compared with a set-based reference over exhaustive short and random long sequences",
     "Held on the generated sequences.")

prop("C20", "Incremental decoding equals full decoding",
     "Decoding token by token with cached state gives the same outputs at every position as one pass over the whole sequence, for every way to split the sequence in steps, and also after the cached state is reordered to follow other hypotheses.",
     ["inputs", "configurations", "histories"], "decoder configurations (layers, heads, grouped heads, position encoders, normalizations, local attention, encoder-decoder), step splits, reorder sequences",
     "The existing tests do not compare cached with full decoding.",
     ["src/fairseq2/nn/incremental_state.py", "src/fairseq2/models/transformer/multihead_attention.py", "src/fairseq2/models/transformer_lm", "src/fairseq2/nn/position_encoder.py"],
     [("state bag keyed by module and attention caches", "src/fairseq2/nn/incremental_state.py")],
     RM + "differential runs of real decoders, stepwise vs full",
     "Held on the generated configurations, up to float rounding.")

prop("C21", "Padding and packing never leak",
     "The outputs of a model for a sequence do not depend on what it is batched with: on the amount or the content of padding, on the other sequences in the batch, or on being packed with others into one row. Padded positions do not receive gradient.",
     ["inputs", "configurations"], "random sequence lengths, pad contents, batch mates, padded vs packed vs single layouts, for encoder, decoder-only and encoder-decoder models",
     "The existing tests compare at most one padded batch.",
     ["src/fairseq2/nn/batch_layout.py", "src/fairseq2/models/transformer", "src/fairseq2/models/wav2vec2", "src/fairseq2/nn/utils/padding.py"],
     [("batch layout consulted by attention and position encoders", "src/fairseq2/nn/batch_layout.py")],
     RM + "metamorphic runs of real models with poisoned padding",
     "Held on the generated configurations, up to float rounding.")

prop("C22", "Attention implementations agree with the definition",
     "All attention implementations compute the same function: softmax of scaled scores over exactly the positions that causality, the attention window, the key lengths and the packing allow, times the values. No query attends to a forbidden key, whatever its content.",
     ["inputs", "configurations"], "query/key lengths, heads, window sizes, biases, dropout off, padded and packed layouts, position biases",
     "The existing tests compare two implementations at a few shapes.",
     ["src/fairseq2/models/transformer/sdpa", "src/fairseq2/models/transformer/attention_bias.py", "src/fairseq2/models/transformer/multihead_attention.py"],
     [("attention bias materialization and the implementations", "src/fairseq2/models/transformer/sdpa")],
     RM + "differential runs against an explicit loop reference with poisoned forbidden keys",
     "Held on the generated shapes, up to float rounding.")

prop("C23", "Tensor parallel layers equal their unsharded originals",
     "Sharding a projection, embedding or model over any number of tensor parallel ranks changes neither its outputs nor the gradients of its inputs and parameters, and unsharding gives back the original parameters exactly. Tensor parallel communication does not modify the tensors of its caller. During training, gradient norms and clipping are those of the unsharded model, and parameters that the ranks share stay identical on all of them.",
     ["configurations", "inputs"], "shard counts, sizes, bias settings, gather/scatter options, parameter values",
     "The existing tests run on a single process.",
     ["src/fairseq2/nn/projection.py", "src/fairseq2/nn/embedding.py", "src/fairseq2/ops/tensor_parallel.py", "src/fairseq2/sharder.py", "src/fairseq2/nn/sharded.py", "src/fairseq2/nn/utils/grad.py", "src/fairseq2/models/transformer", "src/fairseq2/models/olmo/attention.py", "src/fairseq2/trainer.py"],
     [("autograd-aware collectives", "src/fairseq2/ops/tensor_parallel.py")],
     RM + "multi-process runs of real sharded modules compared with the unsharded original",
     "Held on the generated modules (gloo/CPU).")

prop("C24", "Position encoders encode the position",
     "The encoding that a position gets depends only on its position within its own sequence: it equals the encoder's defining formula, whatever the batch layout (padded, packed, with a start step during incremental decoding). Rotary encodings preserve norms and make scores a function of the distance only. Positions beyond the configured maximum are rejected.",
     ["inputs", "configurations"], "all encoders, dimensions, layouts, start steps, scaling options",
     "The existing tests check a few fixed tables.",
     ["src/fairseq2/nn/position_encoder.py"],
     [("precomputed tables indexed by batch layout", "src/fairseq2/nn/position_encoder.py")],
     RM + "direct runs compared with formulas and metamorphic relations",
     "Held on the generated layouts, up to float rounding.")

prop("C25", "Model checkpoints load the right tensors",
     "Loading a model checkpoint, in any supported format and for any combination of saved and requested shard counts, yields exactly the tensors of the original model (or this rank's part of them), each name once. Missing, truncated or inconsistent shard files are reported as errors, never loaded silently.",
     ["inputs", "configurations", "fault_sequences"], "random state dicts, formats, saved and requested tensor parallel sizes, data parallel shards, corrupted and missing files",
     "The existing tests do not load sharded checkpoints.",
     ["src/fairseq2/model_checkpoint", "src/fairseq2/io.py", "src/fairseq2/sharder.py"],
     [("format detection, shard merging and resharding", "src/fairseq2/model_checkpoint")],
     RM + "generated checkpoints, original and damaged, loaded by the real loaders and compared with the saved tensors",
     "Held on the generated checkpoints and damages.")

prop("C26", "State dict conversion is lossless",
     "Converting the parameters of a model to the format of another framework and back gives the original names and values, each parameter being mapped exactly once. A converted checkpoint loads strictly into the model, and the converted parameters compute the same outputs.",
     ["inputs", "configurations"], "all model families with converters, random architecture configurations and parameters",
     "The existing tests check a few fixed keys.",
     ["src/fairseq2/models/utils/checkpoint.py", "src/fairseq2/models/llama", "src/fairseq2/models/qwen", "src/fairseq2/models/mistral", "src/fairseq2/checkpoint/hg.py"],
     [("regular expression key maps", "src/fairseq2/models/utils/checkpoint.py")],
     RM + "round trips on real models of random configurations; comparison with the transformers library where it has the model",
     "Held on the generated configurations.")

prop("C27", "Files are written whole and read back equal",
     "Tensor files read back exactly the objects written, including dtypes, strides, aliasing and mapping to another device; unreadable or malicious files are reported as errors without running their code, and data that cannot be pickled and writes that fail are reported as such. File system operations do what they say, do not touch anything else, and report missing or existing targets as documented.",
     ["inputs", "fault_sequences"], "random tensors and containers, damaged files, random file system operation histories",
     "The existing tests cover a few calls.",
     ["src/fairseq2/io.py", "src/fairseq2/file_system.py"],
     [("tensor file dumper/loader and local file system", "src/fairseq2/io.py")],
     RM + "operation histories on a scratch directory compared with a model after every step; round trips of random objects; damaged and hostile files and failing writes injected",
     "Held on the generated histories.")

prop("C28", "The asset cache never serves partial downloads",
     "Downloading an asset over HTTP returns a path only if it holds the complete content (extracted, for archives) the server sent; a download, extraction or forced refresh that fails or is interrupted at any point never leads to partial or mixed content being served later, and a retry against a healthy server succeeds. A cached asset is served without any network access, a local-only request never accesses the network, failures of the server or of an archive are reported as download errors, and files are only created inside the cache directory, whatever names or archives the server sends. Requests are dispatched to the download manager of their URI scheme.",
     ["crash_points", "fault_sequences", "inputs"], "crash points and network faults (disconnects, short reads, error statuses) in downloads and extractions, archive kinds and contents, retries",
     "The existing tests do not download anything.",
     ["src/fairseq2/assets/download_manager.py"],
     [("temporary download/extract directories committed by renames", "src/fairseq2/assets/download_manager.py")],
     RM + "a local server with injected faults and crashes injected at every file system call; the served files are compared with the originals",
     "Held on the injected faults.", "fault_enumeration")

prop("C29", "Asset names resolve deterministically",
     "Resolving an asset name gives the metadata of the most specific environment and provider, with fields inherited from its base assets and overridden by the asset itself; resolution does not depend on earlier queries and never modifies the stored metadata. Unknown assets, ambiguous names and cyclic bases are reported as errors.",
     ["inputs", "histories"], "random sets of asset files, environments, inheritance chains (cyclic ones too) and query orders",
     "The existing tests use a few fixed cards.",
     ["src/fairseq2/assets/store.py", "src/fairseq2/assets/card.py", "src/fairseq2/assets/metadata_provider.py"],
     [("lookup over providers and environments with base chaining", "src/fairseq2/assets/store.py")],
     RM + "random query histories on real stores compared with a reference resolver",
     "Held on the generated stores.")

prop("C30", "Configurations survive serialization and merging",
     "Turning a typed configuration into plain data and back gives an equal configuration, and values that do not fit their declared type are reported with their path, never coerced into something else. Merging overrides changes exactly the addressed fields, following the documented add/set/delete directives, and leaves its inputs unmodified.",
     ["inputs"], "random (nested, generic, optional, union) configuration types and values, ill-typed values, random override trees",
     "The existing tests check a few fixed values.",
     ["src/fairseq2/utils/structured.py", "src/fairseq2/utils/config.py", "src/fairseq2/utils/argparse.py", "src/fairseq2/utils/yaml.py", "src/fairseq2/recipe/cli.py"],
     [("structure/unstructure converters and dict merge", "src/fairseq2/utils/structured.py")],
     RM + "generated types, values and directives run through the real converters and judged by a reference",
     "Held on the generated types and values.")

prop("C31", "Dependency resolution is consistent",
     "Resolving a type (and key) from the container yields an object of its registration, built once if it is a singleton (also when resolved from several threads at once) and anew otherwise, with all of its dependencies (required, optional, lazy, lookups and collections) resolved the same way. Duplicate or late registrations, cycles, missing registrations and failing providers are reported as errors, after which the container still works.",
     ["inputs", "histories", "schedules"], "random dependency graphs, collections, keys, resolution orders, failing providers and threads",
     "The existing tests cover a few fixed graphs in one thread.",
     ["src/fairseq2/runtime/dependency.py", "src/fairseq2/runtime/lookup.py", "src/fairseq2/runtime/lazy.py"],
     [("registration tables and auto-wiring", "src/fairseq2/runtime/dependency.py")],
     RM + "random registration/resolution histories on real containers compared with a reference resolver",
     "Held on the generated histories.")

prop("C32", "Metrics are neither lost nor counted twice",
     "The metrics published by a run equal those computed from all of its batches: whatever the split over steps, ranks and publication intervals, every update is counted once. A step that is rolled back contributes nothing, and metrics that are saved and restored continue unchanged. Every published value can be read back from the recorder's file, one well-formed record per publication.",
     ["histories", "configurations"], "random histories of updates, begin/commit/rollback, save/restore, syncs over several ranks and publications",
     "The existing tests do not run metric bags over ranks or recorders.",
     ["src/fairseq2/metrics/bag.py", "src/fairseq2/metrics/common.py", "src/fairseq2/metrics/recorders", "src/fairseq2/metrics/text"],
     [("metric bag with rollback", "src/fairseq2/metrics/bag.py")],
     RM + "random histories on real bags and recorders compared with an exact reference",
     "Held on the generated histories.")

prop("C33", "Learning rates follow their schedule",
     "At every step the learning rate of every parameter group equals the closed form of its schedule, within its bounds, continuous at the joins of its phases, whatever the warm-up, cycle and decay settings. Saving and restoring a scheduler at any step continues the same curve.",
     ["configurations", "inputs"], "all schedulers, random settings, many steps, several parameter groups, save/restore steps",
     "The existing tests check a few settings.",
     ["src/fairseq2/optim/lr_schedulers"],
     [("closed form schedules", "src/fairseq2/optim/lr_schedulers")],
     RM + "real schedulers stepped over random settings and compared with independent formulas",
     "Held on the generated settings.")

prop("C34", "Random state is isolated and restorable",
     "Saving and restoring the random state makes the same random numbers come again, on every generator it covers. Code run under a temporary seed draws the same numbers each time and leaves the outer random sequence as if it had not run, also if it fails.",
     ["histories"], "random histories of draws, seeds, nested temporary seeds, saves, restores and exceptions",
     "The existing tests check one sequence.",
     ["src/fairseq2/utils/rng.py"],
     [("generator bag", "src/fairseq2/utils/rng.py")],
     RM + "random histories compared with reference generators",
     "Held on the generated histories (CPU).")

prop("C35", "Tokenizers round-trip text",
     "Decoding the encoding of a text gives the text back (after the model's own normalization), with prefix and suffix tokens exactly as configured and never dropped from or leaked into the text. Encoding gives the same ids from any thread and for any batch, and the reported vocabulary describes the ids produced. Invalid model files are reported as such, a replaced file is read anew, and the generation prompt of a chat is how its next turn begins.",
     ["inputs", "configurations"], "random texts, encoder settings and vocabularies",
     "The existing tests do not run tokenizers with a vocabulary.",
     ["src/fairseq2/data/tokenizers"],
     [("token encoders/decoders with control tokens", "src/fairseq2/data/tokenizers")],
     RM + "real tokenizers built from generated vocabularies run on random texts",
     "Held on the generated texts (tiktoken and Hugging Face based tokenizers; SentencePiece ones with a recording stand-in of the native model, as the library is not available offline).")

prop("C36", "Context settings stay in their thread and scope",
     "A device, data type or gang set for a scope applies within that scope only: it is restored on exit, also after an exception, and other threads never observe it.",
     ["schedules", "histories"], "nested scopes, exceptions, several threads interleaving at every enter/exit",
     "The existing tests use one thread.",
     ["src/fairseq2/device.py", "src/fairseq2/data_type.py", "src/fairseq2/gang.py", "src/fairseq2/utils/threading.py"],
     [("thread-local stacks", "src/fairseq2/utils/threading.py")],
     RM + "random enter/exit histories on several threads compared with per-thread stacks",
     "Held on the generated histories.")

prop("C37", "Run directories identify their configuration",
     "Two runs of a recipe share a run directory tag only if their world size and every configuration field that the tag is declared to depend on are equal, and equal configurations always give the same tag, in any process. Tags are valid file names.",
     ["inputs"], "random configurations, single field changes, key orders, processes",
     "The existing tests check a few fixed configurations.",
     ["src/fairseq2/recipe/internal/sweep_tag.py"],
     [("tag hashing", "src/fairseq2/recipe/internal/sweep_tag.py")],
     RM + "tags of generated configurations and their single field mutations compared",
     "Held on the generated configurations.")

prop("C38", "Loss and evaluation do not depend on batching",
     "Validation and evaluation results depend only on the data: not on how it is batched, padded, packed or spread over ranks, not on training state, and running them changes neither model parameters, modes nor gradients. Losses ignore padding and masked targets, and their smoothing follows its formula.",
     ["inputs", "configurations"], "random data, batch splits, paddings, loss settings, evaluation units",
     "The existing tests compute the loss at a few inputs.",
     ["src/fairseq2/validator.py", "src/fairseq2/evaluator.py", "src/fairseq2/nn/functional/cross_entropy.py", "src/fairseq2/models/clm.py", "src/fairseq2/models/seq2seq.py"],
     [("loss reduction and evaluation loops", "src/fairseq2/evaluator.py")],
     RM + "real evaluators and losses run over different splits of the same data and compared",
     "Held on the generated data, up to float rounding.")

prop("C39", "Recipes train the same model however they are run, stopped and resumed",
     "A training recipe run from its command line yields the model that a plain PyTorch loop over the same batches yields, whatever its parallelism (DDP, FSDP1, FSDP2, hybrid, tensor parallel), activation checkpointing or validation settings. Killed, stopped or shortened runs, when restarted with the same output directory, skip no step, repeat only steps after the last resumable checkpoint, and end with the same checkpoints and metrics as one uninterrupted run; without a resumable checkpoint (e.g. only model checkpoints) they start from scratch, with the same initial model on all ranks. Optimizer parameter groups match the same parameters regardless of wrapping. Checkpoints can be loaded by name or path as models, teachers and for evaluation, with the weights of their step, eval mode and frozen parameters where documented.",
     ["histories", "crash points", "configurations", "inputs"], "random models, layouts of one to four processes, settings, and kill and stop points",
     "The existing tests run no recipe.",
     ["src/fairseq2/recipe/cli.py", "src/fairseq2/recipe/internal/train_model.py", "src/fairseq2/recipe/internal/data_parallel.py", "src/fairseq2/recipe/internal/reference_model.py", "src/fairseq2/recipe/optim.py", "src/fairseq2/recipe/composition/trainer.py", "src/fairseq2/models/family.py", "src/fairseq2/nn/fsdp/fsdp1.py", "src/fairseq2/nn/fsdp/fsdp2.py", "src/fairseq2/trainer.py"],
     [("assembly of a training run", "src/fairseq2/recipe/composition/trainer.py"), ("new, loaded or resumed model", "src/fairseq2/recipe/internal/train_model.py")],
     RM + "real recipes run in real processes, killed and restarted, their checkpoints and metrics compared with an uninterrupted run and a plain training loop",
     "Held on the generated runs (Gloo on CPU).")

prop("C40", "Language model recipes use their examples exactly once, whole and in place",
     "The language model recipes (supervised fine-tuning, pretraining, generation) feed the model exactly the examples of their files: in an epoch of a single source each example within the length limits is read once, by one rank, with prompt and answer encoded by the tokenizer and only the tokens of the answer as targets (all tokens in pretraining, where packed batches hold the text in order); batches respect the configured limits, and static and length batching leave out the same examples. Reported losses are those of the examples one by one, whatever the batching, packing, padding, gradient accumulation and number of processes. Validation reads its data once. Runs that are killed or stopped read on where their checkpoint was taken and end with the same model. Generation answers each prompt once and in order, with the tokens, text and scores that belong to this prompt alone.",
     ["inputs", "configurations", "crash points", "histories"], "random examples, sources, batching and packing settings, one or two processes, kill and stop points",
     "The existing tests run no recipe and have no native data pipeline.",
     ["recipes/lm/sft/dataset.py", "recipes/lm/sft/recipe.py", "recipes/lm/train/dataset.py", "recipes/lm/train/recipe.py", "recipes/lm/generate/dataset.py", "recipes/lm/generate/recipe.py", "src/fairseq2/datasets/data_reader.py", "src/fairseq2/datasets/batch.py", "src/fairseq2/recipe/generator.py", "src/fairseq2/generator.py", "src/fairseq2/models/clm.py", "src/fairseq2/models/llama/config.py"],
     [("batches with target masks", "recipes/lm/sft/dataset.py"), ("packed pretraining batches", "recipes/lm/train/dataset.py"), ("prompts and answers", "recipes/lm/generate/recipe.py")],
     RM + "real recipes run in real processes over generated files; every batch, loss and answer is recorded and compared with the files and with the model run on single examples",
     "Held on the generated runs (toy models and a character tokenizer, CPU).")

prop("C41", "Assets load as their cards say, or are refused",
     "For any asset card, whatever its chain of bases, a model, tokenizer or dataset hub (and the global loaders) yields the asset that the card describes: the configuration of its architecture with the overrides of the card and its bases, the weights of exactly the file it names, in the requested data type and device, with tied weights and non-persistent buffers intact, the same on all ranks (or on the first only, if requested); only the first process downloads. Configurations handed out are independent of each other. Everything else is refused with an error that names the card: unknown names, families, architectures and URI schemes, gated assets, invalid configurations, paths outside of the download directory, missing, damaged or incompatible files. Checkpoints run no code in restricted loads, as decided by the card or else by the family. Custom checkpoints load alike.",
     ["inputs", "configurations"], "random chains of cards, overrides, paths, links, damages, data types, one to three processes",
     "The existing tests load no asset card end to end.",
     ["src/fairseq2/models/family.py", "src/fairseq2/models/hub.py", "src/fairseq2/models/utils/checkpoint.py", "src/fairseq2/data/tokenizers/family.py", "src/fairseq2/data/tokenizers/hub.py", "src/fairseq2/data/tokenizers/ref.py", "src/fairseq2/datasets/family.py", "src/fairseq2/datasets/hub.py", "src/fairseq2/assets/card.py", "src/fairseq2/composition/models.py"],
     [("loading of a card", "src/fairseq2/models/family.py"), ("hubs", "src/fairseq2/models/hub.py")],
     RM + "generated cards and files are loaded through the real hubs, on real process groups for several ranks, and compared with a model of the card; checkpoints that would leave a mark if their code ran",
     "Held on the generated cards (toy families, CPU).")


def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": p["hook"]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(f"{ROOT}/checks/{i}.py") and not p["na"]:
            checks.append({
                "property": i, "quick_cmd": f"./run_check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run_check.sh {i}",
                "evidence_file": f"evidence/{i}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"],
            })
        else:
            na.append({"property": i, "reason": p["na"] or "its check is still under construction"})
    m = {
        "version": 1, "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks: the checks watch the public interfaces of the unmodified code", "source_commits": []},
        "checks": checks, "not_applicable": na,
        "notes": "Each check builds what it needs from /repo's working tree (native code into /verif/.build, keyed by content).",
    }
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()
    print(len(checks), "claimed,", len(na), "not")


def rule(i):
    """The `rule` attribute of a check, without importing it."""
    tree = ast.parse(open(f"{ROOT}/checks/{i}.py").read())
    vals = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("rule", "required", "assumptions"):
            try:
                vals[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return vals


def design():
    out = []
    for p in P:
        i = p["id"]
        out.append(f"### {i} {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append(f"*Decided by* {p['technique']}. *Over* {p['text']}. *Why not tests:* {p['why']} *Strength:* {p['level']}; {p['note']}\n")
        if os.path.exists(f"{ROOT}/checks/{i}.py") and not p["na"]:
            v = rule(i)
            if v.get("rule"):
                out.append(f"*Check:* {v['rule']}. *Must observe:* {', '.join(v.get('required', []))}.\n")
            for a in v.get("assumptions", []):
                out.append(f"*Assumes:* {a}\n")
        else:
            out.append(f"*Not claimed:* {p['na'] or 'check under construction'}.\n")
    bugs = ["| Bug | Property | Needs | Caught by |", "|---|---|---|---|"]
    caught = json.load(open(f"{ROOT}/meta/caught.json"))
    for b in sorted(os.listdir(f"{ROOT}/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
        bugs.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |")
    t = open(f"{ROOT}/meta/DESIGN.tmpl.md").read()
    t = t.replace("DESIGN_TABLE\n", "\n".join(out)).replace("BUG_TABLE\n", "\n".join(bugs) + "\n")
    open(f"{ROOT}/DESIGN.md", "w").write(t)


main()
