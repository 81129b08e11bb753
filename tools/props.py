"""Source of properties.jsonl: run `python3 tools/props.py` after editing."""

import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


S = "src/fairseq2/"

prop("C01", "A crash never leaves an incomplete checkpoint that looks complete",
     """If the job dies, or an I/O error strikes, at any point of saving, scoring or deleting a checkpoint, every
     checkpoint that is listed afterwards is whole: each rank reads back all of its state from it, exactly as saved, at
     one and the same training step. Checkpoints the interrupted operation was not about, and their scores, are
     untouched, and a new job can go on saving into the same directory.""",
     ["crash_points", "fault_sequences", "histories"],
     """every file operation and torn write inside every checkpoint operation, after every short history of saves,
     scores and deletions, for jobs of one and of several ranks""",
     """no test exercises the checkpoint manager at all, and a test cannot sample a process death between two file
     operations""",
     [S + "checkpoint/manager.py", S + "io.py", S + "file_system.py"],
     [("temporary directory renamed after a barrier", S + "checkpoint/manager.py:_commit_checkpoint"),
      ("stale files cleared before a save", S + "checkpoint/manager.py:_begin_checkpoint")],
     ["checkpoint directory listing", "state loaded back by every rank"],
     [("step_N directory", "a listed checkpoint", "checkpoint directory"),
      ("step_N.tmp directory", "a save in flight or garbage", "checkpoint directory")])

prop("C02", "Every rank gets back exactly its own saved state, in every topology",
     """In every data, tensor and sharded data parallel topology, a saved checkpoint holds the trainer state of each
     rank, the model and optimizer shard of each model-parallel position and the data position of each data-parallel
     rank; loading it gives every rank exactly the values that were saved for its own position, never another rank's,
     with tensors, nesting and types intact. A model-only checkpoint holds the model alone and is never taken for a
     resumable one; loading state that is not there, or is damaged, is reported as such and never yields partial
     state.""",
     ["configurations", "inputs"],
     "all topologies up to eight ranks, all kinds of state and of checkpoints, all orders of the ranks",
     "the tests never build a multi-rank topology and never save a checkpoint",
     [S + "checkpoint/manager.py", S + "io.py", S + "gang.py"],
     [("file per rank and kind of state", S + "checkpoint/manager.py:_record_model_state")],
     ["state loaded back by every rank"])

prop("C03", "An asynchronous save is a snapshot, published once, only when all ranks are done",
     """A non-blocking save stores the state as it was when the save was requested, however training mutates it in
     place while the files are being written. Its checkpoint becomes visible only after every rank has finished
     writing, all ranks learn of the completion at the same poll, each rank's completion callback runs exactly once and
     only when the checkpoint is visible, and a new save first completes the one in flight.""",
     ["schedules", "histories"],
     "all interleavings of the ranks' writers with polls, further saves and in-place mutation of the state",
     "asynchronous saving across ranks is not tested; a test fixes one schedule",
     [S + "checkpoint/manager.py"],
     [("host copy of the state before returning", S + "checkpoint/manager.py:_copy_state_dict_to_host"),
      ("agreement on completion by an all-reduce", S + "checkpoint/manager.py:maybe_complete_save_operation")],
     ["results of polls", "callbacks", "checkpoint directory listing"])

prop("C04", "Checkpoint retention keeps exactly what was asked for, and always the last",
     """The checkpoints reported as stale are exactly those that are neither the most recent one, nor among the requested
     number of most recent ones, nor among the requested number of best scored ones (higher score is better, ties go to
     the later step), nor at a step that is a multiple of the requested interval. With no retention option nothing is
     ever stale; scores are read back exactly as recorded, and deleting a checkpoint removes that checkpoint and its
     score only, or everything but its model when the model is to be kept.""",
     ["histories", "inputs"],
     "all histories of saves, scores and deletions over a few steps, all combinations of retention options",
     "retention is not tested; the interplay of options, ties, missing scores and model-only checkpoints is combinatorial",
     [S + "checkpoint/manager.py"],
     [("set of non-stale steps", S + "checkpoint/manager.py:get_stale_step_numbers")],
     ["stale step numbers", "score list", "checkpoint directory listing"])

prop("C05", "A checkpoint directory names its models: every step, the last one, the best ones",
     """A checkpoint directory used as a source of models offers each listed step under its own name, the highest step
     as the last checkpoint, and the scored steps ranked from best to worst (ties: later step first), each resolving to
     that step's model files and to the family and configuration the run recorded. It offers nothing for temporary
     directories, for unscored steps in the ranking or for steps that are not there, and a damaged score is
     reported.""",
     ["histories", "inputs"],
     "all contents of a checkpoint directory reachable by saves, scores, deletions and crashes",
     "the name table is computed from directory contents that no test creates",
     [S + "checkpoint/model_metadata.py", S + "assets/store.py"],
     [("directory scan", S + "checkpoint/model_metadata.py:StandardModelMetadataLoader")],
     ["asset names and cards of the directory"])

prop("T01", "Training does its periodic work at exactly the due steps and ends in time",
     """A training run makes exactly the steps its bounds allow (maximum steps, maximum data epochs or end of data,
     whichever comes first), numbering them consecutively, and a data set without batches ends the run. Validation,
     checkpoints, metric reports and learning-rate updates happen at exactly the steps and epoch ends their schedules
     (start offset and interval, in steps and in epochs) call for, once each. Every run that completes normally ends with
     a checkpoint of its last step, and no rank ever waits for another one forever.""",
     ["configurations", "histories"],
     "all small combinations of bounds, intervals, offsets, data lengths, gradient overflows and early stops",
     "the training loop has no test; the cadence conditions interact over many steps",
     [S + "trainer.py"],
     [("trainer state machine", S + "trainer.py"), ("due-step predicate", S + "trainer.py")],
     ["calls to the model, validator, checkpoint manager, metric recorder and scheduler"])

prop("T02", "A resumed run continues exactly where the interrupted run stood",
     """A run that is stopped, killed or crashes after any checkpoint and is started again from it consumes, step for
     step, the same batches and makes the same parameter updates and epoch and step numbers that the uninterrupted run
     would have made from there on, and ends at the same step. Counting from that checkpoint nothing is trained on twice
     and nothing is skipped, and a run whose work is already complete does no further step.""",
     ["crash_points", "histories", "configurations"],
     "all interruption points (at every checkpoint, including epoch ends and stop requests) of all small runs",
     "needs two coupled runs of the whole loop per interruption point; there is none in the tests",
     [S + "trainer.py", S + "checkpoint/manager.py", S + "datasets/data_reader.py"],
     [("trainer state dictionary", S + "trainer.py"), ("restore at start", S + "trainer.py:_maybe_restore_state")],
     ["sequence of batches and updates of the resumed run"])

prop("T03", "A step whose gradients overflow leaves no trace",
     """When a gradient overflow is detected on any rank, no rank updates its parameters, the step number, learning
     rate and step-based schedules do not advance, and the metrics of that step are discarded. The next batches are
     tried under the same step number on all ranks together, and training fails cleanly, on all ranks, when the loss
     scale can shrink no further.""",
     ["histories", "schedules"],
     "all patterns of overflow over steps and ranks of small runs",
     "overflow handling is not tested and needs multi-rank histories",
     [S + "trainer.py", S + "optim/fp16_loss_scaler.py", S + "metrics/bag.py"],
     [("overflow branch of a step", S + "trainer.py"), ("metric rollback", S + "metrics/bag.py")],
     ["parameter updates, step numbers, reported metrics"])

prop("T04", "Gradient accumulation and distribution do not change the gradient",
     """The gradient applied in a step is the gradient of the summed loss over all micro-batches of all data-parallel
     ranks divided by the total number of targets, no matter how the same examples are spread over micro-batches and
     ranks. The ranks synchronize gradients only with the last micro-batch of a step, gradients never leak from one
     step into the next, and the gradient norm is clipped to the configured maximum before the update.""",
     ["configurations", "inputs"],
     "all splits of small example sets over micro-batches and ranks",
     "no test runs a training step",
     [S + "trainer.py", S + "nn/utils/gradient.py"],
     [("gradient scaling", S + "trainer.py")],
     ["gradients seen by the optimizer"])

prop("T05", "A stop request or early stop ends training promptly and saves the last step once",
     """When a stop is requested on all ranks in the same step, training completes that step, stops before any further one
     (a request between two steps may let the next one run) regardless of which bounds are configured, and leaves a
     complete checkpoint of the last completed step; the same holds when the early stopper fires. A checkpoint that was
     already saved for that step remains valid, and its validation score is not lost.""",
     ["schedules", "configurations"],
     "stop requests arriving at every point of every small run, under all combinations of bounds",
     "no test requests a stop during training",
     [S + "trainer.py", S + "task.py"],
     [("stop-requested branch", S + "trainer.py:_run_post_step")],
     ["steps after the request", "checkpoints at the end"])

prop("L01", "The dynamic loss scale follows its rules and never steps on bad gradients",
     """The loss scale shrinks by its factor when gradients overflow on any rank and never below the minimum, grows by
     its factor only after a full window of consecutive good steps, and is the same on all ranks at all times. The
     optimizer is stepped exactly when the gradients of all ranks are finite, an overflow at the minimum is reported as
     an explosion, and saving and restoring the scaler at any point changes nothing.""",
     ["histories"],
     "all patterns of overflow over steps and ranks, scale parameters and save/restore points",
     "no test covers the scaler; its state machine is a function of the whole history",
     [S + "optim/fp16_loss_scaler.py"],
     [("scale update", S + "optim/fp16_loss_scaler.py")],
     ["scale values, step results, parameters"])

prop("G01", "Parallel gangs partition the job consistently on every rank",
     """For every world size and every valid tensor-parallel and intra-node size, each process belongs to exactly one
     tensor, data, replicated and sharded gang; the gangs of one kind partition the processes, all members agree on
     membership and order, tensor-parallel neighbours are adjacent, and the product of the sizes is the world size.
     Sizes that do not divide evenly, and sub-gang ranks that are duplicate or out of range, are refused on every
     process.""",
     ["configurations"],
     "all world sizes up to 16 (64 in depth), all tensor-parallel and intra-node sizes, all ranks, all small rank lists",
     "one test covers one topology with one rank's view",
     [S + "gang.py"],
     [("process mesh", S + "gang.py:create_parallel_gangs"), ("hybrid mesh", S + "gang.py:create_fsdp_gangs")],
     ["ranks and sizes of the gangs of every process"])

prop("G02", "The current gangs are scoped to thread, device and block",
     """Inside a scope the innermost gangs entered by the same thread for a device are that device's current gangs, and
     leaving the scope, normally or by an exception, restores what was current before; gangs set in one thread or for
     one device are never visible in another. Outside all scopes the process-wide default of the device applies, or
     else a local single-process stand-in, and the meta device follows only when asked to.""",
     ["histories", "schedules"],
     "all nestings and interleavings of scopes, defaults and look-ups over a few threads and devices",
     "scoping is a stack discipline over threads; the tests do not touch it",
     [S + "gang.py", S + "utils/threading.py", S + "device.py"],
     [("per-thread stacks", S + "gang.py:_GangManager")],
     ["current and default gangs seen by each thread"])

prop("G03", "Collectives on a gang and its sub-gangs deliver what they promise to each member",
     """Reductions, gathers and broadcasts over a gang, or over any sub-gang, give every member exactly the result over
     that gang's members in rank order, with source ranks counted within the gang, and leave non-members unaffected. A
     flag or a sum agreed on through a gang is the same on all members.""",
     ["configurations", "inputs"],
     "all gangs and sub-gangs of jobs up to four real processes, all source ranks and operations, and fake gangs",
     "the tests use one process; group-local ranks only differ from global ranks in proper sub-gangs",
     [S + "gang.py"],
     [("process group collectives", S + "gang.py:ProcessGroupGang")],
     ["tensors and objects after the collective on every rank"])

prop("D01", "Data-parallel ranks read in lock-step and end together",
     """With synchronization on, in every round of reading either all data-parallel ranks get batches or all of them end,
     whatever the lengths of their data shares. With the until-first policy all ranks receive the same number of
     batches and the data ends when the first rank's share runs out; with until-last it ends when all shares have, and
     ranks that are already done receive empty lists. Without synchronization each rank reads its own share. A rank gets its share in order, in groups of the
     accumulation size; a trailing smaller group is dropped or kept as configured, and no rank ever waits for a
     collective the others do not make.""",
     ["configurations", "schedules"],
     "all small shares per rank, accumulation sizes, drop and sync settings, and rank interleavings",
     "the reader has no test",
     [S + "datasets/data_reader.py"],
     [("agreement on batch counts", S + "datasets/data_reader.py")],
     ["batches returned to every rank"])

prop("D02", "A data reader can be saved, restored and reset at any point",
     """Restoring a saved position gives exactly the batches that would have come next when it was saved, on a fresh or
     on a used reader, also past or at the end of the data; resetting starts over from the first batch. Once the end of
     the data was reported it is reported until the reader is reset or restored, a state is saved with the configured
     strictness, and a failing source is reported as a read error, never as the end of the data.""",
     ["histories"],
     "all sequences of reads, resets, saves and restores over small data sets and settings",
     "the reader has no test; equality is between two histories",
     [S + "datasets/data_reader.py"],
     [("reader state dictionary", S + "datasets/data_reader.py")],
     ["batches after restore or reset"])

prop("M01", "Metric updates are transactional and survive save and restore",
     """Updates made inside a metric transaction become part of the metrics when it is committed and vanish entirely
     when it is rolled back, including metrics that were first added inside it and resets; transactions do not nest
     silently. Resetting starts every metric afresh, and saving and restoring a bag at any point, also into a new bag
     with the same metrics, preserves every value; a state that does not fit the bag is refused.""",
     ["histories"],
     "all sequences of begin, update, create, commit, rollback, reset, save and restore over a few metrics",
     "no test covers the bag's transactions",
     [S + "metrics/bag.py", S + "metrics/aggregation.py"],
     [("copies taken at begin", S + "metrics/bag.py")],
     ["metric values"])

prop("M02", "Distributed metrics equal the metrics of the combined data",
     """Synchronizing the metrics of all ranks yields the values a single process would compute from all ranks' updates
     taken together, for sums, means, minima and maxima, also when some ranks made no updates. Synchronization does not
     change any rank's own metrics, so repeating it gives the same result.""",
     ["inputs", "configurations"],
     "all small assignments of updates to ranks",
     "no test synchronizes metrics over more than one rank",
     [S + "metrics/bag.py", S + "metrics/aggregation.py"],
     [("merge over ranks", S + "metrics/bag.py:sync_and_compute_metrics")],
     ["synchronized metric values on every rank"])

prop("A01", "Asset names resolve by fixed precedence and inherit from their bases",
     """Looking up an asset gives the entry of that name, with the first matching active environment's entry laid over it
     (the user's environment before the default ones); an explicitly given environment is honoured exactly. Fields the
     entry lacks come from its base, its base's base and so on, nearest first, and a relative path refers to the
     directory of the file that states it, also when inherited; look-ups never depend on the order in which sources
     were added, duplicate definitions, unknown bases and circular bases are reported as errors, and
     unknown names are reported as not found.""",
     ["inputs", "histories"],
     "all small asset tables over several providers, environments and base chains, including malformed ones",
     "the tests look up a few hand-written cards",
     [S + "assets/store.py", S + "assets/card.py", S + "assets/metadata_provider.py"],
     [("environment overlay and base chain", S + "assets/store.py"), ("field inheritance", S + "assets/card.py")],
     ["cards, fields and errors of look-ups"])

prop("A02", "The asset download cache is crash-safe and always returns the complete asset",
     """A download that is interrupted at any point, by a network error or a crash, is never mistaken for the asset: later
     requests return exactly the bytes (or extracted tree) the server serves, or fail. A cached asset is returned without
     contacting the server, a forced download replaces it, offline requests succeed exactly for what is completely
     cached, and nothing outside the asset's own cache location is ever written.""",
     ["crash_points", "fault_sequences", "histories"],
     "all interruption points of download and extraction, over sequences of plain, forced and offline requests",
     "the tests never download",
     [S + "assets/download_manager.py"],
     [("temporary download and extraction directories", S + "assets/download_manager.py")],
     ["returned paths and contents, requests to the server"])

prop("R01", "Dependency resolution: one shared instance, right selection, no partial state",
     """Resolving an object gives the registration for its type and key (a second one is refused), all registrations in
     order for collections, one shared instance for every singleton however often and from wherever it is resolved, and a fresh
     object otherwise. A circular dependency and a missing dependency are reported as errors naming the culprit, an
     optional look-up gives nothing only if the object itself is not registered (never hiding an error inside it), and
     registrations made after the first resolution are refused.""",
     ["histories", "programs"],
     "all small registration graphs and resolution sequences, including cycles, failures and missing pieces",
     "the container has no test",
     [S + "runtime/dependency.py"],
     [("registry and resolution stack", S + "runtime/dependency.py")],
     ["objects and errors of resolutions"])

prop("U01", "Configuration overrides change exactly the named settings",
     """Merging an override into a configuration changes, adds or deletes exactly the settings the override names, at
     any depth, and keeps everything else; neither input is modified or shared with the result. Settings are deleted
     first, then merged, then set (what is set explicitly wins); this works at every level, malformed directives are
     refused with the offending path, and merging an empty override changes nothing. Directory and environment variable
     references are replaced wherever they occur in a value, and nothing else is.""",
     ["inputs"],
     "all small configuration trees and overrides, including malformed directives",
     "the tests merge a few hand-picked trees",
     [S + "utils/config.py", S + "utils/argparse.py"],
     [("recursive merge", S + "utils/config.py:StandardConfigMerger")],
     ["merged configuration and errors"])

prop("U02", "The current data type and device are scoped to thread and block",
     """Inside a scope that sets the data type or the device, tensors created by the same thread without an explicit type
     or device get the innermost one that was set, and leaving the scope, normally or by an exception, restores what
     held before. Scopes of one thread are never visible in another, the two kinds of scopes nest freely, and an
     explicitly given type or device always wins.""",
     ["histories", "schedules"],
     "all nestings and interleavings of data type and device scopes over a few threads",
     "scoping is a stack discipline over threads; the tests do not touch it",
     [S + "data_type.py", S + "device.py", S + "utils/threading.py"],
     [("torch function mode per scope", S + "data_type.py:set_dtype"), ("device scope", S + "device.py:set_device")],
     ["type and device of created tensors, current type and device"])

prop("U03", "Random state: scoped seeding does not leak, saved state resumes the stream",
     """Inside a scope with a temporary seed the random stream is a function of that seed only, and after the scope,
     left normally or by an exception, the outer stream continues as if the scope had never been. Restoring a saved
     random state makes the stream continue exactly as it did after saving, for all generators of the bag.""",
     ["histories"],
     "all nestings and sequences of seeding, drawing, scopes, failing scopes, saves and restores",
     "the tests do not compose these operations",
     [S + "utils/rng.py"],
     [("generator bag", S + "utils/rng.py:RngBag")],
     ["random draws"])

prop("B01", "Beam search returns the best finished hypotheses under its rules",
     """Beam search returns, for each prompt, hypotheses in descending score order that extend the prompt, respect the
     minimum and maximum lengths (counted from the longest prompt of the batch), contain no padding and end with the
     end symbol (forced at the length limit). The score of a hypothesis is the sum of the log-probabilities of all its
     tokens but the first, its prompt's included and the penalty for the unknown token taken off where it was
     generated, divided, if normalized, by the number of those tokens to the power of the length penalty; the step
     scores are the terms of that sum. Beam search finds exactly the hypotheses its rules admit: at each step the best
     2 x beam size possible continuations of the live beams, those that finish set aside, the best of the others going
     on, until enough have finished. Step processors and prefill chunking have no other effect than on the
     probabilities, and on the speed.""",
     ["inputs", "configurations"],
     "all small vocabularies, score tables, beam sizes, length limits, prompts and batchings",
     "there is no test of generation beyond single examples",
     [S + "generation/beam_search/generator.py", S + "generation/beam_search/algo.py"],
     [("beam bookkeeping", S + "generation/beam_search/generator.py")],
     ["hypotheses and scores"])

prop("B02", "Sampling generates only admissible tokens and finishes every sequence",
     """Every sampled sequence extends its prompt by tokens that were drawn only from the admissible set of that step (the
     top-k or smallest top-p nucleus of the model's distribution at the given temperature, without padding, without the
     end symbol before the minimum length, the unknown token being less likely by its penalty), each as often as its
     probability says, and ends with the end symbol at the latest at the length limit (lengths being counted from the
     longest prompt of the batch). The requested number of sequences is returned for each prompt, in descending score
     order if scores are computed; a score is the sum of the log-probabilities of all tokens of the sequence but the
     first, normalized like that of beam search, and the step scores are their probabilities.""",
     ["inputs", "configurations"],
     "all small vocabularies, distributions, limits, prompts, batchings, and random draws",
     "there is no test of generation beyond single examples",
     [S + "generation/sampling/generator.py", S + "generation/sampling/sampler.py"],
     [("sampling loop", S + "generation/sampling/generator.py")],
     ["sampled sequences and scores"])

prop("B03", "Step processors ban exactly what they promise to ban",
     """The repeated n-gram blocker forbids exactly the tokens that would complete an n-gram already present in the same
     sequence, and the banned-sequence processor forbids exactly the tokens that would complete one of its sequences at
     the end of the generated text; all other scores, and all other sequences of the batch, are left as they are.""",
     ["inputs"],
     "all small token sequences, n-gram sizes, and sets of banned sequences",
     "there is no test of the processors",
     [S + "generation/step_processor.py"],
     [("n-gram windows", S + "generation/step_processor.py"), ("banned prefixes", S + "generation/step_processor.py")],
     ["scores before and after"])

prop("B04", "Incremental decoding equals full decoding, through reordering and chunking",
     """Feeding a sequence to the decoder of any of the model families piecewise through an incremental state, in chunks
     of any sizes and with the batch reordered in between, gives at each position the output that decoding the
     corresponding whole sequence at once gives, whatever the attention window or chunk, the kind of position encoding,
     the grouping or sharing of keys, and the capacity increment of the state. Reordering selects, duplicates and drops
     histories exactly as the given indices say, source sequences included. A key/value state always holds at least the
     keys that the positions still to come may attend to, in order. The state takes exactly the number of steps it was
     created for, and refuses more.""",
     ["histories", "configurations"],
     "all chunkings of short sequences with reorderings in between, for all attention state variants and model families",
     "the tests of incremental decoding check single steps of a few models, in one order, within the window",
     [S + "nn/incremental_state.py", S + "models/transformer/multihead_attention.py", S + "models/transformer/attention_bias.py"],
     [("key/value cache", S + "models/transformer/multihead_attention.py"),
      ("step counter", S + "nn/incremental_state.py")],
     ["decoder outputs"])

prop("B05", "Attention sees exactly the admissible positions, in every batch layout",
     """In every attention implementation, with every kind of bias (none, causal, windowed, chunked, ALiBi), every real
     query attends to exactly the real keys of its own sequence that the bias admits, the last query being aligned with
     the last key, and to nothing else, however the batch is padded or packed; no output is ever NaN. In a whole model an
     output position depends on exactly the input positions that the layers' biases connect it with. Each sequence of a
     padded or packed batch gets the same output as alone, and the loss of a batch is the sum of the losses of its
     sequences, whatever is in the padding, as long as padding targets hold the pad symbol or are masked out.
     (Excepted: front ends that convolve over a sequence together with its padding.)""",
     ["inputs", "configurations"],
     "all small batch layouts, biases, attention implementations and model families that run on CPU",
     "the tests compare implementations with each other on a few layouts",
     [S + "models/transformer/attention_bias.py", S + "models/transformer/sdpa", S + "nn/batch_layout.py"],
     [("bias per block of the batch", S + "models/transformer/attention_bias.py:materialize_attention_bias"),
      ("bias left out", S + "models/transformer/attention_bias.py:maybe_get_attention_bias_tensor")],
     ["attention weights", "model outputs", "losses"])

prop("S01", "Resharding a checkpoint preserves every parameter",
     """A model checkpoint saved under any tensor and sharded data parallel layout can be loaded under any other layout,
     and every rank receives exactly its slice of each full parameter: concatenating the slices of all ranks along the
     sharded dimension gives back the original parameter, bit for bit. Replicated parameters arrive whole on every
     rank, tied parameters stay tied to the same values, and no parameter is dropped, duplicated or invented. A damaged checkpoint is
     reported as such.""",
     ["configurations", "inputs"],
     "all pairs of source and target layouts up to eight shards and all kinds of sharded parameters",
     "no test loads a sharded checkpoint",
     [S + "model_checkpoint/native.py", S + "model_checkpoint/common.py", S + "models/llama/checkpoint.py",
      S + "nn/fsdp/fsdp1.py", S + "nn/fsdp/fsdp2.py"],
     [("reshard on load", S + "model_checkpoint/common.py"), ("lazy file grid", S + "model_checkpoint/native.py")],
     ["loaded parameters on every rank"])

prop("V01", "Validation and evaluation see every batch once and do not disturb training",
     """A validation, evaluation or generation run processes every batch of every unit's data exactly once, in order,
     without gradients and in evaluation mode, reports each unit's metrics over all batches of all ranks separately and
     afresh on each run (also after one that failed), under the unit's name and the step, and returns the configured
     score. Training resumes after it exactly as if no validation had run: random streams, training mode and data
     positions are as before, and consecutive validations of unchanged parameters draw the same random numbers.""",
     ["histories", "configurations"],
     "all small numbers of units, batches, ranks and repeated runs",
     "there is no test of the validator or evaluator",
     [S + "validator.py", S + "evaluator.py"],
     [("temporary seed and reset", S + "validator.py")],
     ["batches, modes and random state seen by the units, recorded metrics"])

prop("E01", "Model export: one at a time, run by one rank, reported once to all",
     """An export runs one export process, started by the first rank only, over the step's checkpoint; a new export first
     waits for the one in flight. All ranks learn at the same poll that it ended, each rank's callback runs exactly once
     if it succeeded and never if it failed, and a failed export does not stop training. In a training run every
     checkpoint saved is exported in order, stays in place while it is, and all have been reported when the run ends.""",
     ["schedules", "fault_sequences"],
     "all interleavings of exports, polls and process endings over a few ranks",
     "there is no test of the exporter",
     [S + "checkpoint/hg.py"],
     [("future and broadcast of completion", S + "checkpoint/hg.py")],
     ["processes started, results of polls, callbacks"])

prop("F01", "All file system implementations behave alike",
     """For every sequence of operations the native and the generic local file systems, given plain paths or file URIs,
     give the same results, errors of the same kind and the same tree, whatever the names are: writing truncates or
     appends as asked, moving replaces and never moves into a directory, copying a directory merges it into its target,
     removing removes exactly what was named, creating directories is idempotent and globbing lists exactly the matching
     entries, as paths usable with the same file system. A remote store does the same where it has the operation.""",
     ["histories"],
     "all short sequences of operations over a few paths",
     "the tests exercise each operation in isolation",
     [S + "file_system.py"],
     [("implementations of one interface", S + "file_system.py")],
     ["results, errors and the directory tree"])

prop("K01", "Tensor-parallel layers compute what their unsharded counterparts compute",
     """Splitting a linear layer by columns or rows, or an embedding by vocabulary or dimension, over any number of ranks
     gives the same outputs on every rank and the same gradients for inputs and for each rank's slice of the parameters
     as the unsplit layer, with and without bias and for gathered, scattered and reduced inputs and outputs. A model split this way gives the outputs and the gradients
     of the whole model; layers created from one seed hold slices of the same initial parameters, and joining the
     slices gives the unsplit layer back.""",
     ["configurations", "inputs"],
     "all split sizes up to four, layer kinds and input/output modes, over exact integer-valued tensors",
     "the tests run unsharded layers only",
     [S + "nn/projection.py", S + "nn/embedding.py", S + "ops/tensor_parallel.py"],
     [("collective autograd functions", S + "ops/tensor_parallel.py")],
     ["outputs and gradients on every rank"])

prop("N01", "Batch layouts describe exactly the real elements of a batch",
     """For every batch, padded or packed, the layout's sequence boundaries, lengths, position indices, padding flags and
     masks mark exactly the real elements: each element is attributed to one sequence and position, padding to none.
     Inconsistent lengths are refused, and splitting, viewing or shifting a batch into input and target parts preserves
     each sequence's elements in order. Element counts, position encodings (start offsets included), span masks and
     feature extractors' output lengths follow the real elements too: the amount of padding changes nothing.""",
     ["inputs"],
     "all small sets of sequence lengths, padded and packed, with all padding amounts",
     "the tests check a few hand-picked shapes",
     [S + "nn/batch_layout.py", S + "datasets/batch.py", S + "nn/utils/mask.py", S + "nn/position_encoder.py",
      S + "models/wav2vec2/feature_extractor.py", S + "models/wav2vec2/masker.py", S + "models/s2t_transformer"],
     [("layout construction", S + "nn/batch_layout.py")],
     ["layout fields, masks and derived batches"])

prop("L02", "Learning rate schedules are what they are defined as at every step",
     """For every schedule (cosine with growing, shrinking or equal cycles, inverse square root in both variants, polynomial,
     tri-stage, constant), every configuration, number of steps and parameter group, the learning rate that is reported
     and that the optimizer uses after t steps is the one the schedule's definition gives: linear warmup from the start
     rate to the base rate, then its own decay, cycles that follow each other without gap and restart at their scaled base rate,
     the final rate from the last step on. Saving and restoring, or building a schedule with the number of steps taken, continues it exactly;
     rates may be numbers or tensors, given once or per group, directly or through a recipe.""",
     ["configurations", "histories"],
     "all small schedules; random ones to hundreds of steps with saves, restores and rebuilds",
     "the tests follow one configuration per schedule for a few points",
     [S + "optim/lr_schedulers", S + "recipe/internal/lr_schedulers.py"],
     [("closed forms of each schedule", S + "optim/lr_schedulers")],
     ["last learning rates", "rates in the parameter groups"])

prop("L03", "Every parameter is updated with the settings of the first group selecting it",
     """For every model and list of parameter groups, each parameter is given to the optimizer exactly once: in the first
     group one of whose patterns matches its name from the beginning or equals it, otherwise in a last group made for what is left.
     Groups stay in the order they are listed, empty or not. A group's own settings apply to its parameters, the optimizer's
     to everything else, and a step moves each parameter that is not frozen by them.""",
     ["configurations", "inputs"],
     "all small names and patterns; random module trees, patterns and settings for both optimizers",
     "the tests cover four hand-written cases",
     [S + "recipe/optim.py", S + "recipe/internal/optim.py"],
     [("assignment of parameters to groups", S + "recipe/optim.py:prepare_parameter_groups")],
     ["parameter groups of the optimizer", "parameters after a step"])

prop("U06", "A model made, loaded, moved, shared or synced is whole and the same on all ranks",
     """However modules share submodules, parameters and buffers: moving a module to a device, or emptying it, moves each
     tensor once, so that what was one tensor stays one and what were two stay two, with gradients and their being trainable or not; what is on the device stays untouched,
     what had no content is reset, and a module that is spread over devices is refused unchanged. Visiting and resetting reach every module once,
     in order. Sharing gives the target exactly the source's tensors or is refused. Loading a state or checkpoint puts every value where it belongs and reports missing, unexpected
     and misshapen entries. Syncing gives all ranks the source's parameters and persistent buffers, except in skipped modules. A model that is
     created or loaded on any number of ranks, with or without meta device support, has no hole: parameters of the checkpoint or of the first rank, own non-persistent buffers,
     ties kept, and no rank waits forever.""",
     ["configurations", "inputs", "histories"],
     "all small module graphs with shared tensors; random ones under random operations, real jobs up to four ranks",
     "the tests move and visit hand-written trees on one process",
     [S + "nn/utils/module.py", S + "models/family.py", S + "models/utils/checkpoint.py"],
     [("memoized traversal of modules and tensors", S + "nn/utils/module.py"), ("meta creation, load on one rank, broadcast", S + "models/family.py")],
     ["identity, device, content and gradient of every tensor after every operation, on every rank"])

prop("U07", "Tokenizers turn text into indices and back, framed as each mode asks",
     """For every text: an encoder gives the indices of the vocabulary's own segmentation of the text, special tokens found first,
     between the prefix and the suffix that its family and mode ask for; a mode the family does not know is refused. The tokens it reports are, joined, the text. The reported size is that of the vocabulary
     that models are made for: all indices are below it, save those of tokens added to a Hugging Face vocabulary; a role's index is that of the token named for it, or none. Decoding what was encoded gives the text back,
     with special tokens left out where, and only where, that was asked for. What one encoder or decoder was made with (mode, device, skipping) never shows in another. Loading reads the file that is
     there now, and a file that is no tokenizer model is reported as such. References between tokenizer cards are followed to the end; circular or dangling ones are refused.""",
     ["inputs", "configurations", "histories"],
     "all texts of up to four symbols over small vocabularies; random vocabularies and texts with multi-byte characters in every family",
     "the tests use a few texts and one vocabulary",
     [S + "data/tokenizers/hg.py", S + "data/tokenizers/tiktoken.py", S + "data/tokenizers/ref.py", S + "models/llama/tokenizer.py"],
     [("encoders and decoders", S + "data/tokenizers"), ("families' modes and roles", S + "models")],
     ["indices, tokens, texts, sizes and errors returned"])

prop("A03", "A sub-path in a card leads to a part of its asset, and never out of it",
     """When a card of a model or tokenizer names a part of its asset by a sub-path, what is loaded is what that path leads to,
     provided its real location is within the asset's real location; otherwise the card is refused and nothing is loaded. This holds for absolute paths, paths with `..`, links within
     the asset that lead out of it or back, and for assets that are themselves reached by links; the answer is the same for local and downloaded assets.""",
     ["inputs", "configurations"],
     "all trees of up to two links; random trees of directories, files and links",
     "the tests do not use sub-paths",
     [S + "models/family.py", S + "data/tokenizers/family.py"],
     [("sub-paths of models", S + "models/family.py"), ("sub-paths of tokenizers", S + "data/tokenizers/family.py")],
     ["location handed to the loader, or the refusal"])

prop("N02", "Every element is encoded with its place in its own sequence",
     """Whatever the batch layout (padded, packed or plain, with or without a heads dimension) and whatever the step of an incremental evaluation, a position encoder
     gives each real element the encoding of its place in its own sequence, counted from the current step when evaluating and from zero when training. Sequences that would go
     beyond the longest supported length are refused. Inputs are not changed. For rotary and sinusoidal encoders products of encoded vectors depend only on how far apart they are. Encodings of two- and
     three-dimensional inputs have the shape of the input, equal the table on its own grid, and features of one coordinate do not vary with another.""",
     ["inputs", "configurations"],
     "all layouts of up to three sequences of up to four elements, cut into steps in all ways; random batches for each encoder",
     "the tests encode no packed batch and no step",
     [S + "nn/position_encoder.py"],
     [("all position encoders", S + "nn/position_encoder.py")],
     ["encoding found at each place of a batch"])

prop("U04", "Typed configurations survive writing and reading; other data is refused",
     """Reading a configuration value as a declared type (numbers, text, enumerations, paths, tensor types, devices,
     literals, lists, sets, tuples, mappings, unions, optional values, data classes nested in any way) gives a value of
     that type or an error, never anything else, never a value that loses part of the data, whatever the data is.
     A value already of the type is kept as it is. Writing a value of the type to its plain form (as in YAML or JSON)
     and reading it back gives the same value, and missing fields get their defaults.""",
     ["inputs", "configurations"],
     "all small types with all small values and data",
     "the tests read a dozen values of hand-picked types",
     [S + "utils/structured.py", S + "utils/dataclass.py"],
     [("recursive conversion rules", S + "utils/structured.py")],
     ["values read, plain forms, refusals"])

prop("U05", "The tag of a run tells configurations apart, and names the same one alike",
     """The tag that names a run's output directory is a function of the configuration and the number of ranks: two runs
     with the same configuration get the same tag, in any process and whatever the order of the keys, and runs whose
     configurations differ in a value, a key or an empty container get different tags. A user-given format replaces each
     placeholder by the value of exactly that setting, doubled braces by braces, and is refused if it is malformed or names an unknown setting.""",
     ["inputs", "configurations"],
     "all formats of a few tokens; random pairs of configurations one edit apart",
     "the tests pin a few tags",
     [S + "recipe/internal/sweep_tag.py"],
     [("hash and formatter", S + "recipe/internal/sweep_tag.py")],
     ["tags, refusals"])

prop("H01", "A model exported to Hugging Face is the same there, and comes back the same",
     """For every supported family (LLaMA, Qwen, OLMo, Gemma 3n) and every architecture and dimension, the exported
     configuration makes Transformers build a model that takes exactly the exported tensors, none missing, none left over,
     and computes the same outputs; importing the exported tensors gives back the original parameters, bit by bit. Checkpoints in the layout of a
     family's reference implementation are likewise imported to the parameters they hold. Rows of rotary projections are permuted
     head by head exactly as the two conventions require.""",
     ["configurations", "inputs"],
     "all small head layouts; random configurations of every family and all registered architectures",
     "the tests compare some configuration entries",
     [S + "models/llama/interop.py", S + "models/qwen/interop.py", S + "models/olmo/interop.py",
      S + "models/gemma3n/interop.py", S + "models/hg/converter.py", S + "models/utils/checkpoint.py"],
     [("key maps and permutations", S + "models/utils/checkpoint.py"), ("configuration export", S + "models/hg/converter.py")],
     ["names, shapes, rows and outputs of the exported model"])

prop("H02", "A language model is trained on exactly the tokens it is asked to predict",
     """Whatever the padding, the target mask, the label smoothing and the reduction, the loss is the sum (or mean) over the
     real, unmasked targets of the negative log probability, smoothed as documented, that the position before assigns to
     the token: every such target counts once and alike, padding and masked targets count nothing and change nothing. This
     holds for the loss function of the library and for Hugging Face models wrapped to be trained by it, and the number of targets reported
     is the number that counts.""",
     ["inputs", "configurations"],
     "all batches of two sequences of three tokens with all masks; random larger batches over Transformers models",
     "the tests use mocks in place of models",
     [S + "nn/functional/cross_entropy.py", S + "models/hg/adapter.py", S + "datasets/batch.py", S + "models/transformer_lm/model.py"],
     [("adapter of Transformers models", S + "models/hg/adapter.py"), ("masking and smoothing", S + "nn/functional/cross_entropy.py")],
     ["weights of every (position, token) in the loss"])

prop("W01", "Masked speech pretraining masks only real steps, contrasts within a sequence",
     """A mask of spans covers only real elements of each row, results from as many spans of the asked length as the
     probability gives for the shortest row, masks equally many elements in every row and never all of them; rows too short
     for a span and too few spans are refused. The masker replaces exactly the masked steps by the mask embedding and sets
     whole features of a sequence to zero if asked to mask features, all else is unchanged. Each masked step is contrasted with its own target,
     first, and with as many distractors as asked, each of another masked step of the same sequence; a distractor equal to the target is left out.
     The losses are summed over all masked steps and combined with the given weights.""",
     ["inputs", "configurations"],
     "all masks of small rows; random rows, maskers and models",
     "masks and distractors are random, the tests see none of them",
     [S + "nn/utils/mask.py", S + "models/wav2vec2/masker.py", S + "models/wav2vec2/model.py"],
     [("row masks", S + "nn/utils/mask.py"), ("masker", S + "models/wav2vec2/masker.py"), ("quantize and contrast", S + "models/wav2vec2/model.py")],
     ["masks, masked sequences, candidates of each step"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    with open(out, "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
    print(len(P), "properties")
