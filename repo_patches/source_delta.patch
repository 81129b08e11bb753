From b106ed753b7eb9114a58ef276b6f362b64de8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 01/97] fix: unlist a checkpoint before deleting its files

A crash in the middle of delete_checkpoint() left a partially deleted
checkpoint that was still reported as complete and resumable. Move the step
directory (or, if the model is kept, its trainer state) out of the way with a
single rename before deleting anything.
---
 src/fairseq2/checkpoint/manager.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index d54491e..9303122 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -675,8 +675,21 @@ class StandardCheckpointManager(CheckpointManager):
                 raise_operational_system_error(ex)
 
             if step_dir_exists:
+                is_local = self._is_local_checkpoint_dir()
+
                 try:
                     if keep_model:
+                        # A checkpoint without a trainer state is considered
+                        # model-only, so move it out of the way first. Otherwise,
+                        # a crash while deleting the remaining state would leave
+                        # an incomplete, but seemingly resumable checkpoint.
+                        trainer_dir = step_dir.joinpath("trainer")
+
+                        if is_local and self._file_system.exists(trainer_dir):
+                            self._file_system.move(trainer_dir, tmp_step_dir)
+
+                            self._file_system.remove_directory(tmp_step_dir)
+
                         for path in self._file_system.glob(step_dir, pattern="*"):
                             if path.stem in ("model", "hg", "hook"):
                                 continue
@@ -685,6 +698,12 @@ class StandardCheckpointManager(CheckpointManager):
                                 self._file_system.remove_directory(path)
                             else:
                                 self._file_system.remove(path)
+                    elif is_local:
+                        # Make sure that a crash while deleting the files does
+                        # not leave an incomplete checkpoint behind.
+                        self._file_system.move(step_dir, tmp_step_dir)
+
+                        self._file_system.remove_directory(tmp_step_dir)
                     else:
                         self._file_system.remove_directory(step_dir)
                 except OSError as ex:
-- 
2.43.0


From cb526b8a23ecb61e01f876a041b0e0477a346517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 02/97] fix: write checkpoint scores atomically

A crash while a score was being written left an empty or truncated score file,
which made every later score lookup (e.g. keep_best_n) fail or use a wrong
score.
---
 src/fairseq2/checkpoint/manager.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index 9303122..dd2e2e8 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -537,8 +537,14 @@ class StandardCheckpointManager(CheckpointManager):
 
             score_file = scores_dir.joinpath(f"step_{step_nr}.txt")
 
+            # Do not leave a half-written score file behind if we crash.
+            if self._is_local_checkpoint_dir():
+                tmp_score_file = scores_dir.joinpath(f"step_{step_nr}.txt.tmp")
+            else:
+                tmp_score_file = score_file
+
             try:
-                fp = self._file_system.open_text(score_file, mode=FileMode.WRITE)
+                fp = self._file_system.open_text(tmp_score_file, mode=FileMode.WRITE)
             except OSError as ex:
                 raise_operational_system_error(ex)
 
@@ -549,6 +555,12 @@ class StandardCheckpointManager(CheckpointManager):
             finally:
                 fp.close()
 
+            if tmp_score_file != score_file:
+                try:
+                    self._file_system.move(tmp_score_file, score_file)
+                except OSError as ex:
+                    raise_operational_system_error(ex)
+
         try:
             gangs.root.barrier()
         except GangError as ex:
-- 
2.43.0


From c1d3aa3fb23ffd433d105f5a2920eb91780a599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 03/97] fix: refuse a sub-gang rank that equals the size of the
 gang

---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index feda04b..3fbd8d4 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -638,7 +638,7 @@ def _check_ranks(ranks: Sequence[int], gang_size: int) -> None:
         raise ValueError("Ranks in `ranks` must be unique.")
 
     for idx, rank in enumerate(ranks):
-        if rank < 0 or rank > gang_size:
+        if rank < 0 or rank >= gang_size:
             raise ValueError(
                 f"Rank at index {idx} in `ranks` must be greater than or equal to 0 and less than the size of the gang ({gang_size}), but is {rank} instead."
             )
-- 
2.43.0


From 4d429e3d086d3fc5dad5aa94206dfb8e707b795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 04/97] fix: check all parallel gangs of the coordinator
 process

---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 3fbd8d4..798c5e1 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -689,7 +689,7 @@ class Gangs(Closable):
 
     def __post_init__(self) -> None:
         if self.root.rank == 0:
-            if self.dp.rank != 0 or self.tp.rank != 0 and self.pp.rank != 0:
+            if self.dp.rank != 0 or self.tp.rank != 0 or self.pp.rank != 0:
                 raise ValueError(
                     "Coordinator process of the root gang (i.e. `root.rank == 0`) must be rank 0 in all parallel gangs."
                 )
-- 
2.43.0


From 050fa4ffe8f07fa1880a3840bf40ed09dabb8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 05/97] fix: take the source rank of a broadcast relative to
 the gang

---
 src/fairseq2/gang.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 798c5e1..bd32c61 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -579,18 +579,34 @@ class ProcessGroupGang(Gang):
 
     @override
     def broadcast(self, tensor: Tensor, source_rank: int = 0) -> None:
+        source_global_rank = self._get_global_rank(source_rank)
+
         try:
-            dist.broadcast(tensor, source_rank, group=self._pg)
+            dist.broadcast(tensor, source_global_rank, group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast")
 
     @override
     def broadcast_objects(self, objects: list[object], source_rank: int = 0) -> None:
+        source_global_rank = self._get_global_rank(source_rank)
+
         try:
-            dist.broadcast_object_list(objects, source_rank, group=self._pg)
+            dist.broadcast_object_list(objects, source_global_rank, group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast_object_list")
 
+    def _get_global_rank(self, rank: int) -> int:
+        # `torch.distributed` expects the source to be a rank of the default
+        # process group.
+        size = self.size
+
+        if rank < 0 or rank >= size:
+            raise ValueError(
+                f"`source_rank` must be greater than or equal to 0 and less than the size of the gang ({size}), but is {rank} instead."
+            )
+
+        return dist.get_global_rank(self._pg, rank)
+
     @staticmethod
     def _raise_op_failed(cause: Exception, op: str) -> NoReturn:
         raise GangError(f"`{op}()` collective operation failed.") from cause
-- 
2.43.0


From 0b49f187e059dd62d4efdc66aaa4f9042947d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:16 +0000
Subject: [PATCH 06/97] fix: report a truncated tensor file as corrupt

---
 src/fairseq2/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index 59c24c7..995418e 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -141,7 +141,7 @@ class _TorchTensorFileLoader(TensorFileLoader):
                         options.map_location,  # type: ignore[arg-type]
                         weights_only=options.restrict,
                     )
-            except (RuntimeError, PickleError, EOFError) as ex:
+            except (RuntimeError, ValueError, PickleError, EOFError) as ex:
                 raise CorruptFileError(file) from ex
 
         return data
-- 
2.43.0


From 46a9428a6e5e01c876f9feea1c6a8c1b1abe5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 07/97] fix: report a damaged Safetensors file as corrupt

---
 src/fairseq2/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index 995418e..745dad1 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -240,7 +240,7 @@ class _HuggingFaceSafetensorsLoader(SafetensorsLoader):
 
                 for key, tensor in tensors.items():
                     data[key] = tensor.to(device)
-        except (RuntimeError, PickleError, EOFError) as ex:
+        except (safetensors.SafetensorError, RuntimeError, PickleError, EOFError) as ex:
             raise CorruptFileError(file) from ex
 
         return data
-- 
2.43.0


From 5e586ff5cc560147caa51dc4bdd4cc322ce2a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:02 +0000
Subject: [PATCH 08/97] fix: gather tensors on CPU gangs

---
 src/fairseq2/gang.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index bd32c61..cf0ac56 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -564,7 +564,11 @@ class ProcessGroupGang(Gang):
     @override
     def all_gather(self, output_tensor: Tensor, input_tensor: Tensor) -> None:
         try:
-            dist.all_gather_into_tensor(output_tensor, input_tensor, group=self._pg)
+            # Gloo does not accept a stacked output, which the tensors are flattened
+            # for. The memory layout is the same.
+            dist.all_gather_into_tensor(
+                output_tensor.view(-1), input_tensor.reshape(-1), group=self._pg
+            )
         except RuntimeError as ex:
             self._raise_op_failed(ex, "all_gather")
 
-- 
2.43.0


From 4cdec5bc54f45ae51696c45f25805aafe818d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 09/97] fix: honour a stop request if the number of steps is
 limited

---
 src/fairseq2/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 42459c0..baa8840 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -682,7 +682,8 @@ class Trainer(Task):
         if self._max_num_steps is not None:
             if self._step_nr >= self._max_num_steps:
                 return _TrainerState.END_OF_TRAINING
-        elif self._stop_requested:
+
+        if self._stop_requested:
             return _TrainerState.STOP_REQUESTED
 
         self._maybe_save_checkpoint(blocking=False)
-- 
2.43.0


From 885e3b846f9c30499edebeacb5cc0b9a84b1c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 10/97] fix: resume with the right data epoch

---
 src/fairseq2/trainer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index baa8840..f77f568 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -410,7 +410,7 @@ class Trainer(Task):
                 return _TrainerState.STOPPED
 
         if self._max_num_data_epochs is not None:
-            if self._data_epoch_nr >= self._max_num_data_epochs:
+            if self._data_epoch_nr > self._max_num_data_epochs:
                 return _TrainerState.STOPPED
 
         return _TrainerState.DATA_LOAD
@@ -1168,9 +1168,19 @@ class _TrainerProxy(Stateful):
 
         base_wall_time = self._trainer._base_wall_time + wall_time
 
+        data_epoch_nr = self._trainer._data_epoch_nr
+
+        # At the end of a data epoch, the data reader is already back at the first
+        # batch, meaning a restored run has to continue with the next epoch.
+        if self._trainer._state in (
+            _TrainerState.END_OF_DATA_EPOCH,
+            _TrainerState.END_OF_DATA,
+        ):
+            data_epoch_nr += 1
+
         state_dict: dict[str, object] = {
             "_step_nr": self._trainer._step_nr,
-            "_data_epoch_nr": self._trainer._data_epoch_nr,
+            "_data_epoch_nr": data_epoch_nr,
             "_lr_scheduler": self._trainer._lr_scheduler.state_dict(),
             "_fp16_loss_scaler": self._trainer._fp16_loss_scaler.state_dict(),
             "_rng_bag": self._trainer._rng_bag.state_dict(),
-- 
2.43.0


From fe87bcfa8fbbf10b0c7b731467aa2bb85345a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 11/97] fix: complete the pending checkpoint at the end of data

---
 src/fairseq2/trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index f77f568..0ca97ab 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -710,13 +710,15 @@ class Trainer(Task):
             self._maybe_save_checkpoint(blocking=False)
 
             self._validate()
-
-            self._maybe_complete_checkpoint_save_operation()
-
-            self._maybe_complete_hg_export_operation()
         else:
             self._maybe_save_checkpoint(blocking=True)
 
+        # There might be a save operation pending from before we reached the end
+        # of data.
+        self._maybe_complete_checkpoint_save_operation()
+
+        self._maybe_complete_hg_export_operation()
+
         return _TrainerState.STOPPED
 
     def _early_stop(self) -> _TrainerState:
-- 
2.43.0


From 85811100db06bee34a87040d69c39532dbedd1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 12/97] fix: do not count an overflowed step if a stop is
 requested

---
 src/fairseq2/trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 0ca97ab..5811943 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -667,15 +667,17 @@ class Trainer(Task):
             log.info("Overflow detected at step {}, ignoring gradient, decreasing loss scale from {:g} to {:g}.", self._step_nr, result.old_scale, result.new_scale)  # fmt: skip
 
     def _repeat_step(self, progress_task: ProgressTask) -> _TrainerState:
-        if self._stop_requested:
-            return _TrainerState.STOP_REQUESTED
-
-        log.debug("Repeating step {}.", self._step_nr)
+        step_nr = self._step_nr
 
         self._step_nr -= 1
 
         progress_task.step(-1)
 
+        if self._stop_requested:
+            return _TrainerState.STOP_REQUESTED
+
+        log.debug("Repeating step {}.", step_nr)
+
         return _TrainerState.DATA_LOAD
 
     def _run_post_step(self) -> _TrainerState:
-- 
2.43.0


From 7f2fc63ddf9e0856d870ac983a244bed690ad2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 13/97] fix: skip validation at start if there is no validator

---
 src/fairseq2/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 5811943..7450a08 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -466,7 +466,7 @@ class Trainer(Task):
                         self._state = self._stop()
 
     def _pre_validate(self) -> _TrainerState:
-        if self._validate is not None:
+        if self._validator is not NOOP_VALIDATOR:
             self._validate()
 
         return _TrainerState.DATA_LOAD
-- 
2.43.0


From b07b229283ae15001e7ae9e7dee4da258632c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 14/97] fix: keep the score of the last checkpoint on early
 stop

---
 src/fairseq2/trainer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 7450a08..1116762 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -333,6 +333,7 @@ class Trainer(Task):
         self._stop_requested = False
         self._num_batches_read = 0
         self._last_lrs = last_lrs
+        self._last_checkpoint_step_nr: int | None = None
         self._checkpoint_save_hooks: dict[int, TrainStepHook] = OrderedDict()
         self._hg_export_hooks: dict[int, TrainStepHook] = OrderedDict()
 
@@ -729,6 +730,11 @@ class Trainer(Task):
         self._stop_requested = True
 
         should_save_checkpoint = self._should_save_checkpoint()
+
+        # Saving the step again would drop its score.
+        if self._last_checkpoint_step_nr == self._step_nr:
+            should_save_checkpoint = False
+
         if should_save_checkpoint:
             self._save_checkpoint(blocking=True)
         else:
@@ -758,6 +764,8 @@ class Trainer(Task):
 
         log.info("Preparing checkpoint at step {}.", step_nr)
 
+        self._last_checkpoint_step_nr = step_nr
+
         self._maybe_complete_checkpoint_save_operation()
 
         def on_checkpoint_ready() -> None:
-- 
2.43.0


From 9e72b686f58b4b7691e946f54377dc93cb7ce6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 15/97] fix: do not take overflows of the first epoch for an
 empty dataset

---
 src/fairseq2/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 1116762..9f13a67 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -484,7 +484,8 @@ class Trainer(Task):
 
             self._data_reader.reset()
 
-        if self._step_nr == 0:
+        # If `_first_iter` is `False`, all steps so far overflowed.
+        if self._step_nr == 0 and self._first_iter:
             log.info("Dataset is empty or too small to train. Stopping training.")
 
             return _TrainerState.STOPPED
-- 
2.43.0


From 08d90c644a7ba4f153fbf61b4fde2bc6119c2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 16/97] fix: normalize gradients if only some processes have
 targets

---
 src/fairseq2/nn/utils/grad.py | 3 ++-
 src/fairseq2/trainer.py       | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 465ae67..7870430 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -32,7 +32,8 @@ def normalize_grads(module: Module, gang: Gang, num_targets: int) -> None:
     :param num_target:
         The number of targets used in loss computation in this process.
     """
-    total_num_targets = all_sum(gang, num_targets)
+    # If there are no targets at all, do not divide by zero.
+    total_num_targets = all_sum(gang, num_targets).clamp(min=1)
 
     # Both DDP and FSDP divide gradients by the world size which we also undo.
     scale_grads(module, gang.size / total_num_targets)
diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 9f13a67..c3bdd47 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -554,7 +554,7 @@ class Trainer(Task):
 
         gangs = self._gangs
 
-        num_targets = 0
+        num_targets: int | None = None
 
         with self._compute_watch:
             with record_function(f"step_{step_nr}_setup"):
@@ -583,7 +583,7 @@ class Trainer(Task):
                         if num_batch_targets is None:
                             loss = loss / num_batches
                         else:
-                            num_targets += num_batch_targets
+                            num_targets = (num_targets or 0) + num_batch_targets
 
                         with record_function(f"step_{step_nr}_{batch_nr}_backward"):
                             self._fp16_loss_scaler.backward(loss)
@@ -597,8 +597,9 @@ class Trainer(Task):
             # This function gathers the total number of logit targets across all
             # processes and divides the gradients by it. This is needed when the
             # batches have varying sizes and we cannot normalize the loss before
-            # the backward pass.
-            if num_targets > 0:
+            # the backward pass. Note that this is a collective operation, so we
+            # cannot skip it if only this process has no targets.
+            if num_targets is not None:
                 normalize_grads(self._model, gangs.dp, num_targets)
 
             self._fp16_loss_scaler.unscale_grads_(self._optimizer)
-- 
2.43.0


From 057c7829bb2db1df1f9607a3af2349edf7321565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 17/97] fix: do not take overflows before a resume for an empty
 dataset

---
 src/fairseq2/trainer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index c3bdd47..1254942 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -329,6 +329,7 @@ class Trainer(Task):
         self._step_nr = 0
         self._data_epoch_nr = 1
         self._first_iter = True
+        self._restored = False
         self._batches: list[Any] | None = None
         self._stop_requested = False
         self._num_batches_read = 0
@@ -402,6 +403,8 @@ class Trainer(Task):
 
         self._reset_non_total_metrics()
 
+        self._restored = True
+
         self._gangs.root.barrier()
 
         log.info("Training restored. Resuming from step {}.", step_nr)
@@ -484,8 +487,9 @@ class Trainer(Task):
 
             self._data_reader.reset()
 
-        # If `_first_iter` is `False`, all steps so far overflowed.
-        if self._step_nr == 0 and self._first_iter:
+        # If `_first_iter` is `False` or if we have been restored from a checkpoint,
+        # all steps so far overflowed.
+        if self._step_nr == 0 and self._first_iter and not self._restored:
             log.info("Dataset is empty or too small to train. Stopping training.")
 
             return _TrainerState.STOPPED
-- 
2.43.0


From dcb026785c7f204aa0aa0e29c7ba35058c63bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:16 +0000
Subject: [PATCH 18/97] fix: list checkpoints on all processes before deleting
 any

---
 src/fairseq2/trainer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 1254942..f735156 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -1036,6 +1036,13 @@ class Trainer(Task):
     def _delete_previous_non_model_checkpoints(self) -> None:
         step_nrs = self._checkpoint_manager.get_step_numbers(exclude_model_only=True)
 
+        # Make sure that no process starts deleting before all processes retrieved
+        # the same list.
+        try:
+            self._gangs.root.barrier()
+        except GangError as ex:
+            raise_operational_gang_error(ex)
+
         num_steps = len(step_nrs)
         if num_steps <= 1:
             return
-- 
2.43.0


From 14a3aed6f553eb754e56364febc2d24f9bc00890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 19/97] fix: accumulate gradients without synchronization under
 FSDP2

---
 src/fairseq2/nn/fsdp/fsdp2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/nn/fsdp/fsdp2.py b/src/fairseq2/nn/fsdp/fsdp2.py
index cdcbf6d..2fa9a31 100644
--- a/src/fairseq2/nn/fsdp/fsdp2.py
+++ b/src/fairseq2/nn/fsdp/fsdp2.py
@@ -51,7 +51,7 @@ if TYPE_CHECKING:
 
         def reshard(self) -> None: ...
 
-        def set_requires_grad_sync(self, value: bool) -> None: ...
+        def set_requires_gradient_sync(self, value: bool) -> None: ...
 
 else:
     FSDP2Module: TypeAlias = FSDPModule
@@ -205,12 +205,12 @@ def fsdp2_load_local_state_dict(
 
 @contextmanager
 def fsdp2_no_sync(module: FSDP2Module) -> Iterator[None]:
-    module.set_requires_grad_sync(False)
+    module.set_requires_gradient_sync(False)
 
     try:
         yield
     finally:
-        module.set_requires_grad_sync(True)
+        module.set_requires_gradient_sync(True)
 
 
 @contextmanager
-- 
2.43.0


From 6ebbb70549b8d5886e0ac54e808bf9384c79448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 20/97] fix: report circular bases of asset cards as
 AssetCardError

---
 src/fairseq2/assets/store.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index d861107..bd7448e 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -113,11 +113,18 @@ class StandardAssetStore(AssetStore):
         if not name:
             return None
 
-        return self._do_retrieve_card(name, name, envs)
+        return self._do_retrieve_card(name, name, envs, [])
 
     def _do_retrieve_card(
-        self, name: str, leaf_name: str, envs: list[str]
+        self, name: str, leaf_name: str, envs: list[str], descendants: list[str]
     ) -> AssetCard | None:
+        if name in descendants:
+            s = " -> ".join(descendants + [name])
+
+            msg = f"{leaf_name} asset card has a circular base: {s}."
+
+            raise AssetCardError(leaf_name, msg)
+
         metadata = self._maybe_get_metadata(f"{name}@")
         if metadata is None:
             if name != leaf_name:
@@ -139,7 +146,9 @@ class StandardAssetStore(AssetStore):
         if not isinstance(base_name, str):
             base_card = None
         else:
-            base_card = self._do_retrieve_card(base_name, leaf_name, envs)
+            base_card = self._do_retrieve_card(
+                base_name, leaf_name, envs, descendants + [name]
+            )
 
         return AssetCard(name, metadata, base_card)
 
-- 
2.43.0


From 247a204766c39b7200e604368b963a50d3272082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 21/97] fix: strip the base name of in-memory asset metadata

---
 src/fairseq2/assets/metadata_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fairseq2/assets/metadata_provider.py b/src/fairseq2/assets/metadata_provider.py
index c4e46c5..9aa8dde 100644
--- a/src/fairseq2/assets/metadata_provider.py
+++ b/src/fairseq2/assets/metadata_provider.py
@@ -277,6 +277,8 @@ def load_in_memory_asset_metadata(
 
                 raise AssetMetadataError(source, msg)
 
+            asset_metadata["base"] = base_name
+
         metadata[name] = asset_metadata
 
     return CachedAssetMetadataProvider(source, metadata)
-- 
2.43.0


From 521ad49640f9a712c94f96b7fbc3e9bf9670dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 22/97] fix: resolve relative paths of inherited asset card
 fields against the card that holds them

---
 src/fairseq2/assets/card.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/card.py b/src/fairseq2/assets/card.py
index 3bf6c92..3d362c4 100644
--- a/src/fairseq2/assets/card.py
+++ b/src/fairseq2/assets/card.py
@@ -49,7 +49,7 @@ class AssetCard:
             except KeyError:
                 pass
             else:
-                return AssetCardField(name, self, value)
+                return AssetCardField(name, self, value, owner=card)
 
             card = card.base
 
@@ -84,10 +84,23 @@ class AssetCard:
 
 @final
 class AssetCardField:
-    def __init__(self, name: str, card: AssetCard, value: object) -> None:
+    def __init__(
+        self,
+        name: str,
+        card: AssetCard,
+        value: object,
+        *,
+        owner: AssetCard | None = None,
+    ) -> None:
+        """
+        :param card: The card that was asked for the field.
+        :param owner: The card, ``card`` or one of its bases, that holds the
+            field. If ``None``, defaults to ``card``.
+        """
         self._name = name
         self._card = card
         self._value = value
+        self._owner = owner if owner is not None else card
 
     @property
     def value(self) -> object:
@@ -116,7 +129,8 @@ class AssetCardField:
             raise AssetCardError(self._card.name, msg) from None
 
         if not path.is_absolute():
-            base_path = self._card.metadata.get("__base_path__")
+            # A relative pathname is relative to the file that holds the field.
+            base_path = self._owner.metadata.get("__base_path__")
             if not isinstance(base_path, Path):
                 msg = f"{self._name} field of the {self._card.name} asset card is a relative pathname and cannot be converted to a URI."
 
-- 
2.43.0


From 151fde625af3e1d83e11fe02aadad4299919e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 23/97] fix: decode percent-encoded file URIs in Uri.to_path()

---
 src/fairseq2/utils/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/uri.py b/src/fairseq2/utils/uri.py
index 685e333..307882a 100644
--- a/src/fairseq2/utils/uri.py
+++ b/src/fairseq2/utils/uri.py
@@ -8,7 +8,7 @@ from __future__ import annotations
 
 from pathlib import Path
 from typing import final
-from urllib.parse import ParseResult, urlparse, urlunparse
+from urllib.parse import ParseResult, unquote, urlparse, urlunparse
 
 from fairseq2.error import InternalError, NotSupportedError
 
@@ -81,7 +81,7 @@ class Uri:
 
         s = str(self)
 
-        return Path(s[7:])
+        return Path(unquote(s[7:]))
 
     def __str__(self) -> str:
         return urlunparse(self._result)
-- 
2.43.0


From af4cb55c5ec931a2fd099898054366b1666a8d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 24/97] fix: report HTTP errors of asset downloads as
 AssetDownloadError

---
 src/fairseq2/assets/download_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 1cfd12b..66410dd 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -11,6 +11,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Generator, Sequence, Set
 from contextlib import ExitStack, contextmanager
 from hashlib import sha1
+from http.client import HTTPException
 from pathlib import Path
 from tarfile import TarFile, is_tarfile
 from tempfile import NamedTemporaryFile
@@ -542,6 +543,8 @@ class _AssetDownloadOperation:
             path = self._retrieve_asset_path()
         except OSError as ex:
             self._raise_download_error("A system error occurred.", ex)
+        except HTTPException as ex:
+            self._raise_download_error("Server sent an incomplete response.", ex)
 
         _flush_nfs_lookup_cache(self._asset_dir)
 
@@ -607,12 +610,12 @@ class _AssetDownloadOperation:
 
             try:
                 response = urlopen(request)
-            except URLError as ex:
-                self._raise_download_error("Address is not reachable.", ex)
             except HTTPError as ex:
                 self._raise_download_error(
                     f"Server returned HTTP error code {ex.code}."
                 )
+            except URLError as ex:
+                self._raise_download_error("Address is not reachable.", ex)
 
             exit_stack.enter_context(response)
 
-- 
2.43.0


From a5078c59d41baeb9fc8b08aab993cc40359928a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 25/97] fix: never take an interrupted asset download or
 clean-up for a complete asset

---
 src/fairseq2/assets/download_manager.py | 44 ++++++++++++++++++-------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 66410dd..75c86d6 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -553,22 +553,25 @@ class _AssetDownloadOperation:
     def _clean_cached_asset(self) -> None:
         asset_dir = self._asset_dir
 
-        try:
-            self._file_system.remove_directory(asset_dir)
-        except FileNotFoundError:
-            pass
-
         download_dir = asset_dir.with_suffix(".download")
 
-        try:
-            self._file_system.remove_directory(download_dir)
-        except FileNotFoundError:
-            pass
-
         tmp_download_dir = asset_dir.with_suffix(".download.tmp")
 
+        # If we get interrupted while removing `asset_dir` or `download_dir`,
+        # what is left of them must not be mistaken for a complete asset. That is
+        # why we first move them to the temporary directory. `asset_dir` goes
+        # first since it is considered complete if there is no `download_dir`.
+        for dir_ in (asset_dir, download_dir):
+            self._remove_directory(tmp_download_dir)
+
+            if self._file_system.exists(dir_):
+                self._file_system.move(dir_, tmp_download_dir)
+
+        self._remove_directory(tmp_download_dir)
+
+    def _remove_directory(self, path: Path) -> None:
         try:
-            self._file_system.remove_directory(tmp_download_dir)
+            self._file_system.remove_directory(path)
         except FileNotFoundError:
             pass
 
@@ -581,13 +584,20 @@ class _AssetDownloadOperation:
         download_dir = asset_dir.with_suffix(".download")
 
         if self._file_system.exists(download_dir):
-            return
+            if next(download_dir.iterdir(), None) is not None:
+                return
+
+            # An extracted asset whose `asset_dir` has since been removed.
+            self._remove_directory(download_dir)
 
         succeeded = False
 
         with ExitStack() as exit_stack:
             tmp_download_dir = asset_dir.with_suffix(".download.tmp")
 
+            # Might be left over from an interrupted download.
+            self._remove_directory(tmp_download_dir)
+
             self._file_system.make_directory(tmp_download_dir)
 
             def remove_tmp_dir() -> None:
@@ -767,6 +777,16 @@ class _AssetDownloadOperation:
     def _retrieve_asset_path(self) -> Path:
         asset_dir = self._asset_dir
 
+        if self._local_only:
+            download_dir = asset_dir.with_suffix(".download")
+
+            # If the download was not removed yet, it was not fully extracted.
+            if self._file_system.exists(download_dir):
+                if next(download_dir.iterdir(), None) is not None:
+                    self._raise_download_error(
+                        "Asset is not fully extracted, but `local_only` is `True`."
+                    )
+
         if not self._file_system.exists(asset_dir):
             if self._local_only:
                 reason = "Asset is not cached, but `local_only` is `True`."
-- 
2.43.0


From 3bc3371f3619571cb0976ab3fdf4abb4ceb09094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 26/97] fix: keep downloaded assets within their cache
 directory

---
 src/fairseq2/assets/download_manager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 75c86d6..39e2996 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -697,9 +697,15 @@ class _AssetDownloadOperation:
 
             if filename is None:
                 try:
-                    filename = unquote(Path(urlparse(response.geturl()).path).name)
+                    filename = unquote(urlparse(response.geturl()).path)
                 except ValueError:
-                    filename = "asset"
+                    filename = ""
+
+            # The name comes from the server; never leave the asset directory.
+            filename = Path(filename).name
+
+            if not filename or filename == "..":
+                filename = "asset"
 
             download_file = tmp_download_dir.joinpath(filename)
 
-- 
2.43.0


From 4533e2ef969e4064466a38298728355d30cfcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 27/97] fix: extract compressed tar assets, safely, and report
 corrupt archives as AssetDownloadError

---
 src/fairseq2/assets/download_manager.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 39e2996..d08f249 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -13,13 +13,15 @@ from contextlib import ExitStack, contextmanager
 from hashlib import sha1
 from http.client import HTTPException
 from pathlib import Path
-from tarfile import TarFile, is_tarfile
+from tarfile import TarError, is_tarfile
+from tarfile import open as tarfile_open
 from tempfile import NamedTemporaryFile
 from typing import Final, final
 from urllib.error import HTTPError, URLError
 from urllib.parse import unquote, urlparse
 from urllib.request import Request, urlopen
 from zipfile import BadZipFile, ZipFile
+from zlib import error as ZLibError
 
 from huggingface_hub import snapshot_download
 from huggingface_hub.constants import HF_HUB_CACHE
@@ -745,7 +747,7 @@ class _AssetDownloadOperation:
                     try:
                         with ZipFile(download_file) as zip_fp:
                             zip_fp.extractall(path=asset_dir)
-                    except (KeyError, OSError, EOFError, BadZipFile) as ex:
+                    except (KeyError, OSError, EOFError, BadZipFile, ZLibError) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
@@ -762,9 +764,9 @@ class _AssetDownloadOperation:
 
                 with task:
                     try:
-                        with TarFile(download_file) as tar_fp:
-                            tar_fp.extractall(path=asset_dir)
-                    except (KeyError, OSError, EOFError) as ex:
+                        with tarfile_open(download_file) as tar_fp:
+                            tar_fp.extractall(path=asset_dir, filter="data")
+                    except (KeyError, OSError, EOFError, TarError, ZLibError) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
-- 
2.43.0


From ffb112e092b68050548ecf1503815f6140f388c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 28/97] fix: compute per-step scores before removing the prompt
 in beam search

---
 src/fairseq2/generation/beam_search/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 70cb709..2a7422c 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -774,8 +774,8 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Do not keep `seqs` in memory.
         seq = seq.clone()
 
-        # (S_out)
-        step_scores = self._step_scores[seq_idx, start_step:seq_len]
+        # (S)
+        step_scores = self._step_scores[seq_idx, :seq_len]
 
         # Similar to `seqs`, do not keep `step_scores` in memory.
         step_scores = step_scores.clone()
@@ -783,6 +783,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Convert from cumulative to per-step scores.
         step_scores[1:] = step_scores[1:] - step_scores[:-1]
 
+        # (S) -> (S_out)
+        step_scores = step_scores[start_step:]
+
         if self._normalize_scores:
             # Since the first step's score is always 0, do not include it in
             # the normalization.
-- 
2.43.0


From ed36e689e8e467e81172a7c6903464f8644a87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 29/97] fix: do not keep impossible candidates in beam search

---
 src/fairseq2/generation/beam_search/algo.py      |  4 +++-
 src/fairseq2/generation/beam_search/generator.py | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/generation/beam_search/algo.py b/src/fairseq2/generation/beam_search/algo.py
index 31f407c..be9a22c 100644
--- a/src/fairseq2/generation/beam_search/algo.py
+++ b/src/fairseq2/generation/beam_search/algo.py
@@ -102,6 +102,8 @@ class StandardBeamSearchAlgorithm(BeamSearchAlgorithm):
         lprobs = lprobs.view(-1)
 
         # (2 x B)
-        top_scores, top_indices = torch.topk(lprobs, k=min(2 * beam_size, vocab_size))
+        top_scores, top_indices = torch.topk(
+            lprobs, k=min(2 * beam_size, lprobs.size(0))
+        )
 
         return BeamStep(top_indices // vocab_size, top_indices % vocab_size, top_scores)
diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 2a7422c..74d9637 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -717,6 +717,13 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             self._beam_size, lprobs, step_scores[:, : self._step_nr]
         )
 
+        # If the beam has less than 2 x `beam_size` possible candidates (e.g. due
+        # to a small vocabulary), make sure that we do not include the rest.
+        possible_mask = next_step.scores != -torch.inf
+
+        if possible_mask.any():
+            next_step = next_step.masked_select(possible_mask)
+
         # Translate the sequence indices from beam to batch.
         next_step.seq_indices += batch_offset
 
@@ -747,6 +754,10 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
 
             next_step = next_step.masked_select(seq_mask)
 
+            # All possible sequences have reached EOS.
+            if len(next_step.seq_indices) == 0:
+                return None
+
         # We can have at most `beam_size` sequences in the beam.
         return next_step.first(self._beam_size)
 
-- 
2.43.0


From 4f202099c36f9a2529e6be9a106dff9b6fb7680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 30/97] fix: score the remaining prompt steps with the
 unmodified probabilities in beam search

---
 .../generation/beam_search/generator.py       | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 74d9637..8b32c8a 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -602,6 +602,13 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         if lprobs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # The scores of the remaining prompt steps must not be affected by the
+        # modifications below which are meant for the generated steps.
+        if self._step_nr < self._max_prompt_len:
+            prompt_lprobs = lprobs.clone()
+        else:
+            prompt_lprobs = lprobs
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -635,7 +642,7 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             zip(lprobs.split(self._beam_sizes), self._step_scores.split(self._beam_sizes))  # fmt: skip
         ):
             beam_next_step = self._search_beam(
-                beam_idx, batch_offset, beam_lprobs, beam_step_scores
+                beam_idx, batch_offset, beam_lprobs, beam_step_scores, prompt_lprobs
             )
 
             # Bump the beam batch offset to the next beam.
@@ -683,7 +690,12 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         return True
 
     def _search_beam(
-        self, beam_idx: int, batch_offset: int, lprobs: Tensor, step_scores: Tensor
+        self,
+        beam_idx: int,
+        batch_offset: int,
+        lprobs: Tensor,
+        step_scores: Tensor,
+        prompt_lprobs: Tensor,
     ) -> BeamStep | None:
         # Ignore the generated indices for the prompt sequences.
         if self._step_nr < self._max_prompt_len:
@@ -703,7 +715,10 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
                 # reach the end of the prompt.
                 vocab_idx = self._seqs[batch_offset, self._step_nr : self._step_nr + 1]
 
-                score = step_scores[0, self._step_nr - 1] + lprobs[0, vocab_idx]
+                score = (
+                    step_scores[0, self._step_nr - 1]
+                    + prompt_lprobs[batch_offset, vocab_idx]
+                )
 
                 return BeamStep(seq_idx, vocab_idx, score)
         else:
-- 
2.43.0


From c16a8395c5de7d580d2c012767cacf4dfd0c6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 31/97] fix: fan out source sequences when there is nothing to
 prefill in sampling

---
 src/fairseq2/generation/sampling/generator.py | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 754fbf7..9a24625 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -882,6 +882,27 @@ class _SamplingSeq2SeqGeneratorOp(_AbstractSamplingSequenceGeneratorOp):
         self._source_seqs = source_seqs
         self._source_seqs_layout = source_seqs_layout
 
+    @override
+    def _prepare_state(self) -> None:
+        super()._prepare_state()
+
+        # If there was nothing to prefill, the source sequences are not encoded
+        # yet and have to be fanned out to `num_prompts` x `num_gens` as well.
+        if self._min_prompt_len == 1 and self._num_gens > 1:
+            self._source_seqs = repeat_interleave(
+                self._source_seqs, dim=0, repeat=self._num_gens
+            )
+
+            source_seq_lens = [
+                seq_len
+                for seq_len in self._source_seqs_layout.seq_lens
+                for _ in range(self._num_gens)
+            ]
+
+            self._source_seqs_layout = BatchLayout.of(
+                self._source_seqs, source_seq_lens
+            )
+
     @override
     def _decode(self, seqs: Tensor) -> Tensor:
         # We never pad during incremental decoding.
-- 
2.43.0


From f276a0549b3d4afe440b130ce215d30c9bee776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 32/97] fix: do not let UNK penalty turn probabilities negative
 in sampling

---
 src/fairseq2/generation/sampling/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 9a24625..61fca58 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -629,6 +629,9 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             if self._unk_idx is not None:
                 probs[:, self._unk_idx] -= self._unk_penalty
 
+                # The penalty must not turn the probability negative.
+                probs[:, self._unk_idx].clamp_(min=0.0)
+
             # Never allow PAD.
             if self._pad_idx is not None:
                 probs[:, self._pad_idx] = 0
-- 
2.43.0


From 31f6523988edc282ac016211115d11d060dd2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 33/97] fix: score the remaining prompt steps with the
 unmodified probabilities in sampling

---
 src/fairseq2/generation/sampling/generator.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 61fca58..291acda 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -613,6 +613,13 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
         if probs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # The scores of the remaining prompt steps must not be affected by the
+        # modifications below which are meant for the generated steps.
+        if self._step_nr < self._max_prompt_len:
+            prompt_probs = probs.clone()
+        else:
+            prompt_probs = probs
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -658,6 +665,8 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             # Override the generated indices.
             vocab_indices[mask] = self._seqs[mask, self._step_nr]
 
+            probs[mask] = prompt_probs[mask]
+
             # Ignore EOS in the prompt sequences.
             eos_mask[mask] = False
         else:
-- 
2.43.0


From 579eb627db43178062e61f7a6f99988274bfbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 34/97] fix: always reorder the static attention state

---
 src/fairseq2/models/transformer/multihead_attention.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 07b6f66..33d8a90 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -952,9 +952,8 @@ class StaticAttentionState(AttentionState):
 
     @override
     def reorder(self, new_order: Tensor) -> None:
-        if new_order.size(0) != self._k.size(0):
-            self._k = self._k.index_select(0, new_order)
-            self._v = self._v.index_select(0, new_order)
+        self._k = self._k.index_select(0, new_order)
+        self._v = self._v.index_select(0, new_order)
 
     @override
     def size_bytes(self) -> int:
-- 
2.43.0


From 309593787824c92c557e32148ad95ea4766795d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 35/97] fix: keep the full window of multi-step appends in the
 local attention state

---
 .../models/transformer/multihead_attention.py | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 33d8a90..47cb22e 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -822,31 +822,30 @@ class LocalAttentionState(AttentionState):
         self._k[:, :copy_len] = k[:, -copy_len:]
         self._v[:, :copy_len] = v[:, -copy_len:]
 
-        self._seq_len = seq_len
+        self._seq_len = copy_len
 
     @override
     def append(self, k: Tensor, v: Tensor) -> None:
         input_seq_len = k.size(1)
 
-        self._expand_kv(input_seq_len)
+        pos = self._seq_len
 
-        if self._seq_len + input_seq_len > self._attn_window_len:
-            copy_len = min(input_seq_len, self._attn_window_len)
+        if pos + input_seq_len > self._attn_window_len:
+            # The window of the first position of this step spans the preceding
+            # `attn_window_len - 1` positions.
+            past_len = min(pos, self._attn_window_len - 1)
 
-            if copy_len == self._attn_window_len:
-                pos = 0
-            else:
-                self._k = torch.roll(self._k, shifts=-copy_len, dims=1)
-                self._v = torch.roll(self._v, shifts=-copy_len, dims=1)
+            self._k = torch.cat([self._k[:, pos - past_len : pos], k], dim=1)
+            self._v = torch.cat([self._v[:, pos - past_len : pos], v], dim=1)
 
-                pos = self._attn_window_len - copy_len
-        else:
-            pos = self._seq_len
+            self._seq_len = past_len + input_seq_len
 
-            copy_len = input_seq_len
+            return
+
+        self._expand_kv(input_seq_len)
 
-        self._k[:, pos : pos + copy_len] = k[:, -copy_len:]
-        self._v[:, pos : pos + copy_len] = v[:, -copy_len:]
+        self._k[:, pos : pos + input_seq_len] = k
+        self._v[:, pos : pos + input_seq_len] = v
 
         self._seq_len += input_seq_len
 
-- 
2.43.0


From e614a9bcda678c427a84e649777b7f0b5ede6cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 36/97] fix: use the layout of shared keys during incremental
 decoding

---
 src/fairseq2/models/transformer/multihead_attention.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 47cb22e..b91a2dd 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -413,6 +413,10 @@ class StandardMultiheadAttention(MultiheadAttention):
         if pre_computed_kv is not None:
             # KV sharing: use pre-computed K/V from source layer
             k, v = pre_computed_kv
+
+            if not self.training and state_bag is not None:
+                # The source layer also returns the past keys and values.
+                keys_layout = BatchLayout.of(k)
         elif self.training or state_bag is None:
             # Full forward pass (training or no incremental state)
             # k: (N, S_kv, M) -> (N, S_kv, H_kv, K_h)
-- 
2.43.0


From baa1b60d096960445aa0135fad1313106d2605d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 37/97] fix: apply the attention window with respect to the key
 length

---
 src/fairseq2/models/transformer/attention_bias.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7150de0..7a78733 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -76,7 +76,7 @@ class CausalAttentionBias(AttentionBias):
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
         if self.attn_window_len is None:
-            attn_window_len = q_len
+            attn_window_len = k_len
         else:
             attn_window_len = self.attn_window_len
 
@@ -190,7 +190,7 @@ class ALiBiAttentionBias(AttentionBias):
             causal_bias = _create_causal_bias_tensor(
                 q_len,
                 k_len,
-                q_len,
+                k_len,
                 from_bottom_right=True,
                 device=device,
                 dtype=dtype,
@@ -224,7 +224,7 @@ def _create_causal_bias_tensor(
 
     bias.tril_(diagonal=d)
 
-    if attn_window_len < q_len:
+    if attn_window_len < k_len:
         bias.triu_(diagonal=d - attn_window_len + 1)
 
     bias.log_()
-- 
2.43.0


From 76fc3951cdc31a8f527f3b1e743b09201be62a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 38/97] fix: chunked attention bias was not an additive bias
 and refused past keys

---
 .../models/transformer/attention_bias.py      | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7a78733..24f0dcf 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -121,23 +121,24 @@ class ChunkedAttentionBias(AttentionBias):
     def create_bias_tensor(
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
-        if q_len != k_len:
-            raise ValueError(f"`q_len` and `k_len` must be equal: {q_len} != {k_len}")
+        # The queries are aligned with the last `q_len` keys.
+        # (S, 1)
+        q_pos = torch.arange(k_len - q_len, k_len, device=device).unsqueeze(1)
 
-        # (S, S)
-        block_pos = (
-            torch.arange(q_len, device=device).unsqueeze(0) // self.attn_chunk_size
-        ) - (torch.arange(q_len, device=device).unsqueeze(1) // self.attn_chunk_size)
-        token_pos = torch.arange(q_len, device=device).unsqueeze(0) - torch.arange(
-            q_len, device=device
-        ).unsqueeze(1)
+        # (1, S_kv)
+        k_pos = torch.arange(k_len, device=device).unsqueeze(0)
+
+        block_pos = (k_pos // self.attn_chunk_size) - (q_pos // self.attn_chunk_size)
+        token_pos = k_pos - q_pos
 
         mask: Tensor = (block_pos == 0) & (token_pos <= 0)
 
-        mask = mask.to(dtype)
+        # (S, S_kv)
+        bias = mask.to(dtype)
+
+        bias.log_()
 
-        # (S, S)
-        return mask
+        return bias
 
     def __repr__(self) -> str:
         return f"ChunkedAttentionBias(attn_chunk_size={self.attn_chunk_size})"
-- 
2.43.0


From 870d00887740f6dfd07cf28a31211e9c067871e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 39/97] fix: let padded queries attend to all keys if there is
 no padding

---
 src/fairseq2/models/transformer/attention_bias.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 24f0dcf..6509960 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -311,11 +311,16 @@ def _create_block_bias_tensor(
     prev_k_end = 0
 
     for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
-        if prev_q_end != q_begin and prev_k_end != k_begin:  # pad
-            tensor[prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+        if prev_q_end != q_begin:  # pad
+            if prev_k_end != k_begin:
+                tensor[..., prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+            else:
+                # There is no padding to attend to. The outputs of padding do
+                # not matter, but they must not be NaN.
+                tensor[..., prev_q_end:q_begin, :] = 0.0
 
         if q_begin != q_end and k_begin != k_end:
-            tensor[q_begin:q_end, k_begin:k_end] = bias.create_bias_tensor(
+            block = bias.create_bias_tensor(
                 q_end - q_begin, k_end - k_begin, device, dtype
             )
 
-- 
2.43.0


From 4c7aa28cc725d1eb5adbe23c88f2ed13f332a628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 40/97] fix: support per-head attention bias in padded and
 packed batches

---
 src/fairseq2/models/transformer/attention_bias.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 6509960..6bcb50e 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -324,6 +324,11 @@ def _create_block_bias_tensor(
                 q_end - q_begin, k_end - k_begin, device, dtype
             )
 
+            if block.ndim > tensor.ndim:  # per-head bias
+                tensor = tensor.repeat(block.size(0), 1, 1)
+
+            tensor[..., q_begin:q_end, k_begin:k_end] = block
+
         prev_q_end = q_end
         prev_k_end = k_end
 
-- 
2.43.0


From 7e3108a8e63420a51381f8f758421c1fd201feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 41/97] fix: do not skip attention bias for padded or
 out-of-window single queries

---
 src/fairseq2/models/transformer/attention_bias.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 6bcb50e..5aad8a9 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -391,9 +391,15 @@ def maybe_get_attention_bias_tensor(
         if full_q and full_k:
             return None
 
-    if isinstance(bias, CausalAttentionBias) or isinstance(bias, ChunkedAttentionBias):
-        if not q_layout.packed:
-            if q_layout.max_seq_len == 1:
+    # A single query, aligned with the last key, attends to all keys unless they
+    # exceed the attention window or the attention chunk.
+    if not q_layout.packed and q_layout.width == 1 and not k_layout.padded:
+        if isinstance(bias, CausalAttentionBias):
+            if bias.attn_window_len is None or bias.attn_window_len >= k_layout.width:
+                return None
+
+        if isinstance(bias, ChunkedAttentionBias):
+            if bias.attn_chunk_size >= k_layout.width:
                 return None
 
     return _get_attention_bias_tensor(  # type: ignore[no-any-return]
-- 
2.43.0


From 3d24fff4e9c49a3b34c8c55729ed1b18df52e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 42/97] fix: allow taking the last incremental decoding step

---
 src/fairseq2/nn/incremental_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/incremental_state.py b/src/fairseq2/nn/incremental_state.py
index c0e74e7..13c2adb 100644
--- a/src/fairseq2/nn/incremental_state.py
+++ b/src/fairseq2/nn/incremental_state.py
@@ -84,7 +84,7 @@ class IncrementalStateBag:
         """
         step_nr = self._step_nr + value
 
-        if step_nr >= self._max_num_steps:
+        if step_nr > self._max_num_steps:
             raise ValueError(
                 f"The current step number ({self._step_nr}) with `value` increment ({value}) must be less than or equal to the maximum number of steps ({self.max_num_steps}), but is {self._step_nr + value} instead."
             )
-- 
2.43.0


From 8ab7c186c59a37ada071bf6f4f1368d6b63cded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 43/97] fix: accept padded batches in the s2t feature extractor

---
 src/fairseq2/models/s2t_transformer/feature_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/models/s2t_transformer/feature_extractor.py b/src/fairseq2/models/s2t_transformer/feature_extractor.py
index 02c2ae9..87a025e 100644
--- a/src/fairseq2/models/s2t_transformer/feature_extractor.py
+++ b/src/fairseq2/models/s2t_transformer/feature_extractor.py
@@ -98,7 +98,7 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
             :math:`N` is the batch size, :math:`S` is the number of frames, and
             :math:`C` is the number of channels.
         """
-        if seqs_layout.padded:
+        if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
         # Apply the convolution along the temporal dimension (i.e. along the
-- 
2.43.0


From 79a17befbddd6c50aa8cc86377932f4db1062bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 44/97] fix: Seq2SeqBatch.num_target_elements counted source
 elements without a target mask

---
 src/fairseq2/datasets/batch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fairseq2/datasets/batch.py b/src/fairseq2/datasets/batch.py
index 28618fe..a69e95b 100644
--- a/src/fairseq2/datasets/batch.py
+++ b/src/fairseq2/datasets/batch.py
@@ -505,9 +505,7 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
 
         self._target_mask = target_mask
 
-        if target_mask is None:
-            self._num_target_elements = self._num_elements
-        else:
+        if target_mask is not None:
             self._num_target_elements = int(target_mask.sum())
 
         self._example = example
-- 
2.43.0


From 280759124d1ff630da657b4dda70b9c1053abf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 45/97] fix: compute_row_mask must return a bool mask when no
 span fits

---
 src/fairseq2/nn/utils/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/utils/mask.py b/src/fairseq2/nn/utils/mask.py
index 2fd8277..8bce8b6 100644
--- a/src/fairseq2/nn/utils/mask.py
+++ b/src/fairseq2/nn/utils/mask.py
@@ -106,7 +106,7 @@ def compute_row_mask(
     # (N, M x L)
     indices = _compute_mask_spans(row_lens, span_len, max_mask_prob, min_num_spans)
     if indices is None:
-        return row_lens.new_empty((0, 0))
+        return torch.zeros(shape, device=device, dtype=torch.bool)
 
     return _generate_mask(indices, max_row_len).to(device)
 
-- 
2.43.0


From 06da9625cb0c870d5525387283c2e3ff69eadb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 46/97] fix: report missing shards of a parameter as a corrupt
 model checkpoint

---
 src/fairseq2/model_checkpoint/native.py | 5 +++++
 src/fairseq2/models/llama/checkpoint.py | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/model_checkpoint/native.py b/src/fairseq2/model_checkpoint/native.py
index f0e9fae..bc1fcde 100644
--- a/src/fairseq2/model_checkpoint/native.py
+++ b/src/fairseq2/model_checkpoint/native.py
@@ -146,6 +146,11 @@ class _NativeModelCheckpointLoader(ModelCheckpointLoader):
 
                         dp_splits.append(dp_split)
 
+                    if not dp_splits:
+                        message = f"{key} is missing in one or more tensor parallel shards of {path}."
+
+                        raise CorruptModelCheckpointError(path, message)
+
                     splits.append(dp_splits)
 
                 split_0 = splits[0][0]
diff --git a/src/fairseq2/models/llama/checkpoint.py b/src/fairseq2/models/llama/checkpoint.py
index 6cae800..f78492c 100644
--- a/src/fairseq2/models/llama/checkpoint.py
+++ b/src/fairseq2/models/llama/checkpoint.py
@@ -110,7 +110,9 @@ class _LLaMACheckpointLoader(ModelCheckpointLoader):
                 try:
                     tp_split = tp_shard.pop(key)
                 except KeyError:
-                    break  # data parallel sharding can be uneven.
+                    message = f"{key} is missing in one or more tensor parallel shards of {path}."
+
+                    raise CorruptModelCheckpointError(path, message) from None
 
                 if not isinstance(tp_split, Tensor):
                     message = f"{key} in {path} is not a `{Tensor}`."
-- 
2.43.0


From 819b50bec2015343ecfabf0ebeafc936525ae9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 47/97] fix: report inconsistent shard shapes as a corrupt
 model checkpoint

---
 src/fairseq2/model_checkpoint/native.py | 21 +++++++++++++--------
 src/fairseq2/models/llama/checkpoint.py | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/fairseq2/model_checkpoint/native.py b/src/fairseq2/model_checkpoint/native.py
index bc1fcde..bea0871 100644
--- a/src/fairseq2/model_checkpoint/native.py
+++ b/src/fairseq2/model_checkpoint/native.py
@@ -160,14 +160,19 @@ class _NativeModelCheckpointLoader(ModelCheckpointLoader):
 
                 memo.add(split_0)
 
-                tensor = reshard_tensor(
-                    key,
-                    splits,
-                    source_shard_sizes,
-                    target_shard_sizes,
-                    target_shard_ranks,
-                    shard_dims,
-                )
+                try:
+                    tensor = reshard_tensor(
+                        key,
+                        splits,
+                        source_shard_sizes,
+                        target_shard_sizes,
+                        target_shard_ranks,
+                        shard_dims,
+                    )
+                except (RuntimeError, IndexError) as ex:
+                    message = f"Shards of {key} in {path} have inconsistent shapes."
+
+                    raise CorruptModelCheckpointError(path, message) from ex
 
                 yield key, tensor
 
diff --git a/src/fairseq2/models/llama/checkpoint.py b/src/fairseq2/models/llama/checkpoint.py
index f78492c..2a3d10a 100644
--- a/src/fairseq2/models/llama/checkpoint.py
+++ b/src/fairseq2/models/llama/checkpoint.py
@@ -128,14 +128,19 @@ class _LLaMACheckpointLoader(ModelCheckpointLoader):
 
             memo.add(split_0)
 
-            tensor = reshard_tensor(
-                key,
-                splits,
-                source_shard_sizes,
-                target_shard_sizes,
-                target_shard_ranks,
-                shard_dims,
-            )
+            try:
+                tensor = reshard_tensor(
+                    key,
+                    splits,
+                    source_shard_sizes,
+                    target_shard_sizes,
+                    target_shard_ranks,
+                    shard_dims,
+                )
+            except (RuntimeError, IndexError) as ex:
+                message = f"Shards of {key} in {path} have inconsistent shapes."
+
+                raise CorruptModelCheckpointError(path, message) from ex
 
             yield key, tensor
 
-- 
2.43.0


From 1cdcdf4dc7dfae6169bccedac3f3e79ad149e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 48/97] fix: convert batch normalization before FSDP wraps the
 module

---
 src/fairseq2/nn/fsdp/fsdp1.py | 13 +++++++------
 src/fairseq2/nn/fsdp/fsdp2.py | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/fairseq2/nn/fsdp/fsdp1.py b/src/fairseq2/nn/fsdp/fsdp1.py
index 306a8ef..081f3d9 100644
--- a/src/fairseq2/nn/fsdp/fsdp1.py
+++ b/src/fairseq2/nn/fsdp/fsdp1.py
@@ -150,6 +150,13 @@ def to_fsdp1(
         except RuntimeError as ex:
             raise GangError("FSDP1 parameter synchronization failed.") from ex
 
+    # FSDP does not broadcast buffers during training, so ensure that batch
+    # normalization works. This has to be done before sharding since FSDP keeps
+    # references to the modules that own the sharded parameters.
+    dp_process_group = gangs.dp.as_process_group()
+
+    module = SyncBatchNorm.convert_sync_batchnorm(module, dp_process_group)
+
     module = applier(module, wrap)
 
     if not isinstance(module, FSDP1Module):
@@ -167,12 +174,6 @@ def to_fsdp1(
             optim_state_dict_config=ShardedOptimStateDictConfig(offload_to_cpu=False),
         )
 
-    # FSDP does not broadcast buffers during training, so ensure that batch
-    # normalization works.
-    dp_process_group = gangs.dp.as_process_group()
-
-    SyncBatchNorm.convert_sync_batchnorm(module, dp_process_group)
-
     return module
 
 
diff --git a/src/fairseq2/nn/fsdp/fsdp2.py b/src/fairseq2/nn/fsdp/fsdp2.py
index 2fa9a31..45353d4 100644
--- a/src/fairseq2/nn/fsdp/fsdp2.py
+++ b/src/fairseq2/nn/fsdp/fsdp2.py
@@ -157,17 +157,18 @@ def to_fsdp2(
 
         return cast(FSDP2Module, module)
 
+    # FSDP2 does not broadcast buffers during training, so ensure that batch
+    # normalization works. This has to be done before sharding since FSDP2 keeps
+    # references to the modules that own the sharded parameters.
+    dp_process_group = dp_gang.as_process_group()
+
+    module = SyncBatchNorm.convert_sync_batchnorm(module, dp_process_group)
+
     module = applier(module, wrap)
 
     if not isinstance(module, FSDP2Module):
         module = wrap(module, reshard_after_forward=False)
 
-    # FSDP2 does not broadcast buffers during training, so ensure that batch
-    # normalization works.
-    dp_process_group = dp_gang.as_process_group()
-
-    SyncBatchNorm.convert_sync_batchnorm(module, dp_process_group)
-
     return module
 
 
-- 
2.43.0


From 66a4f5b19a16ba6afeb6cbbf72e1e49d1a7e1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 49/97] fix: fsdp_load_local_state_dict raised after a
 successful load

---
 src/fairseq2/nn/fsdp/unified.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/nn/fsdp/unified.py b/src/fairseq2/nn/fsdp/unified.py
index 5dbead2..e3c5d42 100644
--- a/src/fairseq2/nn/fsdp/unified.py
+++ b/src/fairseq2/nn/fsdp/unified.py
@@ -104,9 +104,13 @@ def fsdp_load_local_state_dict(module: Module, state_dict: dict[str, object]) ->
     if isinstance(module, FSDP1Module):
         fsdp1_load_local_state_dict(module, state_dict)
 
+        return
+
     if isinstance(module, FSDP2Module):
         fsdp2_load_local_state_dict(module, state_dict)
 
+        return
+
     raise _type_error(module)
 
 
-- 
2.43.0


From f608030b2bb73b1c46d58825b98532429cdaccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 50/97] fix: reduce_on_backward overwrote a gradient shared
 with other nodes

---
 src/fairseq2/ops/tensor_parallel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/ops/tensor_parallel.py b/src/fairseq2/ops/tensor_parallel.py
index 21264cd..4098593 100644
--- a/src/fairseq2/ops/tensor_parallel.py
+++ b/src/fairseq2/ops/tensor_parallel.py
@@ -102,9 +102,13 @@ class _ReduceOnBackwardFunction(Function):
 
     @staticmethod
     def backward(ctx: Any, grad_output: Tensor) -> tuple[Tensor, None]:
-        ctx.gang.all_reduce(grad_output, ReduceOperation.SUM)
+        # The gradient can be shared with other autograd nodes or be an expanded
+        # view, so it must not be reduced in-place.
+        grad = grad_output.clone(memory_format=torch.contiguous_format)
 
-        return grad_output, None
+        ctx.gang.all_reduce(grad, ReduceOperation.SUM)
+
+        return grad, None
 
 
 def _do_scatter(x: Tensor, gang: Gang, dim: int) -> Tensor:
-- 
2.43.0


From fab567ca4bc5217325c724e399f9f8a49b3d7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 51/97] fix: tensor parallel collectives need contiguous
 tensors

---
 src/fairseq2/ops/tensor_parallel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/ops/tensor_parallel.py b/src/fairseq2/ops/tensor_parallel.py
index 4098593..120512c 100644
--- a/src/fairseq2/ops/tensor_parallel.py
+++ b/src/fairseq2/ops/tensor_parallel.py
@@ -29,7 +29,7 @@ def reduce(x: Tensor, gang: Gang) -> Tensor:
 class _ReduceFunction(Function):
     @staticmethod
     def forward(ctx: Any, x: Tensor, gang: Gang) -> Tensor:
-        x = x.detach().clone()
+        x = x.detach().clone(memory_format=torch.contiguous_format)
 
         gang.all_reduce(x, ReduceOperation.SUM)
 
@@ -131,6 +131,8 @@ def _do_gather(x: Tensor, gang: Gang, dim: int) -> Tensor:
     if gang.size == 1:
         return x
 
+    x = x.contiguous()
+
     splits = [torch.empty_like(x) for _ in range(gang.size)]
 
     gang.all_gather_to_list(splits, x)
-- 
2.43.0


From add6072dc72d78e2247f74236f5640dbdc9780b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 52/97] fix: report every unpickling error of a tensor file as
 a corrupt file

---
 src/fairseq2/io.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index 745dad1..828f52b 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -141,7 +141,17 @@ class _TorchTensorFileLoader(TensorFileLoader):
                         options.map_location,  # type: ignore[arg-type]
                         weights_only=options.restrict,
                     )
-            except (RuntimeError, ValueError, PickleError, EOFError) as ex:
+            except (
+                RuntimeError,
+                ValueError,
+                PickleError,
+                EOFError,
+                AttributeError,
+                ImportError,
+                LookupError,
+                TypeError,
+            ) as ex:
+                # Unpickling a corrupt file can raise any of these errors.
                 raise CorruptFileError(file) from ex
 
         return data
-- 
2.43.0


From 7bfcee141fd863664f62e45b246527c0fd58d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 53/97] fix: run export callbacks only if rank 0's export
 succeeded

---
 src/fairseq2/checkpoint/hg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/checkpoint/hg.py b/src/fairseq2/checkpoint/hg.py
index df0aafc..f0dd2b2 100644
--- a/src/fairseq2/checkpoint/hg.py
+++ b/src/fairseq2/checkpoint/hg.py
@@ -112,7 +112,7 @@ class OutOfProcHuggingFaceExporter(HuggingFaceExporter):
 
             cmd = [sys.executable, "-m", "fairseq2.models.utils.hg_export", "--no-rich", "--checkpoint-dir", str(self._checkpoint_dir), f"checkpoint_step_{step_nr}", str(export_dir)]  # fmt: skip
 
-            err_file: Path | None = None
+            err_file = export_dir.with_suffix(".stderr")
 
             if self._gangs.root.rank == 0:
                 run_file = export_dir.with_suffix(".run")
@@ -124,7 +124,6 @@ class OutOfProcHuggingFaceExporter(HuggingFaceExporter):
                     fp.write(command_line)
 
                 out_file = export_dir.with_suffix(".stdout")
-                err_file = export_dir.with_suffix(".stderr")
 
                 is_local = self._file_system.is_local_path(self._checkpoint_dir)
 
@@ -157,7 +156,10 @@ class OutOfProcHuggingFaceExporter(HuggingFaceExporter):
                 result = CompletedProcess(cmd, returncode=0)
 
             def commit() -> None:
-                if result.returncode != 0:
+                # Only rank 0 knows whether the operation has succeeded.
+                succeeded = broadcast_flag(self._gangs.root, result.returncode == 0)
+
+                if not succeeded:
                     log.warning("Hugging Face export operation of step {} failed. See operation output at {}.", step_nr, err_file)  # fmt: skip
 
                     return
-- 
2.43.0


From 1886b3d1e8a295de9e690aac0addd98aa6624d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 54/97] fix: complete a Hugging Face export before its
 checkpoint is saved again

---
 src/fairseq2/trainer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index f735156..39e9919 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -770,10 +770,16 @@ class Trainer(Task):
 
         log.info("Preparing checkpoint at step {}.", step_nr)
 
+        saved_before = self._last_checkpoint_step_nr == step_nr
+
         self._last_checkpoint_step_nr = step_nr
 
         self._maybe_complete_checkpoint_save_operation()
 
+        # Saving the step again deletes the checkpoint that is being exported.
+        if saved_before:
+            self._maybe_complete_hg_export_operation()
+
         def on_checkpoint_ready() -> None:
             if blocking:
                 log.info("Checkpoint prepared. Saving.")
-- 
2.43.0


From 37bc6418e2519bd77082066e8ebc9579bfee4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 55/97] fix: resolve local URIs from the root instead of the
 working directory

---
 src/fairseq2/file_system.py | 59 ++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 045c5d9..d335bb7 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -144,6 +144,10 @@ class FSspecFileSystem(FileSystem):
         """
         if self._prefix and "://" in self._prefix:
             scheme = self._prefix.split("://")[0]
+            if self.is_local and path_str.startswith(f"{scheme}:/"):
+                # Paths of local URIs are absolute, so restore `scheme:///`.
+                return f"{scheme}:///{path_str[len(scheme) + 1:].lstrip('/')}"
+
             # Check if path looks like a URI with single slash (normalized by pathlib)
             if path_str.startswith(f"{scheme}:/") and not path_str.startswith(
                 f"{scheme}://"
@@ -175,6 +179,20 @@ class FSspecFileSystem(FileSystem):
         else:
             raise ValueError(f"Path {path} does not start with prefix {self._prefix}")
 
+    def _get_fs_path(self, path: str | Path) -> str:
+        """
+        Returns the path to pass to the underlying file system. Unlike a key of
+        a remote store, a local path stays absolute after its prefix is removed.
+        """
+        short_uri = self.get_short_uri(path)
+
+        assert isinstance(short_uri, str)
+
+        if self._prefix and self.is_local:
+            return "/" + short_uri
+
+        return short_uri
+
     def get_long_uri(self, path: PathOrPaths) -> str | list[str]:
         """
         Adds prefix to paths to create full URIs.
@@ -200,15 +218,15 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def is_file(self, path: Path) -> bool:
-        return bool(self._fsspec.isfile(self.get_short_uri(path)))
+        return bool(self._fsspec.isfile(self._get_fs_path(path)))
 
     @override
     def is_dir(self, path: Path) -> bool:
-        return bool(self._fsspec.isdir(self.get_short_uri(path)))
+        return bool(self._fsspec.isdir(self._get_fs_path(path)))
 
     @override
     def exists(self, path: Path) -> bool:
-        return bool(self._fsspec.exists(self.get_short_uri(path)))
+        return bool(self._fsspec.exists(self._get_fs_path(path)))
 
     @override
     def open(self, path: Path, mode: FileMode = FileMode.READ) -> BinaryIO:
@@ -218,7 +236,7 @@ class FSspecFileSystem(FileSystem):
         elif mode == FileMode.APPEND:
             mode_str = "ab"
 
-        return cast(BinaryIO, self._fsspec.open(self.get_short_uri(path), mode_str))
+        return cast(BinaryIO, self._fsspec.open(self._get_fs_path(path), mode_str))
 
     @override
     def open_text(self, path: Path, mode: FileMode = FileMode.READ) -> TextIO:
@@ -230,33 +248,33 @@ class FSspecFileSystem(FileSystem):
 
         return cast(
             TextIO,
-            self._fsspec.open(self.get_short_uri(path), mode_str, encoding="utf-8"),
+            self._fsspec.open(self._get_fs_path(path), mode_str, encoding="utf-8"),
         )
 
     @override
     def cat(self, path: Path) -> bytes:
-        return cast(bytes, self._fsspec.cat(self.get_short_uri(path)))
+        return cast(bytes, self._fsspec.cat(self._get_fs_path(path)))
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
         self._fsspec.mv(
-            self.get_short_uri(old_path), self.get_short_uri(new_path), recursive=True
+            self._get_fs_path(old_path), self._get_fs_path(new_path), recursive=True
         )
 
     @override
     def remove(self, path: Path) -> None:
         # only one file !
-        self._fsspec.rm(self.get_short_uri(path), recursive=False)
+        self._fsspec.rm(self._get_fs_path(path), recursive=False)
 
     @override
     def make_directory(self, path: Path) -> None:
-        self._fsspec.makedirs(self.get_short_uri(path), exist_ok=True)
+        self._fsspec.makedirs(self._get_fs_path(path), exist_ok=True)
 
     @override
     def copy_directory(self, source_path: Path, target_path: Path) -> None:
         self._fsspec.copy(
-            self.get_short_uri(source_path),
-            self.get_short_uri(target_path),
+            self._get_fs_path(source_path),
+            self._get_fs_path(target_path),
             recursive=True,
         )
 
@@ -265,9 +283,8 @@ class FSspecFileSystem(FileSystem):
         """Copy a local file or directory to this filesystem."""
         if self.is_local:
             # For local filesystem, just use copy_directory
-            remote_path_obj = (
-                Path(remote_path) if isinstance(remote_path, str) else remote_path
-            )
+            remote_path_obj = Path(self._get_fs_path(remote_path))
+
             if local_path.is_dir():
                 copytree(local_path, remote_path_obj, dirs_exist_ok=True)
             else:
@@ -291,18 +308,18 @@ class FSspecFileSystem(FileSystem):
     def remove_directory(self, path: Path) -> None:
         # For S3/remote filesystems, rmdir only removes empty directories
         # Use rm with recursive=True to delete directory and all contents
-        self._fsspec.rm(self.get_short_uri(path), recursive=True)
+        self._fsspec.rm(self._get_fs_path(path), recursive=True)
 
     @override
     def glob(self, path: Path, pattern: str) -> Iterator[Path]:
-        paths = self._fsspec.glob(self.get_short_uri(path.joinpath(pattern)))
+        paths = self._fsspec.glob(self._get_fs_path(path.joinpath(pattern)))
         return iter([Path(self.get_long_uri(p)) for p in paths])  # type: ignore
 
     @override
     def walk_directory(
         self, path: Path, *, on_error: Callable[[OSError], None] | None
     ) -> Iterator[tuple[str, Sequence[str]]]:
-        results = self._fsspec.walk(self.get_short_uri(path), on_error=on_error)  # type: ignore
+        results = self._fsspec.walk(self._get_fs_path(path), on_error=on_error)  # type: ignore
         for dir_pathname, _, filenames in results:
             yield self.get_long_uri(dir_pathname), self.get_long_uri(filenames)  # type: ignore
 
@@ -310,8 +327,8 @@ class FSspecFileSystem(FileSystem):
     @contextmanager
     def tmp_directory(self, base_dir: Path) -> Iterator[Path]:
         if self.is_local:
-            with TemporaryDirectory(dir=base_dir) as dirname:
-                yield Path(dirname)
+            with TemporaryDirectory(dir=self._get_fs_path(base_dir)) as dirname:
+                yield Path(self.get_long_uri(dirname))  # type: ignore[arg-type]
         else:
             import uuid
 
@@ -321,14 +338,14 @@ class FSspecFileSystem(FileSystem):
                 yield tmp_path
             finally:
                 try:
-                    self._fsspec.rm(self.get_short_uri(tmp_path), recursive=True)
+                    self._fsspec.rm(self._get_fs_path(tmp_path), recursive=True)
                 except Exception:
                     pass
 
     @override
     def resolve(self, path: Path) -> Path:
         if self.is_local:
-            return path.expanduser().resolve()
+            return Path(self._get_fs_path(path)).expanduser().resolve()
         # For remote filesystems (e.g., S3), just return the path as-is
         # since there's no concept of user expansion or symlink resolution
         return path
-- 
2.43.0


From 8a5f44ada5917e63604e8a8875120425f3017c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 56/97] fix: read and glob paths with special characters as
 they are

---
 src/fairseq2/file_system.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index d335bb7..b132575 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -12,6 +12,7 @@ from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
 from errno import ENOENT
+from glob import escape as glob_escape
 from os import scandir, strerror
 from pathlib import Path
 from shutil import copytree, rmtree
@@ -253,7 +254,7 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def cat(self, path: Path) -> bytes:
-        return cast(bytes, self._fsspec.cat(self._get_fs_path(path)))
+        return cast(bytes, self._fsspec.cat_file(self._get_fs_path(path)))
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
@@ -312,7 +313,11 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def glob(self, path: Path, pattern: str) -> Iterator[Path]:
-        paths = self._fsspec.glob(self._get_fs_path(path.joinpath(pattern)))
+        # Only `pattern` is a pattern, `path` might contain special characters.
+        fs_path = glob_escape(self._get_fs_path(path)).rstrip("/")
+
+        paths = self._fsspec.glob(f"{fs_path}/{pattern}")
+
         return iter([Path(self.get_long_uri(p)) for p in paths])  # type: ignore
 
     @override
-- 
2.43.0


From 75f6c23f25ac2d38f9af6bfe217d681ef84a989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 57/97] fix: let a local move replace its target or fail, as
 documented

---
 src/fairseq2/file_system.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index b132575..3a5e91f 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -11,7 +11,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
-from errno import ENOENT
+from errno import ENOENT, EXDEV
 from glob import escape as glob_escape
 from os import scandir, strerror
 from pathlib import Path
@@ -258,9 +258,20 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
-        self._fsspec.mv(
-            self._get_fs_path(old_path), self._get_fs_path(new_path), recursive=True
-        )
+        old_fs_path = self._get_fs_path(old_path)
+        new_fs_path = self._get_fs_path(new_path)
+
+        if self.is_local:
+            # `mv` would move into `new_path` if it is an existing directory.
+            try:
+                os.replace(old_fs_path, new_fs_path)
+            except OSError as ex:
+                if ex.errno != EXDEV:
+                    raise
+            else:
+                return
+
+        self._fsspec.mv(old_fs_path, new_fs_path, recursive=True)
 
     @override
     def remove(self, path: Path) -> None:
-- 
2.43.0


From 80b275f12c28abb21f6841f5fdba4d80f6a863ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 58/97] fix: report the removal of a directory as a file as an
 OSError

---
 src/fairseq2/file_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 3a5e91f..3c97fcb 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -276,7 +276,7 @@ class FSspecFileSystem(FileSystem):
     @override
     def remove(self, path: Path) -> None:
         # only one file !
-        self._fsspec.rm(self._get_fs_path(path), recursive=False)
+        self._fsspec.rm_file(self._get_fs_path(path))
 
     @override
     def make_directory(self, path: Path) -> None:
-- 
2.43.0


From c04234cfc457f8718bcfdea0a0d7b9e788852d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 59/97] fix: do not remove files as directories

---
 src/fairseq2/file_system.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 3c97fcb..6b23ea9 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -11,7 +11,7 @@ from abc import ABC, abstractmethod
 from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
-from errno import ENOENT, EXDEV
+from errno import ENOENT, ENOTDIR, EXDEV
 from glob import escape as glob_escape
 from os import scandir, strerror
 from pathlib import Path
@@ -320,7 +320,12 @@ class FSspecFileSystem(FileSystem):
     def remove_directory(self, path: Path) -> None:
         # For S3/remote filesystems, rmdir only removes empty directories
         # Use rm with recursive=True to delete directory and all contents
-        self._fsspec.rm(self._get_fs_path(path), recursive=True)
+        fs_path = self._get_fs_path(path)
+
+        if self._fsspec.isfile(fs_path):
+            raise NotADirectoryError(ENOTDIR, strerror(ENOTDIR), path)
+
+        self._fsspec.rm(fs_path, recursive=True)
 
     @override
     def glob(self, path: Path, pattern: str) -> Iterator[Path]:
-- 
2.43.0


From 11e68c90109c375923bc1005e56f4fb8f50c30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 60/97] fix: copy the content of a directory instead of nesting
 it in an existing one

---
 src/fairseq2/file_system.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 6b23ea9..de44b25 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -284,11 +284,17 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def copy_directory(self, source_path: Path, target_path: Path) -> None:
-        self._fsspec.copy(
-            self._get_fs_path(source_path),
-            self._get_fs_path(target_path),
-            recursive=True,
-        )
+        source_fs_path = self._get_fs_path(source_path)
+        target_fs_path = self._get_fs_path(target_path)
+
+        if self.is_local:
+            copytree(source_fs_path, target_fs_path, dirs_exist_ok=True)
+        else:
+            # Without a trailing slash, `copy` would copy into `target_path` if
+            # it is an existing directory.
+            self._fsspec.copy(
+                source_fs_path.rstrip("/") + "/", target_fs_path, recursive=True
+            )
 
     @override
     def copy_from_local(self, local_path: Path, remote_path: Path | str) -> None:
-- 
2.43.0


From 8aac51ad87f46896351c4ab078a519fc5da79057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 61/97] fix: return plain file names from walk_directory

---
 src/fairseq2/file_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index de44b25..7967a5f 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -348,7 +348,7 @@ class FSspecFileSystem(FileSystem):
     ) -> Iterator[tuple[str, Sequence[str]]]:
         results = self._fsspec.walk(self._get_fs_path(path), on_error=on_error)  # type: ignore
         for dir_pathname, _, filenames in results:
-            yield self.get_long_uri(dir_pathname), self.get_long_uri(filenames)  # type: ignore
+            yield self.get_long_uri(dir_pathname), filenames  # type: ignore
 
     @override
     @contextmanager
-- 
2.43.0


From 5885cfcfb0862db55726eb85ec099eaa752c41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 62/97] fix: keep a value that is of a union element as it is

---
 src/fairseq2/utils/structured.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 95bf7f9..241f4c0 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -468,14 +468,18 @@ class StandardValueConverter(ValueConverter):
     def _structure_union(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> object:
-        is_optional = len(type_args) == 2 and NoneType in type_args
+        # Do not convert a value that is already of one of the union elements.
+        for target_type in type_args:
+            if self._is_value_of(obj, target_type):
+                return obj
 
-        if is_optional and obj is None:
-            return obj
+        target_types = [t for t in type_args if t is not NoneType]
+
+        is_optional = len(type_args) == 2 and len(target_types) == 1
 
         errors = []
 
-        for target_type in type_args:
+        for target_type in target_types:
             try:
                 return self.structure(obj, target_type)
             except StructureError as ex:
@@ -500,6 +504,21 @@ class StandardValueConverter(ValueConverter):
             f"Value must be parseable as one of union elements {s}, but is {obj} instead.\n\n{e}"
         )
 
+    @staticmethod
+    def _is_value_of(obj: object, target_type: object) -> bool:
+        origin_type = get_origin(target_type)
+
+        if origin_type is Literal:
+            return isinstance(obj, str) and obj in get_args(target_type)
+
+        if origin_type is not None or not isinstance(target_type, type):
+            return False
+
+        if target_type is int:
+            return isinstance(obj, int) and not isinstance(obj, bool)
+
+        return target_type is not object and isinstance(obj, target_type)
+
     @override
     def unstructure(self, obj: object) -> object:
         kls = type(obj)
-- 
2.43.0


From bb47a47804bcd14dd9141936e5155da44d155b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 63/97] fix: accept Any in typed configurations

---
 src/fairseq2/utils/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 241f4c0..63bda5e 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -109,7 +109,7 @@ class StandardValueConverter(ValueConverter):
         if origin_type is None:
             origin_type = target_type
 
-        if origin_type is object:
+        if origin_type is object or origin_type is Any:
             return obj
 
         lookup_type = origin_type
-- 
2.43.0


From de4d3e9920142c83bb1f0c7a8da5a538f2dee2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 64/97] fix: refuse to cut the fraction of a float off for an
 integer setting

---
 src/fairseq2/utils/structured.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 63bda5e..c35a554 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -143,9 +143,12 @@ class StandardValueConverter(ValueConverter):
         if isinstance(obj, kls):
             return obj
 
+        if kls is int and isinstance(obj, float) and not obj.is_integer():
+            raise StructureError(f"`obj` must be a whole number, but is {obj} instead.")
+
         try:
             return kls(obj)
-        except (TypeError, ValueError) as ex:
+        except (TypeError, ValueError, OverflowError) as ex:
             raise StructureError(f"`obj` cannot be parsed as `{kls}`.") from ex
 
     def _structure_identity(
-- 
2.43.0


From 97368e3e366906d2a84530e97094353f75da5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 65/97] fix: refuse mappings whose keys become equal when
 structured

---
 src/fairseq2/utils/structured.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index c35a554..a18d25a 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -249,6 +249,9 @@ class StandardValueConverter(ValueConverter):
                 except StructureError as ex:
                     raise StructureError(f"{k} key cannot be structured.") from ex
 
+                if k in output:
+                    raise StructureError(f"Value must not contain the {k} key twice.")
+
                 try:
                     v = self.structure(v, type_args[1])
                 except StructureError as ex:
-- 
2.43.0


From 095c6f0fe075de80a7487e6b58ac75ce2b268f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 66/97] fix: do not take a string apart for a list or tuple
 setting

---
 src/fairseq2/utils/structured.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index a18d25a..d5f088e 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -331,7 +331,8 @@ class StandardValueConverter(ValueConverter):
     def _structure_list(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> list[object]:
-        if isinstance(obj, Sequence):
+        # A string is a sequence of its characters only as far as Python goes.
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             if len(type_args) != 1:
                 raise ValueError(
                     f"`target_type` must have an element type expression for `{origin_type}`."
@@ -435,7 +436,7 @@ class StandardValueConverter(ValueConverter):
     def _structure_tuple(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> tuple[object, ...]:
-        if isinstance(obj, Sequence):
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             num_args = len(type_args)
 
             if num_args == 0:
-- 
2.43.0


From 51b89000326f8df9653b7fb6c66af1103558083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 67/97] fix: refuse strings for sets, and sets whose elements
 become equal when structured

---
 src/fairseq2/utils/structured.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index d5f088e..d3a434c 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -396,13 +396,18 @@ class StandardValueConverter(ValueConverter):
                 )
 
             try:
-                return {self.structure(e, type_args[0]) for e in obj}
+                output = {self.structure(e, type_args[0]) for e in obj}
             except StructureError as ex:
                 raise StructureError(
                     "One of the set elements cannot be structured."
                 ) from ex
 
-        if isinstance(obj, Sequence):
+            if len(output) != len(obj):
+                raise StructureError("All elements in the set must stay unique.")
+
+            return output
+
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             if len(type_args) != 1:
                 raise ValueError(
                     f"`target_type` must have an element type expression for `{origin_type}`."
-- 
2.43.0


From 95c6a11115b7a0968cc08240932bb597aa355bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 68/97] fix: write sets in the same order in every process

---
 src/fairseq2/utils/structured.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index d3a434c..713ba46 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -630,4 +630,9 @@ class StandardValueConverter(ValueConverter):
     def _unstructure_set(self, obj: object) -> list[object]:
         s = cast(set[object], obj)
 
-        return [self.unstructure(e) for e in s]
+        output = [self.unstructure(e) for e in s]
+
+        # The iteration order of a set can differ from process to process.
+        output.sort(key=repr)
+
+        return output
-- 
2.43.0


From 2f067559b527b576a3de8eb347e73c4022de880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 69/97] fix: refuse a lone closing brace in a sweep format

---
 src/fairseq2/recipe/internal/sweep_tag.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/recipe/internal/sweep_tag.py b/src/fairseq2/recipe/internal/sweep_tag.py
index b062544..21d51d2 100644
--- a/src/fairseq2/recipe/internal/sweep_tag.py
+++ b/src/fairseq2/recipe/internal/sweep_tag.py
@@ -193,12 +193,12 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
                     else:
                         placeholder.append(c)
                 case State.CLOSING_BRACE:
-                    state = State.LITERAL
+                    if c != "}":
+                        break
 
-                    if c == "}":  # escape
-                        output.append("}")
-                    else:
-                        output.append(c)
+                    state = State.LITERAL  # escape
+
+                    output.append("}")
 
         if state != State.LITERAL:
             msg = "`sweep_format` must have matching opening and closing braces."
-- 
2.43.0


From 63f9faa0250700d015315111586f624aacc33e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 70/97] fix: compute the hash of a sweep tag from the whole
 configuration

---
 src/fairseq2/recipe/internal/sweep_tag.py | 34 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/fairseq2/recipe/internal/sweep_tag.py b/src/fairseq2/recipe/internal/sweep_tag.py
index 21d51d2..e520467 100644
--- a/src/fairseq2/recipe/internal/sweep_tag.py
+++ b/src/fairseq2/recipe/internal/sweep_tag.py
@@ -64,15 +64,21 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
         tags = {"world_size": f"{self._world_info.size}"}
 
-        self._collect_tags(unstructured_config, tags, path="")
+        # Tags leave out characters that do not belong in a file name, the hash
+        # must not.
+        values = dict(tags)
 
-        tags["hash"] = self._generate_hash(tags)
+        self._collect_tags(unstructured_config, tags, values, path="")
+
+        tags["hash"] = self._generate_hash(values)
 
         return self._safe_format(sweep_format, tags)
 
-    def _collect_tags(self, obj: object, tags: dict[str, str], path: str) -> None:
+    def _collect_tags(
+        self, obj: object, tags: dict[str, str], values: dict[str, str], path: str
+    ) -> None:
         if obj is None:
-            tags[path] = "none"
+            tags[path] = values[path] = "none"
 
             return
 
@@ -84,28 +90,36 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
             tags[path] = tag
 
+            values[path] = obj
+
             return
 
         if isinstance(obj, bool):
-            tags[path] = "t" if obj else "f"
+            tags[path] = values[path] = "t" if obj else "f"
 
             return
 
         if isinstance(obj, int | float):
-            tags[path] = f"{obj}"
+            tags[path] = values[path] = f"{obj}"
 
             return
 
         if isinstance(obj, list):
+            if not obj:
+                values[path] = "[]"
+
             for idx, elem in enumerate(obj):
-                self._collect_tags(elem, tags, path=f"{path}[{idx}]")
+                self._collect_tags(elem, tags, values, path=f"{path}[{idx}]")
 
             return
 
         if isinstance(obj, dict):
+            if not obj:
+                values[path] = "{}"
+
             for key, value in obj.items():
                 self._collect_tags(
-                    value, tags, path=f"{path}.{key}" if path else f"{key}"
+                    value, tags, values, path=f"{path}.{key}" if path else f"{key}"
                 )
 
             return
@@ -127,10 +141,10 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
         return h[:8]
 
     @staticmethod
-    def _generate_hash(tags: dict[str, str]) -> str:
+    def _generate_hash(values: dict[str, str]) -> str:
         algo = sha1()
 
-        for k, v in sorted(tags.items()):
+        for k, v in sorted(values.items()):
             algo.update(k.encode("utf-8"))
             algo.update(v.encode("utf-8"))
 
-- 
2.43.0


From c69527101bb3141b4f60c3518ea301730e127016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 71/97] fix: export LLaMA rotary parameters where Transformers
 reads them

---
 src/fairseq2/models/llama/interop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index b47048f..949646a 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -137,6 +137,7 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
 
         if config.use_scaled_rope:
             rope_scale = {
+                "rope_theta": config.rope_theta,
                 "factor": config.rope_scale.factor,
                 "low_freq_factor": config.rope_scale.frequency_factors[0],
                 "high_freq_factor": config.rope_scale.frequency_factors[1],
@@ -144,7 +145,7 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
                 "rope_type": "llama3",
             }
         else:
-            rope_scale = None
+            rope_scale = {"rope_theta": config.rope_theta, "rope_type": "default"}
 
         if config.vocab_size == 32_000:  # LLaMA 1 and 2
             bos_idx = 1
@@ -165,7 +166,6 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
             "num_key_value_heads": config.num_key_value_heads,
             "rms_norm_eps": 1e-5,
             "rope_scaling": rope_scale,
-            "rope_theta": config.rope_theta,
             "tie_word_embeddings": config.tied_embeddings,
             "vocab_size": config.vocab_size,
             "head_dim": config.model_dim // config.num_attn_heads,
-- 
2.43.0


From ef24119ad91592f8530caa1e0ff8f947d4bc7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 72/97] fix: export the feed-forward size of LLaMA models as
 the factory computes it

---
 src/fairseq2/models/llama/interop.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index 949646a..ffbebf2 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -129,11 +129,18 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
     def to_hg_config(self, config: object) -> HuggingFaceConfig:
         config = cast_config_type(config, LLaMAConfig)
 
-        multiplier = config.ffn_inner_dim_multiplier
+        # Mirrors how the model factory sizes the feed-forward networks.
+        intermediate_size = int(config.ffn_inner_dim * config.ffn_inner_dim_multiplier)
+
+        if config.ffn_inner_dim_scale != 1.0:
+            intermediate_size = int(intermediate_size * config.ffn_inner_dim_scale)
 
         multiple_of = config.ffn_inner_dim_multiple_of
 
-        intermediate_size = multiple_of * ((int(multiplier * int(8 * config.model_dim / 3)) + multiple_of - 1) // multiple_of)  # fmt: skip
+        if multiple_of != 1:
+            intermediate_size = multiple_of * ((intermediate_size + multiple_of - 1) // multiple_of)  # fmt: skip
+
+        rope_scale: dict[str, object]
 
         if config.use_scaled_rope:
             rope_scale = {
-- 
2.43.0


From bdf47402a71bb5bd7b6f0795a07dc468958c9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 73/97] fix: export Qwen rotary parameters where Transformers
 reads them

---
 src/fairseq2/models/qwen/interop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/qwen/interop.py b/src/fairseq2/models/qwen/interop.py
index 98da6d6..2021ce8 100644
--- a/src/fairseq2/models/qwen/interop.py
+++ b/src/fairseq2/models/qwen/interop.py
@@ -62,7 +62,10 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
             "num_attention_heads": config.num_attn_heads,
             "num_key_value_heads": config.num_key_value_heads,
             "intermediate_size": config.ffn_inner_dim,
-            "rope_theta": config.rope_theta,
+            "rope_scaling": {
+                "rope_theta": config.rope_theta,
+                "rope_type": "default",
+            },
         }
 
         if config.qkv_proj_bias:
-- 
2.43.0


From a58309489b93857499c4bb603a981d24c15ea653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 74/97] fix: export the size of attention heads of Qwen 3
 models

---
 src/fairseq2/models/qwen/interop.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fairseq2/models/qwen/interop.py b/src/fairseq2/models/qwen/interop.py
index 2021ce8..122d262 100644
--- a/src/fairseq2/models/qwen/interop.py
+++ b/src/fairseq2/models/qwen/interop.py
@@ -73,6 +73,13 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
                 data, kls_name="Qwen2Config", arch="Qwen2ForCausalLM"
             )
         else:
+            # Unlike Qwen2Config, Qwen3Config does not derive the size of the
+            # attention heads.
+            if config.head_dim is not None:
+                data["head_dim"] = config.head_dim
+            else:
+                data["head_dim"] = config.model_dim // config.num_attn_heads
+
             return HuggingFaceConfig(
                 data, kls_name="Qwen3Config", arch="Qwen3ForCausalLM"
             )
-- 
2.43.0


From b65d807020831b8b1897276421b2b4fa3dd0ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 75/97] fix: derive dependent attributes of exported Hugging
 Face configurations

---
 src/fairseq2/models/hg/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/hg/converter.py b/src/fairseq2/models/hg/converter.py
index e0ee5c5..f73af56 100644
--- a/src/fairseq2/models/hg/converter.py
+++ b/src/fairseq2/models/hg/converter.py
@@ -173,13 +173,15 @@ def save_hugging_face_model(
 
     native_config = config_kls()
 
-    for key, value in config.data.items():
+    for key in config.data:
         if not hasattr(native_config, key):
             raise ValueError(
                 f"`transformers.{config.kls_name}` does not have an attribute named {key}."
             )
 
-        setattr(native_config, key, value)
+    # Attributes that are derived from others (e.g. the layer types) are only
+    # determined at construction.
+    native_config = config_kls(**config.data)
 
     arch = config.arch
 
-- 
2.43.0


From f51f5e1e488b101b9efeb20bb99baf42e207ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 76/97] fix: export rotary parameters of configurations that
 hold them per layer type

---
 src/fairseq2/models/hg/converter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/hg/converter.py b/src/fairseq2/models/hg/converter.py
index f73af56..9505981 100644
--- a/src/fairseq2/models/hg/converter.py
+++ b/src/fairseq2/models/hg/converter.py
@@ -179,9 +179,20 @@ def save_hugging_face_model(
                 f"`transformers.{config.kls_name}` does not have an attribute named {key}."
             )
 
+    data = dict(config.data)
+
+    # Some configurations hold the rotary encoding parameters per layer type.
+    rope_parameters = getattr(native_config, "rope_parameters", None)
+
+    if rope_parameters and all(isinstance(p, dict) for p in rope_parameters.values()):
+        rope_scaling = data.pop("rope_scaling", None)
+
+        if isinstance(rope_scaling, Mapping):
+            data["rope_parameters"] = {k: dict(rope_scaling) for k in rope_parameters}
+
     # Attributes that are derived from others (e.g. the layer types) are only
     # determined at construction.
-    native_config = config_kls(**config.data)
+    native_config = config_kls(**data)
 
     arch = config.arch
 
-- 
2.43.0


From 9ae0f5695beb98cc3a780dd4352dbccc8682a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 77/97] fix: export YaRN attention scaling of OLMo models

---
 src/fairseq2/models/olmo/interop.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fairseq2/models/olmo/interop.py b/src/fairseq2/models/olmo/interop.py
index 2031525..eafce9c 100644
--- a/src/fairseq2/models/olmo/interop.py
+++ b/src/fairseq2/models/olmo/interop.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+import math
 from typing import Final, final
 
 from typing_extensions import override
@@ -117,8 +118,16 @@ class _OLMOHuggingFaceConverter(HuggingFaceConverter):
                     "beta_slow": yarn.beta_slow,
                     "mscale": yarn.mscale,
                     "mscale_all_dim": yarn.mscale_all_dim,
+                    "truncate": yarn.truncate,
                 }
 
+                # Transformers ignores `mscale` unless `mscale_all_dim` is also
+                # set, while fairseq2 scales the attention by it in any case.
+                if yarn.mscale and not yarn.mscale_all_dim and yarn.scale_factor > 1:
+                    rope_scaling["attention_factor"] = (
+                        0.1 * yarn.mscale * math.log(yarn.scale_factor) + 1.0
+                    )
+
             data["rope_scaling"] = rope_scaling
             data["sliding_window"] = config.sliding_window
 
-- 
2.43.0


From 8f43ace378da2da6f55880f72401d7af1ba33bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 78/97] fix: export trained scales of Gemma 3n models

---
 src/fairseq2/models/gemma3n/interop.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index 07800a6..71c3ec6 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -36,9 +36,7 @@ _HG_KEY_MAP: Final = {
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.q_proj\.": r"audio_tower.encoder.layers.\1.self_attn.q_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.k_proj\.": r"audio_tower.encoder.layers.\1.self_attn.k_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.v_proj\.": r"audio_tower.encoder.layers.\1.self_attn.v_proj.",
-    # per_dim_scale: fs2 uses learned per-dim scaling; HF does not.
-    # Kept in key map for loading; filtered out during export in _convert_to_hg_state_dict.
-    r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.per_dim_scale$": r"audio_tower.encoder.layers.\1.self_attn.sdpa.per_dim_scale",
+    r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.per_dim_scale": r"audio_tower.encoder.layers.\1.self_attn.sdpa.per_dim_scale",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.relative_position_embedding\.pos_proj\.": r"audio_tower.encoder.layers.\1.self_attn.sdpa.pos_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.post\.": r"audio_tower.encoder.layers.\1.self_attn.output_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.post_norm\.": r"audio_tower.encoder.layers.\1.self_attn_post_norm.",
@@ -92,9 +90,7 @@ _HG_KEY_MAP: Final = {
     r"^model\.language_model\.layers\.([0-9]+)\.laurel\.post_laurel_norm\.":     r"decoder.layers.\1.laurel.post_laurel_norm.",
 
     # Decoder layers - AltUp (per-layer predict/correct)
-    # correct_output_scale: fs2 stores as param; HF derives from config.
-    # Kept in key map for loading; filtered out during export in _convert_to_hg_state_dict.
-    r"^model\.language_model\.layers\.([0-9]+)\.altup\.correct_output_scale$":   r"decoder.layers.\1.altup.correct_output_scale",
+    r"^model\.language_model\.layers\.([0-9]+)\.altup\.correct_output_scale":   r"decoder.layers.\1.altup.correct_output_scale",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.correction_coefs\.":      r"decoder.layers.\1.altup.correction_coefs.",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.prediction_coefs\.":      r"decoder.layers.\1.altup.prediction_coefs.",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.modality_router\.":       r"decoder.layers.\1.altup.modality_router.",
@@ -198,19 +194,6 @@ def _convert_to_hg_state_dict(
 ) -> dict[str, object]:
     state_dict = dict(state_dict)
 
-    # Remove keys that exist in fs2 but not in HF's model
-    _FS2_ONLY_SUFFIXES = (
-        # fs2 learned per-dim scaling; HF uses 1/sqrt(head_dim)
-        ".per_dim_scale",
-        # fs2 stores as param; HF derives from altup_correct_scale config
-        ".correct_output_scale",
-    )
-    state_dict = {
-        k: v
-        for k, v in state_dict.items()
-        if not any(k.endswith(s) for s in _FS2_ONLY_SUFFIXES)
-    }
-
     # Squeeze pointwise conv weights: fs2 Conv1d [N, M, 1] → HF Linear [N, M]
     for key, value in state_dict.items():
         if (
-- 
2.43.0


From 8bd56a46d88cdda6ad30c6a562b7eea263170228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 79/97] fix: export the audio configuration of Gemma 3n models

---
 src/fairseq2/models/gemma3n/interop.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index 71c3ec6..f4a9a95 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+from dataclasses import asdict
 from typing import Final
 
 import torch
@@ -209,7 +210,7 @@ def _convert_to_hg_state_dict(
 
 
 def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
-    from transformers import Gemma3nTextConfig
+    from transformers import Gemma3nAudioConfig, Gemma3nTextConfig
 
     text_config = Gemma3nTextConfig(  # type: ignore[call-arg]
         hidden_size=config.model_dim,
@@ -244,7 +245,9 @@ def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
         },
     )
 
-    return {
-        "model_type": "gemma3n",
-        "text_config": text_config,
-    }
+    data: dict[str, object] = {"model_type": "gemma3n", "text_config": text_config}
+
+    if config.audio_config is not None:
+        data["audio_config"] = Gemma3nAudioConfig(**asdict(config.audio_config))
+
+    return data
-- 
2.43.0


From 1d761748815673f1f5b106f9bcfb1d8e03e15748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 80/97] fix: do not shift targets twice when training Hugging
 Face models, ignore padding

---
 src/fairseq2/models/hg/adapter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fairseq2/models/hg/adapter.py b/src/fairseq2/models/hg/adapter.py
index da81bed..111c5e2 100644
--- a/src/fairseq2/models/hg/adapter.py
+++ b/src/fairseq2/models/hg/adapter.py
@@ -207,17 +207,20 @@ class HgCausalLMAdapter(CausalLM):
 
         # If we have targets, this is a training forward pass
         if targets is not None:
-            # HuggingFace models expect labels for training
+            # HuggingFace models expect labels for training, and ignore those
+            # that are set to -100.
+            labels = targets.masked_fill(attention_mask == 0, -100)
+
             # Apply target_mask if provided
             if target_mask is not None:
-                # Set ignored positions to -100 (HF's ignore index)
-                labels = targets.clone()
                 labels = labels.masked_fill(~target_mask, -100)
-            else:
-                labels = targets
 
             hf_kwargs["labels"] = labels
 
+            # By default, HuggingFace models shift labels by one position. This
+            # is already the case for `targets`, they must be used as they are.
+            hf_kwargs["shift_labels"] = labels
+
             # Forward through HuggingFace model
             outputs = self._hf_model(**hf_kwargs)
 
@@ -226,10 +229,8 @@ class HgCausalLMAdapter(CausalLM):
 
             # HF models return mean loss, need to optionally convert to "sum"
             if reduction == "sum":
-                if target_mask is not None:
-                    num_targets = target_mask.sum()
-                else:
-                    num_targets = (labels != -100).sum()
+                num_targets = (labels != -100).sum()
+
                 loss = loss * num_targets
 
             if return_logits:
-- 
2.43.0


From bf170bf99d4492b51e765532336e100a5e824bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 81/97] fix: keep to the cycles of a cosine schedule whose
 cycles grow or shrink

---
 .../optim/lr_schedulers/cosine_annealing.py   | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index b70444e..cc83bc4 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -113,24 +113,25 @@ class CosineAnnealingLR(AbstractLRScheduler):
             # The position of the step within the cycle.
             cycle_pos = curr_step - (cycle_nr * cycle_len)
 
-        # Otherwise, it becomes a bit trickier. We have to treat the cycles as
-        # a geometric series to find out the number, length, and offset of the
-        # current cycle.
+        # Otherwise, we have to walk through the cycles to find out the number,
+        # length, and offset of the current cycle.
         else:
-            mul = self.cycle_mul
+            cycle_nr, cycle_len, cycle_pos = 0, self.cycle_len, curr_step
 
-            # Solve the equation \sum_{i=0}^{n} len(cycle_i) + x = step for n.
-            cycle_nr = int(math.log(1 - curr_step / self.cycle_len * (1 - mul), mul))
+            while cycle_pos >= cycle_len:
+                # Cycles can not get any shorter.
+                if self.cycle_mul < 1.0 and cycle_len == 1:
+                    cycle_nr += cycle_pos
 
-            cycle_len = int(mul**cycle_nr * self.cycle_len)
+                    cycle_pos = 0
 
-            # Compute the sum of the lengths of the first `cycle_nr` cycles
-            # (i.e. geometric series) which corresponds to the beginning offset
-            # of the current cycle.
-            cycle_offset = int((1 - mul**cycle_nr) / (1 - mul) * self.cycle_len)
+                    break
 
-            # The position of the step within the cycle.
-            cycle_pos = curr_step - cycle_offset
+                cycle_pos -= cycle_len
+
+                cycle_nr += 1
+
+                cycle_len = max(int(self.cycle_mul**cycle_nr * self.cycle_len), 1)
 
         lr_mul = self.lr_mul**cycle_nr
 
-- 
2.43.0


From 4a7850df8260798950d76c5eef65c0514c075c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 82/97] fix: do not scale learning rates that are tensors
 in-place

---
 src/fairseq2/optim/lr_schedulers/cosine_annealing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index cc83bc4..626a71b 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -140,8 +140,9 @@ class CosineAnnealingLR(AbstractLRScheduler):
         min_lrs, max_lrs = self.final_lrs, base_lrs
 
         def cycle_lr(min_lr: float | Tensor, max_lr: float | Tensor) -> float | Tensor:
-            min_lr *= lr_mul
-            max_lr *= lr_mul
+            # Do not update in-place, the learning rates might be tensors.
+            min_lr = min_lr * lr_mul
+            max_lr = max_lr * lr_mul
 
             return min_lr + 0.5 * (max_lr - min_lr) * (1 + c)
 
-- 
2.43.0


From 0c6263c32dc1a31ce94a187d902848a9ad816bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 83/97] fix: decay to a final learning rate of zero in a
 tri-stage schedule

---
 src/fairseq2/optim/lr_schedulers/tri_stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/lr_schedulers/tri_stage.py b/src/fairseq2/optim/lr_schedulers/tri_stage.py
index 16a3732..91cd89f 100644
--- a/src/fairseq2/optim/lr_schedulers/tri_stage.py
+++ b/src/fairseq2/optim/lr_schedulers/tri_stage.py
@@ -112,6 +112,6 @@ class TriStageLR(AbstractLRScheduler):
         if num_steps < self.num_stage_steps[2]:
             c = num_steps / self.num_stage_steps[2]
 
-            return [b * math.exp(math.log(f) * c) for b, f in zip(base_lrs, self.final_lr_scales)]  # fmt: skip
+            return [b * f**c for b, f in zip(base_lrs, self.final_lr_scales)]
 
         return list(self.final_lrs)
-- 
2.43.0


From 07d2e259ee44a55daa411a2bb4036c04328cae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 84/97] fix: do not divide by zero at the end of a training
 that consists of warmup only

---
 src/fairseq2/recipe/internal/lr_schedulers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/recipe/internal/lr_schedulers.py b/src/fairseq2/recipe/internal/lr_schedulers.py
index 7ff3fbe..3f819d5 100644
--- a/src/fairseq2/recipe/internal/lr_schedulers.py
+++ b/src/fairseq2/recipe/internal/lr_schedulers.py
@@ -71,7 +71,9 @@ class _CosineAnnealingLRFactory:
                     f"`regime.num_steps` must be specified when `lr_scheduler` is '{COSINE_ANNEALING_LR}' and `lr_scheduler.config.cycle_len` is not specified."
                 )
 
-            cycle_len = num_steps - config.num_warmup_steps
+            # If the warmup takes up the entire training, there is nothing left
+            # to decay.
+            cycle_len = max(num_steps - config.num_warmup_steps, 1)
         else:
             cycle_len = config.cycle_len
 
-- 
2.43.0


From 9659cb98dadc433100944673a01bc105dfb9dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 85/97] fix: accept integers as learning rates of schedulers

---
 src/fairseq2/optim/lr_schedulers/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/lr_schedulers/lr_scheduler.py b/src/fairseq2/optim/lr_schedulers/lr_scheduler.py
index a776eda..d830a9a 100644
--- a/src/fairseq2/optim/lr_schedulers/lr_scheduler.py
+++ b/src/fairseq2/optim/lr_schedulers/lr_scheduler.py
@@ -50,7 +50,7 @@ def get_per_param_group(
 ) -> Sequence[float | Tensor]:
     num_param_groups = len(optimizer.param_groups)
 
-    if isinstance(value, (float, Tensor)):
+    if isinstance(value, (int, float, Tensor)):
         return [value] * num_param_groups
 
     if len(value) != num_param_groups:
-- 
2.43.0


From 49e54df1e0fd16a1681b39b110896b24085ac3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 86/97] fix: keep an empty parameter group whose pattern is
 that of the fall-back group

---
 src/fairseq2/recipe/optim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/recipe/optim.py b/src/fairseq2/recipe/optim.py
index c7b372c..3523a5d 100644
--- a/src/fairseq2/recipe/optim.py
+++ b/src/fairseq2/recipe/optim.py
@@ -169,7 +169,7 @@ def prepare_parameter_groups(
     for idx, group in enumerate(groups):
         if not group.params:
             # If `True`, means fall-back group.
-            if len(group.name_patterns) == 1 and group.name_patterns[0] == ".*":
+            if idx == len(group_configs):
                 continue
 
             log.warning("Optimizer parameter group {} is empty.", idx)
-- 
2.43.0


From f4ad2d35fa60dc4cff50c9049805cd3da15269ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 87/97] fix: broadcast a persistent buffer that is also
 registered as non-persistent

`broadcast_module()` memoized a skipped non-persistent buffer, so that a later
registration of the same tensor as a persistent buffer was not broadcasted.
---
 src/fairseq2/nn/utils/module.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/nn/utils/module.py b/src/fairseq2/nn/utils/module.py
index 0bfb4d1..9d7aae1 100644
--- a/src/fairseq2/nn/utils/module.py
+++ b/src/fairseq2/nn/utils/module.py
@@ -409,12 +409,12 @@ def broadcast_module(
 
                 warned = True
 
-        for buffer_name, buffer in m.named_buffers(recurse=False):
+        for buffer_name, buffer in m.named_buffers(
+            recurse=False, remove_duplicate=False
+        ):
             if buffer in memo:
                 continue
 
-            memo.add(buffer)
-
             if not non_persistent_buffers:
                 # TODO(balioglu): Surprisingly, PyTorch still does not offer a
                 # public API to check the type of a module buffer. This should
@@ -422,6 +422,10 @@ def broadcast_module(
                 if buffer_name in m._non_persistent_buffers_set:
                     continue
 
+            # A non-persistent buffer can also be registered as a persistent
+            # buffer elsewhere, so mark it only if it is actually broadcasted.
+            memo.add(buffer)
+
             tensors.append(buffer.detach())
 
     collect_tensors(module)
-- 
2.43.0


From 902e797663fbb3a7fd070316871a549048ab7f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 88/97] fix: report unexpected keys of every name of a shared
 module

`load_state_dict()` looked for keys of absent children only under the first
name of a module that is shared.
---
 src/fairseq2/nn/utils/module.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fairseq2/nn/utils/module.py b/src/fairseq2/nn/utils/module.py
index 9d7aae1..12a7f01 100644
--- a/src/fairseq2/nn/utils/module.py
+++ b/src/fairseq2/nn/utils/module.py
@@ -460,15 +460,17 @@ def load_state_dict(
 
     unexpected_keys = []
 
-    for name, m in _get_named_modules(module):
-        if m is not None:
-            continue
+    # A shared module has more than one name in the state dictionary.
+    for name, m in module.named_modules(remove_duplicate=False):
+        for child_name, child in m._modules.items():
+            if child is not None:
+                continue
 
-        prefix = name + "."
+            prefix = f"{name}.{child_name}." if name else f"{child_name}."
 
-        for key in state_dict.keys():
-            if key.startswith(prefix):
-                unexpected_keys.append(key)
+            for key in state_dict.keys():
+                if key.startswith(prefix):
+                    unexpected_keys.append(key)
 
     if unexpected_keys:
         unexpected_keys.sort()
-- 
2.43.0


From fbb1b6810d02e79d1eb841ad523c67bbb3285363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 89/97] fix: respect the options of Hugging Face encoders and
 decoders

---
 src/fairseq2/models/hg/tokenizer.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/fairseq2/models/hg/tokenizer.py b/src/fairseq2/models/hg/tokenizer.py
index 58590b0..217317d 100644
--- a/src/fairseq2/models/hg/tokenizer.py
+++ b/src/fairseq2/models/hg/tokenizer.py
@@ -95,21 +95,31 @@ class HgTokenizer(Tokenizer):
     def create_raw_encoder(
         self, *, device: Device | None = None, pin_memory: bool = False
     ) -> TokenEncoder:
-        if self._encoder is not None:
+        # Only the default encoder can be shared.
+        is_default = device is None and not pin_memory
+
+        if is_default and self._encoder is not None:
             return self._encoder
-        self._encoder = HuggingFaceTokenEncoder(
+        encoder = HuggingFaceTokenEncoder(
             self._model, device=device, pin_memory=pin_memory
         )
-        return self._encoder
+        if is_default:
+            self._encoder = encoder
+        return encoder
 
     @override
     def create_decoder(self, *, skip_special_tokens: bool = False) -> TokenDecoder:
-        if self._decoder is not None:
+        # Only the default decoder can be shared.
+        is_default = not skip_special_tokens
+
+        if is_default and self._decoder is not None:
             return self._decoder
-        self._decoder = HuggingFaceTokenDecoder(
+        decoder = HuggingFaceTokenDecoder(
             self._model, skip_special_tokens=skip_special_tokens
         )
-        return self._decoder
+        if is_default:
+            self._decoder = decoder
+        return decoder
 
     def encode(
         self, text: str, *, device: Device | None = None, pin_memory: bool = False
-- 
2.43.0


From 7b498541816b706d943fc5bd19368e0605a898a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 90/97] fix: do not treat UNK as the index of a special token
 that does not exist

---
 src/fairseq2/data/tokenizers/hg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/data/tokenizers/hg.py b/src/fairseq2/data/tokenizers/hg.py
index 68fd19c..0b8723d 100644
--- a/src/fairseq2/data/tokenizers/hg.py
+++ b/src/fairseq2/data/tokenizers/hg.py
@@ -73,7 +73,13 @@ else:
         for token_type in _TOKEN_TYPES:
             override = token_overrides.get(f"{token_type}_token")
             if override:
-                token_indices[f"{token_type}_idx"] = tok.convert_tokens_to_ids(override)
+                idx = tok.convert_tokens_to_ids(override)
+
+                # `convert_tokens_to_ids()` returns UNK for unknown tokens.
+                if idx == tok.unk_token_id and override != tok.unk_token:
+                    idx = None
+
+                token_indices[f"{token_type}_idx"] = idx
             else:
                 token_indices[f"{token_type}_idx"] = getattr(
                     tok, f"{token_type}_token_id", None
-- 
2.43.0


From 7c8883971f84529aa636ac15286594afe0dfbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 91/97] fix: support tiktoken tokens that hold a part of a
 character

---
 src/fairseq2/data/tokenizers/tiktoken.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/tiktoken.py b/src/fairseq2/data/tokenizers/tiktoken.py
index 05a2888..cd53750 100644
--- a/src/fairseq2/data/tokenizers/tiktoken.py
+++ b/src/fairseq2/data/tokenizers/tiktoken.py
@@ -186,7 +186,8 @@ class TiktokenEncoder(TokenEncoder):
 
         b = self._encoding.decode_tokens_bytes(indices)
 
-        return [e.decode("utf-8") for e in b]
+        # A token might hold only a part of a multi-byte character.
+        return [e.decode("utf-8", errors="surrogateescape") for e in b]
 
     @property
     @override
@@ -224,7 +225,9 @@ class TiktokenDecoder(TokenDecoder):
 
     @override
     def decode_from_tokens(self, tokens: Sequence[str]) -> str:
-        indices = [self._encoding.encode_single_token(t) for t in tokens]
+        b = [t.encode("utf-8", errors="surrogateescape") for t in tokens]
+
+        indices = [self._encoding.encode_single_token(e) for e in b]
 
         if self._skip_special_tokens:
             indices = [i for i in indices if i < self._num_bpe_tokens]
-- 
2.43.0


From 247c6f31c9ce99ae3349870cb9ab1e0565caa177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 92/97] fix: do not load stale tiktoken models

---
 src/fairseq2/data/tokenizers/tiktoken.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/tiktoken.py b/src/fairseq2/data/tokenizers/tiktoken.py
index cd53750..365aee4 100644
--- a/src/fairseq2/data/tokenizers/tiktoken.py
+++ b/src/fairseq2/data/tokenizers/tiktoken.py
@@ -6,13 +6,13 @@
 
 from __future__ import annotations
 
+from base64 import b64decode
 from collections.abc import Sequence
 from pathlib import Path
 from typing import final
 
 import torch
 from tiktoken import Encoding
-from tiktoken.load import load_tiktoken_bpe
 from torch import Tensor
 from typing_extensions import override
 
@@ -47,8 +47,8 @@ def load_tiktoken_model(
     :param special_tokens: The special tokens to include in the tokenizer.
     """
     try:
-        tokens = load_tiktoken_bpe(str(path))
-    except RuntimeError as ex:
+        tokens = _load_bpe_tokens(path)
+    except ValueError as ex:
         msg = f"{path} is not a valid tiktoken model."
 
         raise TokenizerModelError(path, msg) from ex
@@ -88,6 +88,22 @@ def load_tiktoken_model(
     return TiktokenModel(encoding, num_tokens, vocab_info)
 
 
+def _load_bpe_tokens(path: Path) -> dict[bytes, int]:
+    # `tiktoken.load.load_tiktoken_bpe()` caches the contents of files, including
+    # local ones, by name. If `path` gets updated, it would return stale tokens.
+    tokens = {}
+
+    for line in path.read_bytes().splitlines():
+        if not line:
+            continue
+
+        token, rank = line.split()
+
+        tokens[b64decode(token, validate=True)] = int(rank)
+
+    return tokens
+
+
 @final
 class TiktokenModel:
     def __init__(
-- 
2.43.0


From dd40d4c2a09d995ea55a9cee1e1d976e654ded0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 93/97] fix: report erroneous Hugging Face tokenizers as such

---
 src/fairseq2/data/tokenizers/hg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/data/tokenizers/hg.py b/src/fairseq2/data/tokenizers/hg.py
index 0b8723d..ed7bc27 100644
--- a/src/fairseq2/data/tokenizers/hg.py
+++ b/src/fairseq2/data/tokenizers/hg.py
@@ -62,7 +62,7 @@ else:
     ) -> HuggingFaceTokenModel:
         try:
             tok = AutoTokenizer.from_pretrained(path)
-        except RuntimeError as ex:
+        except (RuntimeError, ValueError) as ex:
             msg = f"{path} is not a valid Hugging Face tokenizer model."
 
             raise TokenizerModelError(path, msg) from ex
-- 
2.43.0


From e9864017bc347831dbb135425946eb8e24800a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 94/97] fix: do not hang on circular tokenizer references

---
 src/fairseq2/data/tokenizers/ref.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fairseq2/data/tokenizers/ref.py b/src/fairseq2/data/tokenizers/ref.py
index 0252cfe..d49d81b 100644
--- a/src/fairseq2/data/tokenizers/ref.py
+++ b/src/fairseq2/data/tokenizers/ref.py
@@ -12,6 +12,8 @@ from fairseq2.assets import AssetCard, AssetCardError, AssetStore
 def resolve_tokenizer_reference(asset_store: AssetStore, card: AssetCard) -> AssetCard:
     name = card.name
 
+    ref_names = {name}
+
     while True:
         ref_field = card.maybe_get_field("tokenizer_ref")
         if ref_field is None:
@@ -25,6 +27,13 @@ def resolve_tokenizer_reference(asset_store: AssetStore, card: AssetCard) -> Ass
 
             raise AssetCardError(name, msg)
 
+        if ref_name in ref_names:
+            msg = f"{name} asset card has a circular tokenizer reference."
+
+            raise AssetCardError(name, msg)
+
+        ref_names.add(ref_name)
+
         card = ref_card
 
     return card
-- 
2.43.0


From 2ba0862f675f5602f9afc12623803c279a11b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 95/97] fix: accept parts of assets that are reached via a
 symbolic link

---
 src/fairseq2/data/tokenizers/family.py | 5 ++++-
 src/fairseq2/models/family.py          | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/family.py b/src/fairseq2/data/tokenizers/family.py
index 087fc28..efc965d 100644
--- a/src/fairseq2/data/tokenizers/family.py
+++ b/src/fairseq2/data/tokenizers/family.py
@@ -258,10 +258,13 @@ class StandardTokenizerFamily(TokenizerFamily):
 
             try:
                 path = self._file_system.resolve(path)
+
+                # The download directory might be reached via a symbolic link.
+                base_path = self._file_system.resolve(cached_path)
             except OSError as ex:
                 raise_operational_system_error(ex)
 
-            if not path.is_relative_to(cached_path):
+            if not path.is_relative_to(base_path):
                 msg = f"tokenizer_path field of the {name} asset card points to a path that is not relative to the download directory."
 
                 raise AssetCardError(name, msg)
diff --git a/src/fairseq2/models/family.py b/src/fairseq2/models/family.py
index 922889c..df9012f 100644
--- a/src/fairseq2/models/family.py
+++ b/src/fairseq2/models/family.py
@@ -489,10 +489,13 @@ class StandardModelFamily(ModelFamily):
 
             try:
                 path = self._file_system.resolve(path)
+
+                # The download directory might be reached via a symbolic link.
+                base_path = self._file_system.resolve(cached_path)
             except OSError as ex:
                 raise_operational_system_error(ex)
 
-            if not path.is_relative_to(cached_path):
+            if not path.is_relative_to(base_path):
                 msg = f"checkpoint_path field of the {name} asset card points to a path that is not relative to the download directory."
 
                 raise AssetCardError(name, msg)
-- 
2.43.0


From cc22fb5bf2aa2b7df2f263aafb8a7d8eae988d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 96/97] fix: do not overwrite a sinusoidal frequency table
 whose last part is truncated

---
 src/fairseq2/nn/position_encoder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/nn/position_encoder.py b/src/fairseq2/nn/position_encoder.py
index 9ea280c..c26618f 100644
--- a/src/fairseq2/nn/position_encoder.py
+++ b/src/fairseq2/nn/position_encoder.py
@@ -204,13 +204,14 @@ def _fill_sin_freq_table(
     freqs = torch.exp(indices * -math.log(10000.0) / (num_sin - correction))
 
     # (S) x (E) -> (S, E)
-    torch.outer(steps, freqs, out=l_half)
+    table = torch.outer(steps, freqs)
 
-    # The cosine frequencies might be truncated if the table is shorter than the
+    # The frequencies might be truncated if the table is shorter than the
     # encoding dimension due to rounding.
-    r_dim = r_half.size(1)
+    l_dim, r_dim = l_half.size(1), r_half.size(1)
 
-    r_half.copy_(l_half[:, :r_dim])
+    l_half.copy_(table[:, :l_dim])
+    r_half.copy_(table[:, :r_dim])
 
     l_half.sin_()
     r_half.cos_()
-- 
2.43.0


From eeb9270d72303ec59abb4d547d846e58e0113b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 97/97] fix: interpolate positions to exactly the size of the
 input

---
 src/fairseq2/nn/position_encoder.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/fairseq2/nn/position_encoder.py b/src/fairseq2/nn/position_encoder.py
index c26618f..b98d97d 100644
--- a/src/fairseq2/nn/position_encoder.py
+++ b/src/fairseq2/nn/position_encoder.py
@@ -786,11 +786,8 @@ class Sinusoidal2dPositionEncoder(SinusoidalNdPositionEncoder):
         if frq_dims == inp_dims:
             return freqs
 
-        frq_h, frq_w = frq_dims
         inp_h, inp_w = inp_dims
 
-        scale_factor = math.sqrt((inp_h * inp_w) / (frq_h * frq_w))
-
         # (H_frq, W_frq, E) -> (1, H_frq, W_frq, E)
         freqs = freqs.unsqueeze(0)
 
@@ -798,7 +795,7 @@ class Sinusoidal2dPositionEncoder(SinusoidalNdPositionEncoder):
         freqs = freqs.permute(0, 3, 1, 2)
 
         # (1, E, H_frq, W_frq) -> (1, E, H_inp, W_inp)
-        freqs = interpolate(freqs, scale_factor=scale_factor, mode="bicubic")
+        freqs = interpolate(freqs, size=(inp_h, inp_w), mode="bicubic")
 
         # (1, E, H_inp, W_inp) -> (1, H_inp, W_inp, E)
         freqs = freqs.permute(0, 2, 3, 1)
@@ -905,11 +902,8 @@ class Sinusoidal3dPositionEncoder(SinusoidalNdPositionEncoder):
         if frq_dims == inp_dims:
             return freqs
 
-        frq_d, frq_h, frq_w = frq_dims
         inp_d, inp_h, inp_w = inp_dims
 
-        scale_factor = (inp_d / frq_d, inp_h / frq_h, inp_w / frq_w)
-
         # (D_frq, H_frq, W_frq, E) -> (1, D_frq, H_frq, W_frq, E)
         freqs = freqs.unsqueeze(0)
 
@@ -917,7 +911,7 @@ class Sinusoidal3dPositionEncoder(SinusoidalNdPositionEncoder):
         freqs = freqs.permute(0, 4, 1, 2, 3)
 
         # (1, E, D_frq, H_frq, W_frq) -> (1, E, D_inp, H_inp, W_inp)
-        freqs = interpolate(freqs, scale_factor=scale_factor, mode="trilinear")
+        freqs = interpolate(freqs, size=(inp_d, inp_h, inp_w), mode="trilinear")
 
         # (1, E, D_inp, H_inp, W_inp) -> (1, D_inp, H_inp, W_inp, E)
         freqs = freqs.permute(0, 2, 3, 4, 1)
-- 
2.43.0

