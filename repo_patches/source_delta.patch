From 7622bc899250a91374625a6fda14002af5e2c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:03 +0000
Subject: [PATCH 01/81] fix: sort_bin_shuffle with empty bins (num_seqs < bins)
 returned a float seq order

---
 returnn/datasets/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 798ef00..13ba573 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -604,7 +604,8 @@ class Dataset:
                 if seq_ordering_method.startswith("sort_bin_shuffle_x2"):
                     random_generator.shuffle(part)  # Shuffle within the bin.
                 out_index.append(part)
-            seq_index = numpy.concatenate(out_index)
+            # Explicit dtype, as numpy.concatenate would result in float if there is an empty bin (num_seqs < bins).
+            seq_index = numpy.array([i for part in out_index for i in part], dtype="int64")
         elif seq_ordering_method.startswith("laplace"):
             assert get_seq_len
             tmp = seq_ordering_method.split(":")[1:]
-- 
2.43.0


From 8ed0653555831ed28e26942f057497fc0383f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:15 +0000
Subject: [PATCH 02/81] fix: Meta/Concat/Combined/ChunkShuffle: re-init of same
 epoch after seqs were loaded did not reinit sub-datasets

---
 returnn/datasets/meta.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 0fe2190..93161aa 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -398,6 +398,7 @@ class MetaDataset(CachedDataset2):
             or seq_list is not None
             or seq_order is not None
             or self.expected_load_seq_start > 0
+            or bool(self.added_data)
         )
         super(MetaDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         if epoch is None:
@@ -782,7 +783,9 @@ class ConcatDataset(CachedDataset2):
         :param list[str]|None seq_list: List of sequence tags, to set a predefined order.
         :param list[int]|None seq_order: List of corpus sequence indices, to set a predefined order.
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = (
+            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)
+        )
         super(ConcatDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.dataset_seq_idx_offsets = [0]
         if not need_reinit:
@@ -1033,7 +1036,9 @@ class CombinedDataset(CachedDataset2):
         """
 
         assert seq_list is None and seq_order is None, "seq_list and seq_order not supported for %s" % self.__class__
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = (
+            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)
+        )
         num_seqs_saved = self._num_seqs
         super(CombinedDataset, self).init_seq_order(
             epoch=epoch, seq_list=seq_list, seq_order=seq_order
@@ -1708,7 +1713,9 @@ class ChunkShuffleDataset(CachedDataset2):
         :param list[str]|None seq_list:
         :param list[int]|None seq_order:
         """
-        need_reinit = self.epoch is None or self.epoch != epoch
+        need_reinit = (
+            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)
+        )
         super(ChunkShuffleDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
         self.load_seqs_end = 0
         self.dataset_last_load_seq_end = 0
-- 
2.43.0


From 967acbefe6dd8b01c4f16f160ea7e6eb5fd29251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:15 +0000
Subject: [PATCH 03/81] fix: Dataset.get_complete_frac with unknown num_seqs:
 math.isinf(None)

---
 returnn/datasets/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 13ba573..d19a4be 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -973,7 +973,7 @@ class Dataset:
             except Exception:  # also not always available
                 num_seqs = None  # ignore
 
-        if math.isinf(num_seqs):
+        if num_seqs is not None and math.isinf(num_seqs):
             if allow_only_lr_suitable:
                 # cannot compute meaningful complete_frac for infinite num_seqs
                 return None
-- 
2.43.0


From d55d236e30880c5bc92d92a37a3aea0dac8630a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:15 +0000
Subject: [PATCH 04/81] fix: MapDatasetWrapper, StaticDataset: load_seqs with
 end beyond num_seqs (as ConcatDataset does)

---
 returnn/datasets/generating.py | 2 ++
 returnn/datasets/map.py        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/returnn/datasets/generating.py b/returnn/datasets/generating.py
index 3d08804..845657f 100644
--- a/returnn/datasets/generating.py
+++ b/returnn/datasets/generating.py
@@ -1168,6 +1168,8 @@ class StaticDataset(CachedDataset2):
         :param int seq_idx:
         :rtype: DatasetSeq
         """
+        if seq_idx >= len(self._seq_order):
+            return None
         corpus_seq_idx = self._seq_order[seq_idx]
         data = self.data[corpus_seq_idx]
         return DatasetSeq(
diff --git a/returnn/datasets/map.py b/returnn/datasets/map.py
index 43ef533..fffdfb3 100644
--- a/returnn/datasets/map.py
+++ b/returnn/datasets/map.py
@@ -167,6 +167,8 @@ class MapDatasetWrapper(CachedDataset2):
         :param int seq_idx: sorted seq idx
         :return:
         """
+        if seq_idx >= len(self._seq_order):
+            return None
         corpus_seq_idx = self.get_corpus_seq_idx(seq_idx)
         return DatasetSeq(
             seq_idx, features=self._dataset[corpus_seq_idx], seq_tag=self._dataset.get_seq_tag(corpus_seq_idx)
-- 
2.43.0


From 3fe34193edbdd499e7c87354533b8ea38caed4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:49 +0000
Subject: [PATCH 05/81] fix: non-recurrent batching exceeded max_seqs by one

---
 returnn/datasets/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index d19a4be..8f4a5bc 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -1341,7 +1341,7 @@ class Dataset:
                     batch.add_frames(seq_idx=seq_idx, seq_start_frame=t_start, length=num_frames)
                     if (
                         batch.get_all_slices_num_frames().any_compare(batch_size, (lambda a, b: a >= b))
-                        or batch.get_num_seqs() > max_seqs
+                        or batch.get_num_seqs() >= max_seqs
                     ):
                         yield batch
                         batch = Batch()
-- 
2.43.0


From 08f0c92cd0742b4d46d01f2af712301896dad410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:21 +0000
Subject: [PATCH 06/81] fix: ShufflingDataPipe on an empty stream

---
 returnn/torch/data/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/data/pipeline.py b/returnn/torch/data/pipeline.py
index fa6237d..40a8abc 100644
--- a/returnn/torch/data/pipeline.py
+++ b/returnn/torch/data/pipeline.py
@@ -566,7 +566,7 @@ class ShufflingDataPipe(torch.utils.data.IterDataPipe):
                     has_ended = True
 
             if len(self._buffer) < self._buffer_size:
-                assert has_ended and not self._next_buffer
+                assert (has_ended or not self._buffer) and not self._next_buffer
                 break
 
             self._buffer.clear()
-- 
2.43.0


From 5c01184c0649f1bf848aa42935fccaf1c8c36d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:10 +0000
Subject: [PATCH 07/81] fix: lru_cache cache_set: replace existing entry

---
 returnn/util/lru_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index 1f45760..66c8814 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -172,7 +172,9 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
         nonlocal root, full
         if maxsize > 0:
             key = make_key(args, kwargs, typed)
-            _cache_insert(key, result)
+            with lock:
+                cache_pop(*args, fallback=None, **kwargs)  # replace any existing entry
+                _cache_insert(key, result)
 
     def cache_peek(*args, update_statistics: bool = True, fallback=None, **kwargs):
         """
-- 
2.43.0


From 0cfaf41d1542890e9de18c9e731b47dc3e5f3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:10 +0000
Subject: [PATCH 08/81] fix: lru_cache maxsize=None (unbounded, as documented)
 raised TypeError

---
 returnn/util/lru_cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index 66c8814..9baefb0 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -4,6 +4,7 @@ and extended by functions to check whether some key is cached or not.
 """
 
 from __future__ import annotations
+import sys
 from typing import Dict, Any
 from functools import update_wrapper
 from threading import RLock
@@ -77,6 +78,8 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
     root = []  # root of the circular doubly linked list
     root[:] = [root, root, None, None]  # initialize by pointing to self
 
+    if maxsize is None:
+        maxsize = sys.maxsize  # unbounded
     assert maxsize >= 0
 
     def wrapper(*args, **kwds):
-- 
2.43.0


From 738bc6d78ce4513e2832d916ab51ed68eb2a2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:05 +0000
Subject: [PATCH 09/81] fix: FileCache.get_file raised the error of a failed
 earlier try although a later try succeeded

---
 returnn/util/file_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 1002912..9ee290a 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -118,6 +118,7 @@ class FileCache:
                 time.sleep(1)
             try:
                 self._copy_file_if_needed(src_filename, dst_filename)
+                last_error = None
                 break
             except OSError as e:
                 if e.errno == errno.ENOSPC:
-- 
2.43.0


From f0d24124e72a51498d50075a1a026697c3d9ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:05 +0000
Subject: [PATCH 10/81] fix: FileCache: failed copy left temp file behind,
 making the retry fail

---
 returnn/util/file_cache.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 9ee290a..11ccc10 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -355,8 +355,14 @@ class FileCache:
                 orig_mtime_ns = os.stat(src_filename).st_mtime_ns
                 FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))
 
-                _copy_with_prealloc(src_filename, dst_tmp_filename)
-                os.rename(dst_tmp_filename, dst_filename)
+                try:
+                    _copy_with_prealloc(src_filename, dst_tmp_filename)
+                    os.rename(dst_tmp_filename, dst_filename)
+                except BaseException:
+                    # We still hold the lock. Do not leave it behind, the next try would not expect it (see above).
+                    if os.path.exists(dst_tmp_filename):
+                        os.remove(dst_tmp_filename)
+                    raise
 
     @staticmethod
     def _check_existing_copied_file_maybe_cleanup(src_filename: str, dst_filename: str) -> bool:
-- 
2.43.0


From 9d19572a58c0f69059ca9ed02a077b78bfac1571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:05 +0000
Subject: [PATCH 11/81] fix: FileCache: touch thread died when a file was
 released and deleted in the meantime

---
 returnn/util/file_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 11ccc10..8956254 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -486,6 +486,8 @@ class _TouchFilesThread(Thread):
                 try:
                     os.utime(filename, None)
                 except Exception as exc:
+                    if isinstance(exc, FileNotFoundError) and filename not in self.files:
+                        continue  # released (e.g. the lock file) and deleted in the meantime
                     print(f"FileCache: failed updating mtime of {filename}: {exc}")
                     raise
             if self.stop.wait(self.interval):
-- 
2.43.0


From 4f15597e14fab2f8c9a0d86568c5133f20ef7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:05 +0000
Subject: [PATCH 12/81] fix: FileCache: cache_directory with trailing slash let
 the touch thread loop endlessly

---
 returnn/util/file_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/util/file_cache.py b/returnn/util/file_cache.py
index 8956254..ba298e9 100644
--- a/returnn/util/file_cache.py
+++ b/returnn/util/file_cache.py
@@ -73,7 +73,7 @@ class FileCache:
             least this times as much space.
         :param num_tries: how many times to try caching a file before giving up
         """
-        self.cache_directory = expand_env_vars(cache_directory)
+        self.cache_directory = expand_env_vars(cache_directory).rstrip("/")
         self._cleanup_files_always_older_than_days = cleanup_files_always_older_than_days
         self._cleanup_files_wanted_older_than_days = cleanup_files_wanted_older_than_days
         self._cleanup_disk_usage_wanted_free_ratio = cleanup_disk_usage_wanted_free_ratio
-- 
2.43.0


From d46430cf2b524443623a7f45941fbdf7115b4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:35 +0000
Subject: [PATCH 13/81] fix: newbob relative error with an error of exactly
 zero raised ZeroDivisionError

---
 returnn/learning_rate_control.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/returnn/learning_rate_control.py b/returnn/learning_rate_control.py
index 3d59e3e..97466f8 100644
--- a/returnn/learning_rate_control.py
+++ b/returnn/learning_rate_control.py
@@ -338,10 +338,12 @@ class LearningRateControl:
             return None
         if old_key != new_key:
             return None
-        if self.relative_error_div_by_old:
-            relative_error = (new_error - old_error) / abs(old_error)
-        else:
-            relative_error = (new_error - old_error) / abs(new_error)
+        relative_error = new_error - old_error
+        denom = abs(old_error if self.relative_error_div_by_old else new_error)
+        if denom != 0:
+            relative_error /= denom
+        elif relative_error != 0:
+            relative_error *= float("inf")  # relative to zero
         if self.relative_error_also_relative_to_learning_rate:
             learning_rate = self.get_most_recent_learning_rate(new_epoch, exclude_current=False)
             if learning_rate > 0:
-- 
2.43.0


From 56435d1802af25e96077b72d12adf1e58669fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:21 +0000
Subject: [PATCH 14/81] fix: torch Engine: saving the model failed when the
 model filename has no directory

---
 returnn/torch/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/engine.py b/returnn/torch/engine.py
index b0b1940..a38dd72 100644
--- a/returnn/torch/engine.py
+++ b/returnn/torch/engine.py
@@ -1121,7 +1121,7 @@ class Engine(EngineBase):
             return
         filename = self.get_epoch_model_filename() + util.get_model_filename_postfix()
         directory = os.path.dirname(filename)
-        if not os.path.exists(directory):
+        if directory and not os.path.exists(directory):
             os.makedirs(directory, exist_ok=True)
 
         print("Save model under %s" % (filename,), file=log.v4)
-- 
2.43.0


From a7f2ffb42ef96af6d6bec6012967c92aead6ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:21 +0000
Subject: [PATCH 15/81] fix: cleanup_old_models failed with KeyError for an
 existing model without recorded scores

---
 returnn/engine/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/engine/base.py b/returnn/engine/base.py
index df75cce..9f6b67f 100644
--- a/returnn/engine/base.py
+++ b/returnn/engine/base.py
@@ -379,7 +379,7 @@ class EngineBase:
         score_keys = sorted(score_keys)
         score_values = {key: [] for key in score_keys}
         for epoch in epochs:
-            epoch_scores = lr_control.epoch_data[epoch].error
+            epoch_scores = lr_control.get_epoch_error_dict(epoch)
             for key in epoch_scores.keys():
                 score_values[key].append(epoch_scores[key])
         for key in list(score_keys):
@@ -399,7 +399,7 @@ class EngineBase:
         worst_score_values = {key: max(scores) for (key, scores) in score_values.items()}
         for key in score_keys:
             scores = sorted(
-                [(lr_control.epoch_data[epoch].error.get(key, worst_score_values[key]), epoch) for epoch in epochs]
+                [(lr_control.get_epoch_error_dict(epoch).get(key, worst_score_values[key]), epoch) for epoch in epochs]
             )
             scores = scores[:keep_best_n]
             keep_epochs.update([v[1] for v in scores])
-- 
2.43.0


From da0a8b9ff581e7aec10afb97ed37d9209953541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:22 +0000
Subject: [PATCH 16/81] fix: cleanup_old_models deleted the best models when
 some epoch had a nan score

---
 returnn/engine/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/returnn/engine/base.py b/returnn/engine/base.py
index 9f6b67f..26eff71 100644
--- a/returnn/engine/base.py
+++ b/returnn/engine/base.py
@@ -378,8 +378,13 @@ class EngineBase:
         assert score_keys
         score_keys = sorted(score_keys)
         score_values = {key: [] for key in score_keys}
+
+        def get_scores(ep):
+            """nan cannot be ordered, and is never a good score"""
+            return {k: v if v == v else float("inf") for (k, v) in lr_control.get_epoch_error_dict(ep).items()}
+
         for epoch in epochs:
-            epoch_scores = lr_control.get_epoch_error_dict(epoch)
+            epoch_scores = get_scores(epoch)
             for key in epoch_scores.keys():
                 score_values[key].append(epoch_scores[key])
         for key in list(score_keys):
@@ -398,9 +403,7 @@ class EngineBase:
         # so the maximum value is the worst possible value.
         worst_score_values = {key: max(scores) for (key, scores) in score_values.items()}
         for key in score_keys:
-            scores = sorted(
-                [(lr_control.get_epoch_error_dict(epoch).get(key, worst_score_values[key]), epoch) for epoch in epochs]
-            )
+            scores = sorted([(get_scores(epoch).get(key, worst_score_values[key]), epoch) for epoch in epochs])
             scores = scores[:keep_best_n]
             keep_epochs.update([v[1] for v in scores])
         keep_epochs.intersection_update(epochs)
-- 
2.43.0


From d67208083ebc0042671655d917c0cc277d627361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:10 +0000
Subject: [PATCH 17/81] fix: cleanup_old_models could delete the only model
 with optimizer state after a crash

After a crash between writing the model and its optimizer state,
training resumes from an earlier checkpoint, but the newer model counted as the last one
(save_interval > 1, keep_last_n = 1), such that the checkpoint to resume from was deleted.
---
 returnn/engine/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/engine/base.py b/returnn/engine/base.py
index 26eff71..db122f0 100644
--- a/returnn/engine/base.py
+++ b/returnn/engine/base.py
@@ -371,6 +371,10 @@ class EngineBase:
             default_keep_pattern.add(n)
         keep_epochs.update(opts.get("keep", default_keep_pattern))
         keep_epochs.update(epochs[-keep_last_n:])
+        # After a crash, the last model might lack its optimizer state,
+        # and we might not have reached that epoch again.
+        # Never delete the model from which the training would resume.
+        keep_epochs.update(sorted(self.get_existing_models(config=self.config, for_training=True).keys())[-1:])
         score_keys = set()  # e.g. "dev_error", "dev_score", etc.
         # Collect all possible score keys. Note that we could have different ones for different epochs.
         for data in lr_control.epoch_data.values():
-- 
2.43.0


From 611e87bb4ea6cde3dcd20e662ad1ede89e6beec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:10 +0000
Subject: [PATCH 18/81] fix: torch Updater: weight_decay_custom_include_check
 got the local instead of the full param name

---
 returnn/torch/updater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 791d158..8e8f67a 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -537,7 +537,7 @@ class Updater:
                 custom_include = None
                 if custom_include_check:
                     custom_include = custom_include_check(
-                        module=module, rf_module=rf_module, full_param_name=param_name, param=param
+                        module=module, rf_module=rf_module, full_param_name=full_param_name, param=param
                     )
                 if custom_include is not None:
                     assert isinstance(custom_include, bool), "weight_decay_custom_include_check did not return bool"
-- 
2.43.0


From 37bc7684b07fb497f47e836ba962b76638f19d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:10 +0000
Subject: [PATCH 19/81] fix: torch Updater: weight_decay_modules_blacklist
 without weight_decay failed

---
 returnn/torch/updater.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 8e8f67a..5d1c13a 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -485,6 +485,10 @@ class Updater:
             )
             return custom_param_groups
 
+        # Pop our own options in any case, as the optimizer class does not know them.
+        blacklist_wd_modules = optimizer_opts.pop("weight_decay_modules_blacklist", None)
+        custom_include_check = optimizer_opts.pop("weight_decay_custom_include_check", None)
+
         network_params = self.network.parameters()
 
         # By default, insert the weight_decay constraints in the optimizer, as this is default PyTorch behavior.
@@ -512,12 +516,10 @@ class Updater:
         # Parameters without weight decay: biases + LayerNorm/Embedding layers.
         wd_params = set()
         no_wd_params = set()
-        blacklist_wd_modules = optimizer_opts.pop("weight_decay_modules_blacklist", None)
         if blacklist_wd_modules is None:
             blacklist_wd_modules = (torch.nn.LayerNorm, torch.nn.Embedding)
         else:
             blacklist_wd_modules = _wrap_user_blacklist_wd_modules(blacklist_wd_modules)
-        custom_include_check = optimizer_opts.pop("weight_decay_custom_include_check", None)
         if custom_include_check:
             assert callable(custom_include_check), f"invalid weight_decay_custom_include_check {custom_include_check!r}"
         # Tracker of visited parameters to only add each parameter once, in case two modules share common parameters.
-- 
2.43.0


From bc1b7ba40cbef58cb3095cc8badb8bc98587364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:10 +0000
Subject: [PATCH 20/81] fix: torch Updater: optimizer option
 learning_rate_multiplier was ignored

It was only used for the initial learning rate,
which was overwritten before the first step.
---
 returnn/torch/updater.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/updater.py b/returnn/torch/updater.py
index 5d1c13a..075be1c 100644
--- a/returnn/torch/updater.py
+++ b/returnn/torch/updater.py
@@ -130,6 +130,7 @@ class Updater:
                 raise NotImplementedError("not implemented for not callable dynamic_learning_rate")
 
         self._optimizer_opts = None
+        self._learning_rate_multiplier = 1.0  # via optimizer opts
         self.optimizer = None  # type: typing.Optional[torch.optim.Optimizer]
 
         self._grad_clip = self.config.float("gradient_clip", 0.0)
@@ -187,7 +188,7 @@ class Updater:
             self._effective_learning_rate = float(lr)
         if self.optimizer:
             for param_group in self.optimizer.param_groups:
-                param_group["lr"] = self._effective_learning_rate
+                param_group["lr"] = self._effective_learning_rate * self._learning_rate_multiplier
 
     def set_current_train_step(self, *, global_train_step: int, epoch: int, epoch_continuous: Optional[float] = None):
         """
@@ -425,8 +426,8 @@ class Updater:
             opt_kwargs["eps"] = opt_kwargs.pop("epsilon")
         if "learning_rate" in opt_kwargs or "lr" in opt_kwargs:
             raise ValueError("'learning_rate' should be set outside of the 'optimizer' dict.")
-        lr = lr * opt_kwargs.pop("learning_rate_multiplier", 1.0)
-        opt_kwargs["lr"] = lr
+        self._learning_rate_multiplier = opt_kwargs.pop("learning_rate_multiplier", 1.0)
+        opt_kwargs["lr"] = lr * self._learning_rate_multiplier
 
         params_or_param_groups = self._get_optimizer_param_groups(optim_class, opt_kwargs)
         optimizer = optim_class(params_or_param_groups, **opt_kwargs)
-- 
2.43.0


From dadda7878b88c415ee78edbe959dde79df1c5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:14 +0000
Subject: [PATCH 21/81] fix: MetaDataset, do not keep a predefined seq
 list/order for a later init_seq_order without one

Re-initializing the same epoch without seq_list / seq_order, before any seq was loaded,
kept the old predefined order. In MultiProcDataset, where the first worker sets its own shard via seq_order,
this could lose all seqs of the other workers, depending on timing.
---
 returnn/datasets/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 93161aa..57d2b41 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -291,6 +291,7 @@ class MetaDataset(CachedDataset2):
 
         self.orig_seq_order_is_initialized = False
         self.seq_list_ordered = None  # type: typing.Optional[typing.Dict[str,typing.List[str]]]
+        self._seq_list_ordered_is_predefined = False  # whether it comes from an explicit seq_list or seq_order
 
     def _load_seq_list(self, seq_list_file: Optional[Union[str, Dict[str, str]]] = None) -> Dict[str, List[str]]:
         """
@@ -395,6 +396,7 @@ class MetaDataset(CachedDataset2):
             self.epoch is None
             or self.epoch != epoch
             or self.seq_list_ordered is None
+            or self._seq_list_ordered_is_predefined
             or seq_list is not None
             or seq_order is not None
             or self.expected_load_seq_start > 0
@@ -439,6 +441,7 @@ class MetaDataset(CachedDataset2):
             seq_index = self.get_seq_order_for_epoch(epoch, self.num_total_seqs, get_seq_len)
         self._num_seqs = len(seq_index)
         self.seq_list_ordered = {key: [ls[s] for s in seq_index] for (key, ls) in self.seq_list_original.items()}
+        self._seq_list_ordered_is_predefined = seq_list is not None or seq_order is not None
 
         for dataset_key, dataset in self.datasets.items():
             assert isinstance(dataset, Dataset)
-- 
2.43.0


From be7be32dba2fa8967b3febb67207c472112d1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:40 +0000
Subject: [PATCH 22/81] fix: MultiProcDataset, skipping seqs must not fail
 depending on what was prefetched so far

---
 returnn/datasets/multi_proc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 9aeddf8..ad60af2 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -286,6 +286,7 @@ class MultiProcDataset(CachedDataset2):
                 assert cache[-1].seq_idx <= seq_idx
                 if cache[-1].seq_idx == seq_idx:
                     return cache[-1]
+                cache.pop()  # skipped, cannot be requested anymore, do not let it fill the buffer
 
         try:
             while True:
-- 
2.43.0


From 92d31bbf58e415905545001712ed3c10db0647a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:40 +0000
Subject: [PATCH 23/81] fix: MultiProcDataset sharding_method dedicated,
 predefined seq_list/seq_order was repeated by each worker

---
 returnn/datasets/multi_proc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index ad60af2..0ca434a 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -409,8 +409,13 @@ class MultiProcDataset(CachedDataset2):
         self._cur_max_complete_frac = 0.0
 
         if self._sharding_method == "dedicated":
-            for worker_conn in self._worker_parent_conns:
-                worker_conn.send(("init_seq_order", {"epoch": epoch, "seq_list": seq_list, "seq_order": seq_order}))
+            for i, worker_conn in enumerate(self._worker_parent_conns):
+                # A predefined list/order is not sharded by the dataset itself. Distribute it, matching the round-robin.
+                worker_seq_list = seq_list[i :: self.num_workers] if seq_list is not None else None
+                worker_seq_order = seq_order[i :: self.num_workers] if seq_order is not None else None
+                worker_conn.send(
+                    ("init_seq_order", {"epoch": epoch, "seq_list": worker_seq_list, "seq_order": worker_seq_order})
+                )
             num_child_seqs = []
             for worker_conn in self._worker_parent_conns:
                 msg, num_seqs = worker_conn.recv()
-- 
2.43.0


From 419ae0e2dd3406e344e7665bc40d0aa963bd22ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:41 +0000
Subject: [PATCH 24/81] fix: MultiProcDataset, complete_frac of the wrapped
 dataset can be None

---
 returnn/datasets/multi_proc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index 0ca434a..e4704dd 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -453,9 +453,11 @@ class MultiProcDataset(CachedDataset2):
         # The complete_frac values from the subprocesses are not necessarily monotonic
         # due to rounding errors in the sharding and such.
         # We therefore fix them up here. This is valid due to monotonicity of `seq_idx`.
-        max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
-        data.complete_frac = max_comp_frac
-        self._cur_max_complete_frac = max_comp_frac
+        # It is None if the dataset does not provide it.
+        if data.complete_frac is not None:
+            max_comp_frac = max(data.complete_frac, self._cur_max_complete_frac)
+            data.complete_frac = max_comp_frac
+            self._cur_max_complete_frac = max_comp_frac
         data.seq_idx = seq_idx
         return data
 
-- 
2.43.0


From 243da736d5d7b4c0b4feba3a4930059f02a9d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:35 +0000
Subject: [PATCH 25/81] fix: MultiProcDataset sharding_method dedicated, seqs
 were lost when worker streams have different lengths

The epoch ended with the first exhausted worker (unknown num seqs),
or a non-existing seq was requested (known num seqs). Now we continue with the other workers.
---
 returnn/datasets/multi_proc.py | 38 ++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index e4704dd..a9d6a1e 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -3,7 +3,8 @@ Multi-processing dataset
 """
 
 from __future__ import annotations
-from typing import Optional, Any, Dict, List
+from typing import Optional, Any, Deque, Dict, List, Tuple
+from collections import deque
 import sys
 import gc
 import multiprocessing as mp
@@ -76,6 +77,10 @@ class MultiProcDataset(CachedDataset2):
         self._seq_order_proc = None  # type: Optional[mp.Process]
         self._worker_procs = None  # type: Optional[List[mp.Process]]
         self._cur_max_complete_frac: Optional[float] = None
+        # Round-robin scheduling state for sharding_method dedicated.
+        self._worker_num_seqs: List[Optional[int]] = []  # None if unknown
+        self._schedule: Deque[Tuple[int, int]] = deque()  # worker idx, next seq idx in the worker
+        self._schedule_seq_idx = 0
 
         if _meta_info_cache:
             # This allows to skip the lazy init in self.initialize().
@@ -421,6 +426,9 @@ class MultiProcDataset(CachedDataset2):
                 msg, num_seqs = worker_conn.recv()
                 assert msg == "num_seqs"
                 num_child_seqs.append(num_seqs)
+            self._worker_num_seqs = num_child_seqs
+            self._schedule = deque((i, 0) for i in range(self.num_workers))
+            self._schedule_seq_idx = 0
             if all(num_s is None for num_s in num_child_seqs):
                 self._num_seqs = None
             elif all(num_s is not None for num_s in num_child_seqs):
@@ -441,12 +449,34 @@ class MultiProcDataset(CachedDataset2):
 
         return True
 
-    def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
-        worker_idx = seq_idx % self.num_workers
+    def _get_worker_seq(self, worker_idx: int, seq_idx: int) -> Optional[DatasetSeq]:
+        """
+        :param worker_idx:
+        :param seq_idx: in the worker
+        :return: seq, or None if beyond the end of the worker
+        """
         worker = self._worker_parent_conns[worker_idx]
-        worker.send(("get_data_seq", {"seq_idx": seq_idx // self.num_workers}))
+        worker.send(("get_data_seq", {"seq_idx": seq_idx}))
         msg, data = worker.recv()
         assert msg == "data_seq"
+        return data
+
+    def _collect_single_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
+        if self._sharding_method == "dedicated":
+            # The number of seqs can differ between the workers. Continue until all workers are exhausted.
+            data = None
+            while self._schedule and self._schedule_seq_idx <= seq_idx:
+                worker_idx, worker_seq_idx = self._schedule.popleft()
+                num_worker_seqs = self._worker_num_seqs[worker_idx]
+                data = None
+                if num_worker_seqs is None or self._schedule_seq_idx == seq_idx:
+                    data = self._get_worker_seq(worker_idx, worker_seq_idx)
+                if data is None and (num_worker_seqs is None or worker_seq_idx >= num_worker_seqs):
+                    continue  # this worker is exhausted
+                self._schedule.append((worker_idx, worker_seq_idx + 1))
+                self._schedule_seq_idx += 1
+        else:
+            data = self._get_worker_seq(seq_idx % self.num_workers, seq_idx // self.num_workers)
         if data is None:
             return None
         assert isinstance(data, DatasetSeq)
-- 
2.43.0


From 58c828fbc0448f2a071d00c9642ce2f3cd58312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:23 +0000
Subject: [PATCH 26/81] fix: DistributeFilesDataset with sharding, the sub
 dataset was sharded a second time, losing most of the data

---
 returnn/datasets/distrib_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 9f6c2d5..0398a7a 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -327,6 +327,8 @@ class DistributeFilesDataset(CachedDataset2):
         import tree
 
         dataset_dict = self.get_sub_epoch_dataset(files)
+        # The files are sharded already, the sub dataset must not shard again.
+        dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}
         dataset_dict = extend_dataset_dict_from_parent_dataset(dataset_dict, parent_dataset=self)
 
         flat_sub_dset = tree.flatten_with_path(dataset_dict)
-- 
2.43.0


From b51167e982aa7f2c2612343b60686fda53d4eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:23 +0000
Subject: [PATCH 27/81] fix: DistributeFilesDataset, skipping seqs must not
 fail depending on what was prefetched so far

---
 returnn/datasets/distrib_files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index 0398a7a..bf0ea28 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -642,6 +642,7 @@ def _worker_proc_loop(
             assert cache[-1].seq_idx <= seq_idx
             if cache[-1].seq_idx == seq_idx:
                 return cache[-1]
+            cache.pop()  # skipped, cannot be requested anymore, do not let it fill the buffer
 
     try:
         while True:
-- 
2.43.0


From 366b3418e429eaab833ab023f8ec0f1ca371eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:24 +0000
Subject: [PATCH 28/81] fix: DistributeFilesDataset, allow to restart a sub
 epoch which was already partly consumed

---
 returnn/datasets/distrib_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/distrib_files.py b/returnn/datasets/distrib_files.py
index bf0ea28..2acdc76 100644
--- a/returnn/datasets/distrib_files.py
+++ b/returnn/datasets/distrib_files.py
@@ -300,7 +300,8 @@ class DistributeFilesDataset(CachedDataset2):
 
         # Cleanup and fill _workers.
         for k, worker in list(self._workers.items()):
-            if k < epoch:
+            # A worker which already delivered seqs cannot go back, so it also cannot restart the epoch.
+            if k < epoch or (k == epoch and worker.delivered_seqs):
                 worker.exit()
                 del self._workers[k]
         for ep_ in range(epoch, epoch + self.preload_next_n_sub_epochs + 1):
@@ -533,6 +534,7 @@ class _WorkerProcParent:
         self.parent_conn.send(("init_seq_order", {"epoch": self.full_epoch_0idx + 1}))
         self._has_num_seqs = False
         self._num_seqs: Optional[int] = None  # remains None if unknown
+        self.delivered_seqs = False
 
     def _lazy_wait_for_init_seq_order(self):
         if self._has_num_seqs:
@@ -550,6 +552,7 @@ class _WorkerProcParent:
     def get_data_seq(self, seq_idx: int) -> Optional[DatasetSeq]:
         """get data seq"""
         self._lazy_wait_for_init_seq_order()
+        self.delivered_seqs = True
         self.parent_conn.send(("get_data_seq", {"seq_idx": seq_idx}))
         msg, data = self.parent_conn.recv()
         assert msg == "data_seq"
-- 
2.43.0


From 144e87cb2c580aedde2b94636c84e38ad6f7295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:56 +0000
Subject: [PATCH 29/81] fix: CombinedDataset sampling_sizes, initialize()
 failed if the sub datasets have no seqs without epoch

---
 returnn/datasets/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/meta.py b/returnn/datasets/meta.py
index 57d2b41..0d5b99e 100644
--- a/returnn/datasets/meta.py
+++ b/returnn/datasets/meta.py
@@ -1067,7 +1067,7 @@ class CombinedDataset(CachedDataset2):
         if total_num_seqs is not None:
             self.dataset_seq_idx_boundaries = self._create_dataset_seq_idx_boundaries()
 
-            if self.sampling_sizes:
+            if self.sampling_sizes and total_num_seqs > 0:  # can be 0 via initialize(), without epoch
                 seq_order = self._get_sampling_seq_order()
             elif self.seq_ordering == "random_dataset":
                 seq_order = self._get_random_dataset_seq_order(total_num_seqs)
-- 
2.43.0


From d15e8c8a1a25033ece69174e906b31ff11ec9fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:33 +0000
Subject: [PATCH 30/81] fix: SimpleHDFWriter extend_existing_file with multiple
 extra data keys, wrong seq lengths, labels lost

---
 returnn/datasets/hdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ad13b49..ca60ddf 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1158,6 +1158,12 @@ class SimpleHDFWriter:
 
         self._extra_num_time_steps = {}  # type: typing.Dict[str,int]  # key -> num-steps
         self._prepared_extra = set()
+        if extend_existing_file and "targets" in self._file:
+            # The existing data keys define the layout of seq_lengths, so we need to know all of them from the beginning.
+            for data_key, data in self._file["targets/data"].items():
+                self._datasets[data_key] = data
+                self._extra_num_time_steps[data_key] = data.shape[0]
+                self._prepared_extra.add(data_key)
         if extra_type:
             self._prepare_extra(extra_type, extra_labels if extra_labels else {})
 
@@ -1185,7 +1191,7 @@ class SimpleHDFWriter:
         for data_key, (dim, ndim, dtype) in extra_type.items():
             assert data_key != "inputs"
             if data_key in self._prepared_extra:
-                return
+                continue
             if not self._prepared_extra and not self.extend_existing_file:
                 # For the first time, need to create the groups.
                 self._file.create_group("targets/data")
-- 
2.43.0


From 4720a00f49c55bcd267c9d8ebc79a8395f6e7195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 31/81] fix: NextGenHDFDataset, decode seq names (h5py returns
 bytes)

---
 returnn/datasets/hdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index ca60ddf..686596c 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -675,7 +675,8 @@ class NextGenHDFDataset(CachedDataset2):
             "%s does not contain all required datasets/groups" % path
         )
 
-        seqs = list(cur_file["seq_names"])
+        # noinspection PyProtectedMember
+        seqs = [HDFDataset._decode(s) for s in cur_file["seq_names"]]
         norm_seqs = [self._normalize_seq_name(s) for s in seqs]
 
         prev_no_seqs = len(self.all_seq_names)
-- 
2.43.0


From f842552924df1915b4316bf510d4fd7800c2c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 32/81] fix: HDFDatasetWriter, wrong seq lengths when "data" is
 a target and mapped to "classes"

---
 returnn/datasets/hdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 686596c..60e96db 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1536,7 +1536,8 @@ class HDFDatasetWriter:
         hdf_dataset.create_dataset(attr_seqLengths, shape=(num_seqs, len(data_keys)), dtype="int32")
         for i, seq_len in enumerate(seq_lens):
             data_len = [seq_len[data_input_key]] if data_input_key else []
-            targets_lens = [seq_len[data_key] for data_key in sorted(data_target_keys)]
+            # HDFDataset expects the order of the sorted (mapped) target keys.
+            targets_lens = [seq_len[data_key] for data_key in sorted(data_target_keys, key=hdf_data_key_map.get)]
             hdf_dataset[attr_seqLengths][i] = data_len + targets_lens
             if use_progress_bar:
                 progress_bar_with_time(float(i) / num_seqs)
-- 
2.43.0


From 8bc1e303f7518851c30975273b371b18e9d2f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:51 +0000
Subject: [PATCH 33/81] fix: HDFDatasetWriter, support non-ASCII seq tags

---
 returnn/datasets/hdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/hdf.py b/returnn/datasets/hdf.py
index 60e96db..b88fde0 100644
--- a/returnn/datasets/hdf.py
+++ b/returnn/datasets/hdf.py
@@ -1505,7 +1505,7 @@ class HDFDatasetWriter:
             seq_lens += [seq_len]
             tag = dataset.get_tag(seq_idx)
             seq_tags += [tag]
-            max_tag_len = max(len(tag), max_tag_len)
+            max_tag_len = max(len(tag.encode("utf8")), max_tag_len)
             total_seq_len += seq_len
             if use_progress_bar and dataset_num_seqs is not None:
                 progress_bar_with_time(float(seq_idx - start_seq) / dataset_num_seqs)
@@ -1528,7 +1528,7 @@ class HDFDatasetWriter:
         print("Set seq tags...", file=log.v3)
         hdf_dataset.create_dataset("seqTags", shape=(num_seqs,), dtype="S%i" % (max_tag_len + 1))
         for i, tag in enumerate(seq_tags):
-            hdf_dataset["seqTags"][i] = numpy.array(tag, dtype="S%i" % (max_tag_len + 1))
+            hdf_dataset["seqTags"][i] = numpy.array(tag.encode("utf8"), dtype="S%i" % (max_tag_len + 1))
             if use_progress_bar:
                 progress_bar_with_time(float(i) / num_seqs)
 
-- 
2.43.0


From f3e28bf57fe8a9b451f3dbccea7f06dd55782eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:08 +0000
Subject: [PATCH 34/81] fix: PostprocessingDataset failed when the
 complete_frac of the wrapped dataset is unknown (None)

---
 returnn/datasets/postprocessing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/returnn/datasets/postprocessing.py b/returnn/datasets/postprocessing.py
index e477d7a..e143293 100644
--- a/returnn/datasets/postprocessing.py
+++ b/returnn/datasets/postprocessing.py
@@ -270,9 +270,9 @@ class PostprocessingDataset(CachedDataset2):
             assert loaded_seq_idx <= seq_idx, "_collect_single_seq must be done monotonically"
             if loaded_seq_idx != seq_idx:
                 continue
-            complete_frac = (
-                float(tensor_dict.data["complete_frac"].raw_tensor) if "complete_frac" in tensor_dict.data else None
-            )
+            complete_frac = None
+            if "complete_frac" in tensor_dict.data and tensor_dict.data["complete_frac"].raw_tensor is not None:
+                complete_frac = float(tensor_dict.data["complete_frac"].raw_tensor)
             seq_tag = str(tensor_dict.data["seq_tag"].raw_tensor) if "seq_tag" in tensor_dict.data else f"seq-{seq_idx}"
             features = {k: t.raw_tensor for k, t in tensor_dict.data.items() if k not in ["complete_frac", "seq_tag"]}
             seq = DatasetSeq(complete_frac=complete_frac, features=features, seq_idx=seq_idx, seq_tag=seq_tag)
@@ -290,7 +290,8 @@ class PostprocessingDataset(CachedDataset2):
                     f"postprocessing mapper function must produce a {TensorDict.__name__}, "
                     f"but got a {type(t_dict).__name__}"
                 )
-                if "complete_frac" in t_dict.data:  # sanity check complete_frac
+                # sanity check complete_frac (if known)
+                if "complete_frac" in t_dict.data and t_dict.data["complete_frac"].raw_tensor is not None:
                     complete_frac = float(t_dict.data["complete_frac"].raw_tensor)
                     assert 0.0 <= complete_frac <= 1.0, f"complete_frac must be in [0, 1], but got {complete_frac}"
                     assert complete_frac >= last_complete_frac, (
-- 
2.43.0


From 85f5086f8c2f4a22dff0d3abf8bcdb22f08044de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:58 +0000
Subject: [PATCH 35/81] fix: raw_dict_split_batch
 (forward_auto_split_batch_on_oom) failed on the entries without batch dim

---
 returnn/torch/data/extern_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/returnn/torch/data/extern_data.py b/returnn/torch/data/extern_data.py
index dc7d222..d57140e 100644
--- a/returnn/torch/data/extern_data.py
+++ b/returnn/torch/data/extern_data.py
@@ -130,6 +130,10 @@ def raw_dict_split_batch(
     for k, v in extern_data_raw.items():
         if not isinstance(v, (torch.Tensor, numpy.ndarray)):
             raise TypeError(f"got invalid value of type ({type(v).__name__}) for key {k!r}")
+        if v.ndim == 0:  # no batch dim, e.g. num_seqs, epoch, complete_frac
+            for res_ in res:
+                res_[k] = v
+            continue
         offset = 0
         for i, split_size in enumerate(splits):
             res[i][k] = v[offset : offset + split_size]
-- 
2.43.0


From f340509956f77b7efb5e9d7945a94f8f3dbe24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:32 +0000
Subject: [PATCH 36/81] fix: rf.slice (PyTorch) ignored step and failed for
 negative start/end

---
 returnn/torch/frontend/_backend.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 82f2108..f29ac42 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1173,9 +1173,13 @@ class TorchBackend(Backend[torch.Tensor]):
             if isinstance(end, Tensor):
                 assert end.dims == ()
                 end = end.raw_tensor
-            if end is None:
-                end = axis.get_dim_value()
-            out.raw_tensor = torch.narrow(source.raw_tensor, dim=axis_int, start=start, length=end - start)
+            if isinstance(step, Tensor):
+                assert step.dims == ()
+                step = int(step.raw_tensor)
+            # Same semantics as for Python slices (also negative start/end, and step).
+            slices = [slice(None)] * source.batch_ndim
+            slices[axis_int] = slice(start, end, step)
+            out.raw_tensor = source.raw_tensor[tuple(slices)]
         return out
 
     @staticmethod
-- 
2.43.0


From eac935369e1142b93614fc6a2428fe939b5bc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:27 +0000
Subject: [PATCH 37/81] fix: RF cache lookup failed when a dim of the cached
 key was freed in the meantime

---
 returnn/frontend/_cache.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/_cache.py b/returnn/frontend/_cache.py
index a6b0075..4cf5f29 100644
--- a/returnn/frontend/_cache.py
+++ b/returnn/frontend/_cache.py
@@ -60,7 +60,12 @@ class Cache:
                 assert isinstance(key_item, DimWrapper)
                 dim_orig = key_item_orig.dim_ref()
                 dim = key_item.dim_ref()
-                assert isinstance(dim_orig, Dim) and isinstance(dim, Dim)
+                assert isinstance(dim, Dim)
+                if dim_orig is None:
+                    # It was identified by its value, and meanwhile it was freed.
+                    # This also means that the cached value cannot have it, so no need to map it.
+                    continue
+                assert isinstance(dim_orig, Dim)
                 dim_map[dim_orig] = dim
 
         # noinspection PyShadowingNames
-- 
2.43.0


From 82dacf6184972c3b3d6307b02e7385dfc79c1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:44 +0000
Subject: [PATCH 38/81] fix: RF cache, single_step_dim must not be confused
 with other dims of size 1

---
 returnn/frontend/_cache.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/_cache.py b/returnn/frontend/_cache.py
index 4cf5f29..ac310c2 100644
--- a/returnn/frontend/_cache.py
+++ b/returnn/frontend/_cache.py
@@ -193,7 +193,11 @@ class DimWrapper:
         if isinstance(other, DimWrapper):
             if self.dim_value is not None:
                 return self.dim_value == other.dim_value
-            return self.dim_ref() == other.dim_ref() and self.dyn_size_ref() is other.dyn_size_ref()
+            if other.dim_value is not None:
+                return False
+            return self.dim_ref() == other.dim_ref() and (self.dyn_size_ref() if self.dyn_size_ref else None) is (
+                other.dyn_size_ref() if other.dyn_size_ref else None
+            )
         return False
 
     def __hash__(self):
@@ -201,6 +205,8 @@ class DimWrapper:
 
 
 def _dim_value_for_key(dim: Dim) -> Optional[int]:
+    if dim.special:
+        return None  # e.g. single_step_dim, which is different from some other dim with size 1
     if dim.size is not None:
         return dim.size
     if dim.dyn_size_ext is not None and not dim.dyn_size_ext.dims:
-- 
2.43.0


From c4a22283b334ca6078e1f9c189e88f086d4d6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 39/81] fix: rf.window valid padding, number of windows for
 short sequences

(spatial_dim - window_dim) is clipped to 0, so sequences shorter than the window still got one (garbage) window.
---
 returnn/frontend/array_.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/array_.py b/returnn/frontend/array_.py
index 32f0a68..6519614 100644
--- a/returnn/frontend/array_.py
+++ b/returnn/frontend/array_.py
@@ -375,7 +375,11 @@ def window(
         # shape[0] == n_time + window - 1
     elif padding == "valid":
         in_spatial_dim = spatial_dim
-        out_spatial_dim = spatial_dim - window_dim + 1
+        # Use a single subtraction, if possible: (spatial_dim - window_dim) would be clipped to 0 for short seqs.
+        if window_dim.is_static():
+            out_spatial_dim = spatial_dim - (window_dim.dimension - 1)
+        else:
+            out_spatial_dim = spatial_dim - window_dim + 1
     else:
         raise ValueError(f"invalid padding {padding!r}")
 
-- 
2.43.0


From d88516d5a4709031493577be4890c97be20ac27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 40/81] fix: rf.pack_padded and pad_packed with static dims

The mask does not have the static dims then, and masked_select failed.
---
 returnn/frontend/array_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/frontend/array_.py b/returnn/frontend/array_.py
index 6519614..0861467 100644
--- a/returnn/frontend/array_.py
+++ b/returnn/frontend/array_.py
@@ -735,6 +735,7 @@ def pack_padded(
     # See: https://github.com/rwth-i6/returnn/pull/1593
     # This might change in the future when we have this:
     # https://github.com/pytorch/pytorch/issues/131256
+    mask = rf.expand_dims(mask, [d for d in dims if d not in mask.dims])  # e.g. static dims
     return rf.masked_select(source, mask=mask, dims=dims, out_dim=out_dim)
 
 
@@ -743,6 +744,7 @@ def pad_packed(source: Tensor, *, in_dim: Dim, dims: Sequence[Dim]) -> Tensor:
     Inverse of :func:`pack_padded`, i.e. unpack the sequence, i.e. pad it back to the original length.
     """
     mask = rf.sequence_mask(dims, device=source.device)
+    mask = rf.expand_dims(mask, [d for d in dims if d not in mask.dims])  # e.g. static dims
     return rf.masked_scatter(source, mask=mask, in_dim=in_dim, dims=dims)
 
 
-- 
2.43.0


From 06951b408c00884fb42439646cb5396cfcc319b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 41/81] fix: Dim copies keep the padded size

The padded size of a sum of dims is the sum of the padded sizes, which can be larger than the longest sequence.
A copy of the dim (e.g. via rf.replace_dim) lost that, and the mask did not fit to the tensor.
---
 returnn/tensor/_dim_extra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 793e875..2fccfc6 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -358,6 +358,7 @@ class _DimMixin:
             src_data=self._extra.src_data if self._extra else None,
             src_axis=self._extra.src_axis if self._extra else None,
         )
+        tag._dyn_size_max_value = self._dyn_size_max_value  # not necessarily max(dyn_size_ext)
         if same_as_self:
             tag.same_as = self  # not declare_same_as, none of the extra checks needed
         return tag
@@ -1833,6 +1834,7 @@ class _DimMixin:
         self.size = other.size
         self.capacity = other.capacity
         self.dyn_size_ext = other.dyn_size_ext
+        self._dyn_size_max_value = other._dyn_size_max_value
         self.derive_from(other)
         self._make_extra().copy_same_as = other
 
-- 
2.43.0


From 58c734968e46bb66f2e3261982767ce60710f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 42/81] fix: Dim value of differences and of quotients with a
 dynamic divisor

max(a-b) is not max(a)-max(b). The dim value was too small, i.e. smaller than the longest sequence.
---
 returnn/tensor/_dim_extra.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 2fccfc6..5b1db2b 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1265,6 +1265,7 @@ class _DimMixin:
 
         y: Optional[_t.Tensor] = None  # resulting dyn size
         y_max_value: Optional[_t.Tensor] = None  # resulting dyn size max value
+        monotone = True  # otherwise the max value cannot be calculated from the max values of the inputs
         inputs = list(op.inputs)
         assert inputs
         for x_dim in inputs:
@@ -1274,8 +1275,12 @@ class _DimMixin:
             x_dim.complete_dyn_size(template_only=template_only, _backend=backend)
             if x_dim.dyn_size_ext is None and x_dim.dimension is None:
                 return
+            if kind == "mul" and x_dim.dimension is not None and x_dim.dimension < 0:
+                monotone = False  # max(-x) != -max(x)
+            if kind.endswith("div") and y is not None and x_dim.dimension is None and x_dim.dyn_size_ext.dims:
+                monotone = False  # max(x/y) != max(x)/max(y)
             y = _bin_op(y, x_dim.dimension if x_dim.dimension is not None else x_dim.dyn_size_ext)
-            if not template_only and y.raw_tensor is not None:
+            if monotone and not template_only and y.raw_tensor is not None:
                 y_max_value = _bin_op(y_max_value, x_dim.get_dim_value_tensor())
         assert y is not None, f"op {op}?"
         if self.dyn_size_ext is not None:
@@ -1286,7 +1291,7 @@ class _DimMixin:
             else:
                 self.batch = y.batch
         self.dyn_size_ext = y
-        if not template_only and y_max_value is not None:
+        if monotone and not template_only and y_max_value is not None:
             assert y_max_value is not None and y_max_value.raw_tensor is not None
             self._dyn_size_max_value = y_max_value
         if tf and y.placeholder is not None:
-- 
2.43.0


From 1c04c2de8f3a288f4be0a576e039ffac40f5c372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 43/81] fix: Dim.sub_left on a sum of dims, wrong sizes for
 short sequences

The partial sum of the subtracted constant and the first summand was clipped to 0.
---
 returnn/tensor/_dim_extra.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 5b1db2b..e77b602 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1268,6 +1268,14 @@ class _DimMixin:
         monotone = True  # otherwise the max value cannot be calculated from the max values of the inputs
         inputs = list(op.inputs)
         assert inputs
+        if kind == "add":
+            # sub_left: E.g. (T+P).sub_left(2) is represented as (-2+T)+P,
+            # but T+P is the non-negative dim here, while T-2 can be negative. So subtract that at the end.
+            terms = list(inputs)
+            while terms[0].is_dynamic() and terms[0].derived_from_op and terms[0].derived_from_op.kind == "add":
+                terms[:1] = terms[0].derived_from_op.inputs
+            if terms[0].is_static() and terms[0].dimension < 0 and all(d.is_dim_known() for d in terms):
+                inputs = terms[1:] + terms[:1]
         for x_dim in inputs:
             x_dim: Dim
             if self.batch:
-- 
2.43.0


From 5b68f1b725a5addf9438ee765cc7b92d834d853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 44/81] fix: Dim ceildiv/floordiv of a product, where one
 factor is itself a ceildiv/floordiv

E.g. ceildiv(2*ceildiv(T,3),3) was simplified to 2*ceildiv(T,9), which is wrong.
---
 returnn/tensor/_dim_extra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index e77b602..0be6d83 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2587,7 +2587,9 @@ class _OpMultTerm:
             return i
         op_kind = kind + "_" + ("right" if right else "left")
         if term.derived_from_op and term.derived_from_op.kind == op_kind:
-            return i
+            # E.g. ⌈⌈a/b⌉/c⌉ == ⌈a/(b*c)⌉, but not with other factors, unless there is never a remainder.
+            if len(self.terms) == 1 or kind == "truediv":
+                return i
         return None
 
     def extend_mul_div_(self, other, kind, right):
-- 
2.43.0


From dae638175d201071d438bfae8d51eba1fe723654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 45/81] fix: torch rf.pad, default value with dynamic dims, and
 non-scalar value on the left

value=None failed in the masking. A non-scalar value was always appended as a single frame on the right,
no matter what padding was requested (e.g. also in shift_right).
---
 returnn/torch/frontend/_backend.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index f29ac42..76a86ac 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -494,13 +494,22 @@ class TorchBackend(Backend[torch.Tensor]):
             assert isinstance(value, Tensor) and value.dims  # non-scalar
             assert all(dim in source.dims and dim not in axes for dim in value.dims)
             assert len(axes) == 1  # not implemented otherwise currently...
-            ext_dim = Dim(1, name="ext")
-            value_ext = rf.expand_dim(value, ext_dim)
-            out = TorchBackend.concat(
-                (source, axes[0]), (value_ext, ext_dim), allow_broadcast=True, out_dim=out_dims[0]
-            )
+            left_, right_ = (int(n) for n in raw_pad[-2:])
+            axis = axes[0]
+            if right_ < 0:
+                source, axis = rf.slice(source, axis=axis, size=axis.get_dim_value() + right_)
+            sources = [(source, axis)]
+            if left_ > 0:
+                ext_dim = Dim(left_, name="ext_left")
+                sources.insert(0, (rf.expand_dim(value, ext_dim), ext_dim))
+            if right_ > 0:
+                ext_dim = Dim(right_, name="ext_right")
+                sources.append((rf.expand_dim(value, ext_dim), ext_dim))
+            out = TorchBackend.concat(*sources, allow_broadcast=True, out_dim=out_dims[0])
+        if value is None:
+            value = 0
         if any(dim.need_masking() for dim in out_dims) and handle_dynamic_dims:
-            if all(right == 0 for right in raw_pad[1::2]) and mode != "circular":
+            if all(isinstance(right, int) and right == 0 for _, right in padding) and mode != "circular":
                 pass  # no masking needed
             else:
                 if mode != "constant":
-- 
2.43.0


From 0d808f8757aea6341ce277f27d26d5d93a2df485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 46/81] fix: torch rf.gather clip_to_valid with empty sequences

This gave index -1, e.g. in rf.reverse_sequence.
---
 returnn/torch/frontend/_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 76a86ac..0ca661a 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1000,9 +1000,9 @@ class TorchBackend(Backend[torch.Tensor]):
             raise TypeError(f"Unsupported type for indices: {type(indices)}")
         if clip_to_valid:
             if axis.dyn_size_ext is not None:
-                indices = rf.clip_by_value(
-                    indices, 0, axis.get_dyn_size_ext_for_device(indices.device) - 1, allow_broadcast_all_sources=True
-                )
+                # Do not use negative indices for empty seqs.
+                max_index = rf.maximum(axis.get_dyn_size_ext_for_device(indices.device) - 1, 0)
+                indices = rf.clip_by_value(indices, 0, max_index, allow_broadcast_all_sources=True)
             else:
                 indices = indices.copy()
                 indices.raw_tensor = torch.clamp(indices.raw_tensor, 0, source.raw_tensor.shape[axis_int] - 1)
-- 
2.43.0


From cd3bd3ae3307a4d038a39eef7cb3f5e397073ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 47/81] fix: torch rf.matmul over a dynamic dim with masking

---
 returnn/torch/frontend/_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 0ca661a..592e538 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1355,8 +1355,8 @@ class TorchBackend(Backend[torch.Tensor]):
         if isinstance(reduce, Dim):
             reduce = [reduce]
 
-        if use_mask and any(dim.dyn_size_ext for dim in reduce):
-            raise NotImplementedError("masking in matmul reduce not yet implemented")
+        if use_mask and any(dim.need_masking() for dim in reduce):
+            a = a.copy_masked(0, dims=[dim for dim in reduce if dim.need_masking()])
 
         a_dims = a.dims
         b_dims = b.dims
-- 
2.43.0


From e62da7b780164728ac4bea733ac1e694717f9f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 48/81] fix: torch rf.reduce_max/reduce_min over multiple axes

---
 returnn/torch/frontend/_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 592e538..53e7ec7 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1518,6 +1518,8 @@ class TorchBackend(Backend[torch.Tensor]):
                 # result is a tuple (values, indices). https://pytorch.org/docs/stable/generated/torch.max.html
                 raw_result, _ = raw_result
         else:
+            if mode in ["max", "min"]:
+                func = getattr(torch, f"a{mode}")  # torch.max/min allow only a single dim
             raw_result = func(source.raw_tensor, dim=raw_dims)
         if correction_factor is not None:
             raw_result *= (
-- 
2.43.0


From 96b0633767560eb4461e6b757d28293a4ba6abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 49/81] fix: torch rf.conv with padding=same and dilation

The padding ignored the dilation, so the output did not fit to the out spatial dim.
---
 returnn/torch/frontend/_backend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 53e7ec7..58c2512 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1924,11 +1924,10 @@ class TorchBackend(Backend[torch.Tensor]):
                 [-1, in_dim.get_dim_value()] + [d.get_dim_value() for d in in_spatial_dims],
             )
         use_striding = strides and (strides > 1 if isinstance(strides, int) else any(s > 1 for s in strides))
+        dilation = dilation_rate or 1
+        dilation = [dilation] * len(filter_size) if isinstance(dilation, int) else dilation
         if padding == "same" and not use_striding and all(d.dimension % 2 == 1 for d in filter_size):
-            if all(filter_size[0].dimension == d.dimension for d in filter_size):  # all same
-                padding = (filter_size[0].dimension - 1) // 2
-            else:
-                padding = tuple(d.dimension // 2 for d in filter_size)
+            padding = tuple(d.dimension // 2 * dil for d, dil in zip(filter_size, dilation))
         if padding == "same" and (use_striding or torch.onnx.is_in_onnx_export()):
             # padding='same' is not supported for strided convolutions.
             # Moreover, padding specified as a string isn't supported for ONNX exporting as of 2023/05/19.
@@ -1965,7 +1964,8 @@ class TorchBackend(Backend[torch.Tensor]):
                 #                = in_len + s.dimension - 1 - (in_len - 1) % stride
                 # Now, the amount of padding which actually matters is:
                 # pad = in_len_covered - in_len = s.dimension - 1 - (in_len - 1) % stride.
-                pad = s.dimension - 1 - (src_raw.shape[2 + i] - 1) % stride_
+                # (With dilation, the window covers (s.dimension - 1) * dilation + 1 frames.)
+                pad = (s.dimension - 1) * dilation[i] - (src_raw.shape[2 + i] - 1) % stride_
                 pad_left = pad // 2
                 pad_right = pad - pad_left
                 pads.extend([pad_left, pad_right])
-- 
2.43.0


From 7cb9d71d1ae06633192b6063dbc1c43fa741892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 50/81] fix: torch rf.pool with padding=same, even pool sizes,
 dilation, pool size smaller than stride

The padding must be explicit when it is not the same on both sides.
---
 returnn/torch/frontend/_backend.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 58c2512..b11c93b 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -2050,22 +2050,32 @@ class TorchBackend(Backend[torch.Tensor]):
             [-1, batch_dims[-1].get_dim_value() if batch_dims else 1] + [d.get_dim_value() for d in in_spatial_dims],
         )
         assert isinstance(strides, (list, tuple)) and len(strides) == len(in_spatial_dims) == len(pool_size)
+        dilation = [dilation_rate] * len(pool_size) if isinstance(dilation_rate, int) else dilation_rate
+        explicit_pad = None  # per axis (left, right)
         if isinstance(padding, str) and padding.lower() == "same":
             # padding='same' is not quite the same as ceil_mode=True, so we explicitly pad here.
-            padding = []
+            explicit_pad = []
             for i, s in enumerate(pool_size):
                 # See comment in conv.
-                # I'm a bit unsure here... https://github.com/pytorch/pytorch/issues/148123
-                pad = s - 1 - (src_raw.shape[2 + i] - 1) % strides[i]
-                padding.append(pad // 2)
-            ceil_mode = True
+                pad = max((s - 1) * dilation[i] - (src_raw.shape[2 + i] - 1) % strides[i], 0)
+                explicit_pad.append((pad // 2, pad - pad // 2))
         elif isinstance(padding, str) and padding.lower() == "valid":
             padding = 0
-            ceil_mode = False
         elif isinstance(padding, (int, tuple, list)):
-            ceil_mode = False
+            explicit_pad = [(p, p) for p in ([padding] * len(pool_size) if isinstance(padding, int) else padding)]
         else:
             raise ValueError(f"invalid padding {padding!r} (type {type(padding).__name__}")
+        src_mask_raw = None  # only if needed
+        if explicit_pad is not None:
+            if all(left == right <= s // 2 for (left, right), s in zip(explicit_pad, pool_size)):
+                padding = [left for left, _ in explicit_pad]
+            else:
+                # Torch pooling does not support this padding (different left/right, or due to dilation).
+                padding = 0
+                raw_pad = [p for left_right in reversed(explicit_pad) for p in left_right]
+                if mode == "avg":  # the padding must not count
+                    src_mask_raw = torch.nn.functional.pad(torch.ones_like(src_raw[:1, :1]), raw_pad)
+                src_raw = torch.nn.functional.pad(src_raw, raw_pad, value=0 if mode == "avg" else float("-inf"))
         func_name = f"{mode}_pool{len(in_spatial_dims)}d"
         func = getattr(torch.nn.functional, func_name)  # e.g. torch.nn.functional.max_pool1d
         kwargs = {}
@@ -2077,7 +2087,9 @@ class TorchBackend(Backend[torch.Tensor]):
             kwargs["dilation"] = dilation_rate
         if mode == "avg":
             kwargs["count_include_pad"] = False
-        out_raw = func(src_raw, kernel_size=pool_size, stride=strides, ceil_mode=ceil_mode, padding=padding, **kwargs)
+        out_raw = func(src_raw, kernel_size=pool_size, stride=strides, padding=padding, **kwargs)
+        if src_mask_raw is not None:
+            out_raw = out_raw / func(src_mask_raw, kernel_size=pool_size, stride=strides, padding=padding, **kwargs)
         out = Tensor("pool", dims=batch_dims + list(out_spatial_dims), dtype=source.dtype)
         out.raw_tensor = torch.reshape(out_raw, [d.get_dim_value() for d in out.dims])
         if source.feature_dim and source.feature_dim in out.dims:
-- 
2.43.0


From ecab03ba17d67d8ebe033bbcf30e75e839a23d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:19 +0000
Subject: [PATCH 51/81] fix: Dim equality, auto generated dims of different
 size or kind are not equal

Dim._eq_simple did not replicate Dim.is_equal here, and it was also not consistent to the hash.
---
 returnn/tensor/_dim_extra.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 0be6d83..7b71956 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1457,7 +1457,13 @@ class _DimMixin:
             if self_extra.kind == other_extra.kind == DimTypes.Batch:
                 return True
             # noinspection PyProtectedMember
-            if self_extra.auto_generated and other_extra.auto_generated and self.description == other.description:
+            if (
+                self_extra.auto_generated
+                and other_extra.auto_generated
+                and self.description == other.description
+                and self.dimension == other.dimension
+                and self_extra.kind == other_extra.kind
+            ):
                 return True
         return False
 
-- 
2.43.0


From 96f90b004494d44563d80b93170b769972ed3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:19 +0000
Subject: [PATCH 52/81] fix: Dim math, a dim derived from a constant and a user
 dim is not auto generated

2 * dim was equal to 2 * other_dim if both dims have the same name.
---
 returnn/tensor/_dim_extra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 7b71956..fd905bc 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2897,6 +2897,9 @@ def _representative_tag(terms: Sequence[Dim]) -> Optional[Dim]:
     for term_ in terms:
         if term_.is_dynamic_seq_length():
             return term_
+    # Prefer any real dim over a constant, e.g. for 2 * dim.
+    # (Otherwise the result would be auto generated, and thus be equal to 2 * other_dim if the name is the same.)
+    terms = [term_ for term_ in terms if not term_.is_constant_static_dim()] or terms
     # Now find non-unspecified.
     for term_ in terms:
         if term_.kind != DimTypes.Unspecified:
-- 
2.43.0


From b5d00226b4ade4ff50279a7e66d8097dab76093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:56 +0000
Subject: [PATCH 53/81] fix: Dim truediv of a product, where one factor is
 itself a truediv

A single factor is not necessarily divisible by the divisor, even if the product is.
---
 returnn/tensor/_dim_extra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index fd905bc..c22ce22 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2593,8 +2593,8 @@ class _OpMultTerm:
             return i
         op_kind = kind + "_" + ("right" if right else "left")
         if term.derived_from_op and term.derived_from_op.kind == op_kind:
-            # E.g. ⌈⌈a/b⌉/c⌉ == ⌈a/(b*c)⌉, but not with other factors, unless there is never a remainder.
-            if len(self.terms) == 1 or kind == "truediv":
+            # E.g. ⌈⌈a/b⌉/c⌉ == ⌈a/(b*c)⌉, but not with other factors.
+            if len(self.terms) == 1:
                 return i
         return None
 
-- 
2.43.0


From d08c4231641df4019de630ad883ea53004555a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:29 +0000
Subject: [PATCH 54/81] fix: Dim math cache, static dim combined with a dynamic
 dim had the old sizes in the next step

The derived dim was cached in the static dim, which is not reset when the dynamic dim gets new sizes,
so e.g. prefix_dim + time_dim (e.g. in rf.concat) stayed at the sizes of the first batch.
---
 returnn/tensor/_dim_extra.py | 49 ++++++++++++------------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index c22ce22..b8835b5 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2101,9 +2101,7 @@ class _DimMixin:
         :return: self + other. note that this is not commutative, i.e. different from other + self.
         :rtype: Dim
         """
-        cache_key = ("add", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("add", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2119,9 +2117,7 @@ class _DimMixin:
         :return: other + self
         :rtype: Dim
         """
-        cache_key = ("add_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("add_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2144,9 +2140,7 @@ class _DimMixin:
         :return: self - other
         :rtype: Dim
         """
-        cache_key = ("sub", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("sub", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2162,9 +2156,7 @@ class _DimMixin:
         :return: (-other) + self
         :rtype: Dim
         """
-        cache_key = ("sub_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("sub_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2179,9 +2171,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("mul", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2196,9 +2186,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("mul_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("mul_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2213,9 +2201,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("floordiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("floordiv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2237,9 +2223,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("truediv_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2254,9 +2238,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("truediv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("truediv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2271,9 +2253,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv_left", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("ceildiv_left", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2288,9 +2268,7 @@ class _DimMixin:
         :param Dim|int other:
         :rtype: Dim
         """
-        cache_key = ("ceildiv", other)
-        cache = self.get_same_base()._make_extra().cache_dim_math
-        cache_entry = cache.get(cache_key, None)
+        cache, cache_key, cache_entry = self._cache_dim_math_get("ceildiv", other)
         if cache_entry:
             cache_entry.complete_dyn_size()
             return cache_entry
@@ -2320,6 +2298,11 @@ class _DimMixin:
         extra = same_base._make_extra()
         if isinstance(operand, _d.Dim) and operand.is_constant_static_dim():
             operand = operand.dimension
+        if isinstance(operand, _d.Dim) and self.is_static() and not operand.is_static():
+            # Use the cache of the dynamic dim, because that is reset when its size changes.
+            # noinspection PyProtectedMember
+            extra = operand.get_same_base()._make_extra()
+            op_kind, operand = op_kind + "_of", same_base
         cache = extra.cache_dim_math
         cache_key = (op_kind, operand)
         return cache, cache_key, cache.get(cache_key, None)
-- 
2.43.0


From 33d4f6f54f187a98edfbcf385442ac704e3225c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:05 +0000
Subject: [PATCH 55/81] fix: Dim pickling, dim math cache type after unpickling

---
 returnn/tensor/_dim_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index b8835b5..2905083 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -127,7 +127,7 @@ class _DimExtra:
         d["same_for_batch_ctx"] = {}
         d["cache_dyn_size_ext_dev"] = {}
         d["cache_seq_mask"] = {}
-        d["cache_dim_math"] = {}
+        d["cache_dim_math"] = _CacheDimMath()
         d["kind"] = self.kind.name if self.kind else None
         return d
 
-- 
2.43.0


From 7e73fcc1d98297a9401dfe5bf6f681845994f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:05 +0000
Subject: [PATCH 56/81] fix: Dim max value of a product with a nested negative
 factor

---
 returnn/tensor/_dim_extra.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 2905083..ec94702 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -1263,6 +1263,13 @@ class _DimMixin:
             else:
                 raise TypeError(f"complete_dyn_size: _relu: unexpected type {type(a)}")
 
+        def _has_negative_factor(d: Dim) -> bool:
+            if d.dimension is not None:
+                return d.dimension < 0
+            if d.derived_from_op and d.derived_from_op.kind == "mul":
+                return any(_has_negative_factor(d_) for d_ in d.derived_from_op.inputs)
+            return False
+
         y: Optional[_t.Tensor] = None  # resulting dyn size
         y_max_value: Optional[_t.Tensor] = None  # resulting dyn size max value
         monotone = True  # otherwise the max value cannot be calculated from the max values of the inputs
@@ -1283,7 +1290,7 @@ class _DimMixin:
             x_dim.complete_dyn_size(template_only=template_only, _backend=backend)
             if x_dim.dyn_size_ext is None and x_dim.dimension is None:
                 return
-            if kind == "mul" and x_dim.dimension is not None and x_dim.dimension < 0:
+            if kind == "mul" and _has_negative_factor(x_dim):
                 monotone = False  # max(-x) != -max(x)
             if kind.endswith("div") and y is not None and x_dim.dimension is None and x_dim.dyn_size_ext.dims:
                 monotone = False  # max(x/y) != max(x)/max(y)
-- 
2.43.0


From 1160dd0f44b6e1060b64867e0b1eaa66649af1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:13 +0000
Subject: [PATCH 57/81] fix: Dim math, sum minus a product with a common factor

---
 returnn/tensor/_dim_extra.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index ec94702..a14ec06 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2471,6 +2471,10 @@ class _OpMultTerm:
     def __repr__(self):
         return "Dim._OpMultTerm(%r)" % (self.terms,)
 
+    def has_negative_factor(self) -> bool:
+        """:return: whether there is a negative constant factor"""
+        return any(f.is_constant_static_dim() and f.dimension < 0 for f in self.terms)
+
     @property
     def dimension(self) -> Optional[int]:
         """static dim or None"""
@@ -2804,7 +2808,20 @@ class _OpLinearTerm:
                     _make_constant_static_dim(most_recent_term.dimension + term.dimension, kind=other.kind)
                 )
                 return
-            if most_recent_term.terms and term.terms and most_recent_term.terms[-1] == term.terms[-1]:
+            if (
+                most_recent_term.terms
+                and term.terms
+                and most_recent_term.terms[-1] == term.terms[-1]
+                and (
+                    # Within a longer sum, the difference of the factors can be negative,
+                    # e.g. S+T-S*T would become S+(1-S)*T, where the dim 1-S would be clipped.
+                    len(self.terms) == 1
+                    or not (most_recent_term.has_negative_factor() or term.has_negative_factor())
+                    or all(
+                        f.is_constant_static_dim() for f in most_recent_term.terms[:-1] + term.terms[:-1]
+                    )
+                )
+            ):
                 # Merge terms
                 a = _OpMultTerm.from_dim_factors(most_recent_term.terms[:-1]).as_dim()
                 b = _OpMultTerm.from_dim_factors(term.terms[:-1]).as_dim()
-- 
2.43.0


From 8d550be58dbaf49a4c56bda6cef4b7a8187bf45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 58/81] fix: Dim.copy again without the padded size, as the
 sizes might be changed then (forward_with_callback)

---
 returnn/frontend/dims.py           | 2 ++
 returnn/tensor/_dim_extra.py       | 1 -
 returnn/torch/frontend/_backend.py | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/dims.py b/returnn/frontend/dims.py
index fd2722f..ee9befb 100644
--- a/returnn/frontend/dims.py
+++ b/returnn/frontend/dims.py
@@ -127,6 +127,8 @@ def replace_dim(source: Tensor, *, in_dim: Dim, out_dim: Optional[Dim] = None) -
     """
     if not out_dim:
         out_dim = in_dim.copy(same_as_self=False, description="new-dim")
+        # noinspection PyProtectedMember
+        out_dim._dyn_size_max_value = in_dim._dyn_size_max_value  # padded size, can be more than max(dyn_size_ext)
     # noinspection PyProtectedMember
     return source._raw_backend.replace_dim(source, in_dim=in_dim, out_dim=out_dim), out_dim
 
diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index a14ec06..604bbfb 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -358,7 +358,6 @@ class _DimMixin:
             src_data=self._extra.src_data if self._extra else None,
             src_axis=self._extra.src_axis if self._extra else None,
         )
-        tag._dyn_size_max_value = self._dyn_size_max_value  # not necessarily max(dyn_size_ext)
         if same_as_self:
             tag.same_as = self  # not declare_same_as, none of the extra checks needed
         return tag
diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index b11c93b..588d821 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -1240,6 +1240,8 @@ class TorchBackend(Backend[torch.Tensor]):
         values_raw, indices_raw = torch.sort(source.raw_tensor, dim=axis_int, descending=descending, stable=stable)
         out_dims = list(source.dims)
         out_dim = axis.copy(same_as_self=False, description=f"{axis.description}:sorted")
+        # noinspection PyProtectedMember
+        out_dim._dyn_size_max_value = axis._dyn_size_max_value  # padded size, can be more than max(dyn_size_ext)
         out_dims[axis_int] = out_dim
         values = rf.convert_to_tensor(values_raw, dims=out_dims, feature_dim={axis: out_dim}.get(source.feature_dim))
         indices = rf.convert_to_tensor(indices_raw, dims=out_dims, sparse_dim=axis)
-- 
2.43.0


From a8927366f39e1855a475e43643dfbf1bae050973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:24 +0000
Subject: [PATCH 59/81] fix: torch softmax_cross_entropy_with_logits, wrong
 axis order of the logits

---
 returnn/torch/frontend/_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/returnn/torch/frontend/_backend.py b/returnn/torch/frontend/_backend.py
index 588d821..08b7662 100644
--- a/returnn/torch/frontend/_backend.py
+++ b/returnn/torch/frontend/_backend.py
@@ -651,8 +651,7 @@ class TorchBackend(Backend[torch.Tensor]):
             logits_dim_order = targets.dims
 
         # We need same order of axes as in target.
-        logits_axes_permutation = [logits_dim_order.index(dim) for dim in logits.dims]
-        logits = logits.copy_transpose(logits_axes_permutation)
+        logits = logits.copy_transpose(logits_dim_order)
 
         raw_cross_entropy = torch.nn.functional.cross_entropy(
             input=logits.raw_tensor, target=targets.raw_tensor, reduction="none"
-- 
2.43.0


From f7c4007c1b2261124e392ba4822e0a7ac012b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:18 +0000
Subject: [PATCH 60/81] fix: rf.reduce_logmeanexp with static axis

---
 returnn/frontend/reduce.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/frontend/reduce.py b/returnn/frontend/reduce.py
index 94fdca5..64b80a0 100644
--- a/returnn/frontend/reduce.py
+++ b/returnn/frontend/reduce.py
@@ -117,7 +117,9 @@ def reduce_logmeanexp(source: Tensor[T], *, axis: Union[Dim, Sequence[Dim]], use
     :return: tensor with axis removed
     """
     s = reduce_logsumexp(source, axis=axis, use_mask=use_mask)
-    return s - rf.safe_log(rf.cast(rf.num_elements_of_shape(axis, use_mask=use_mask, device=s.device), s.dtype))
+    n = rf.num_elements_of_shape(axis, use_mask=use_mask, device=s.device)
+    n = rf.cast(n, s.dtype) if isinstance(n, Tensor) else rf.constant(n, dims=(), dtype=s.dtype, device=s.device)
+    return s - rf.safe_log(n)
 
 
 def reduce_any(source: Tensor[T], *, axis: Union[Dim, Sequence[Dim]], use_mask: bool = True) -> Tensor[T]:
-- 
2.43.0


From e8f9a1df9736a0a87192f32e6d144053faf96ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:57 +0000
Subject: [PATCH 61/81] fix: UnmaskLayer, mask set in the padding frames, or no
 masked frames at all

---
 returnn/tf/layers/rec.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/returnn/tf/layers/rec.py b/returnn/tf/layers/rec.py
index 8285dd6..e94f6be 100644
--- a/returnn/tf/layers/rec.py
+++ b/returnn/tf/layers/rec.py
@@ -9753,6 +9753,7 @@ class UnmaskLayer(LayerBase):
         :param LayerBase mask: the same as as used for :class:`MaskedComputationLayer`.
           Outside loop: [B,T] or [T,B], original T. Inside loop, just [B].
         """
+        from returnn.tf.util.basic import get_shape_dim
         from returnn.tf.util.basic import concat_with_opt_broadcast, nd_indices, same_control_flow_ctx, where_bc
 
         super(UnmaskLayer, self).__init__(**kwargs)
@@ -9784,6 +9785,12 @@ class UnmaskLayer(LayerBase):
                 # The RecLayer will not unroll the source when the dim tag do not match, i.e. when it is masked.
                 with same_control_flow_ctx(src_layer.output.placeholder):
                     src = src_layer.output.copy_as_bt_or_tb_major()
+                    # One more frame, for the padding frames after the end of a seq, and if there is no masked frame.
+                    src_time = get_shape_dim(src.placeholder, src.time_dim_axis)
+                    src_padded = tf.pad(
+                        src.placeholder,
+                        [(0, 1) if a == src.time_dim_axis else (0, 0) for a in range(src.batch_ndim)],
+                    )
                 mask_out = self.mask.output
                 assert (
                     mask_out.shape == () and mask_out.batch_shape == (None,) and mask_out.dtype == "bool"
@@ -9791,8 +9798,9 @@ class UnmaskLayer(LayerBase):
                 prev_t = self._rec_previous_layer.rec_vars_outputs["t"]  # [B]
                 t = prev_t + tf.cast(mask_out.placeholder, tf.int32)  # [B]
                 self.rec_vars_outputs["t"] = t
-                idxs_nd = nd_indices(tf.maximum(t, 0), indices_batch_major=src.is_batch_major)  # [B,2]
-                y = tf.gather_nd(src.placeholder, idxs_nd)  # [B,D']
+                idxs = tf.minimum(tf.maximum(t, 0), src_time)
+                idxs_nd = nd_indices(idxs, indices_batch_major=src.is_batch_major)  # [B,2]
+                y = tf.gather_nd(src_padded, idxs_nd)  # [B,D']
                 y = where_bc(tf.equal(t, -1)[:, None], initial, y)
                 self.output.placeholder = y
 
@@ -9811,7 +9819,8 @@ class UnmaskLayer(LayerBase):
                     mask_out.shape == (None,) and mask_out.batch_shape == (None, None) and mask_out.dtype == "bool"
                 ), "%s: invalid mask %s (outside rec loop)" % (self, self.mask)
                 mask_out = mask_out.copy_as_time_major()
-                mask_t = mask_out.placeholder  # [T,B], e.g. [1,0,1] (ignoring batch-dim for example)
+                # [T,B], e.g. [1,0,1] (ignoring batch-dim for example). The mask can be anything in the padding frames.
+                mask_t = where_bc(mask_out.placeholder, mask_out.get_sequence_mask(), tf.convert_to_tensor(False))
                 idxs = tf.cumsum(tf.cast(mask_t, tf.int32), axis=mask_out.time_dim_axis)  # [T,B], e.g. [1,1,2]
                 initial_wt = tf.expand_dims(initial, axis=0)  # add time axis
                 src_t = concat_with_opt_broadcast(
-- 
2.43.0


From 2a8e5770ef5bed52062972e9e63b06f8d81122bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:11 +0000
Subject: [PATCH 62/81] fix: ReduceLayer over batch and time, for any order of
 the axes

---
 returnn/tensor/_tensor_extra.py | 2 --
 returnn/tf/layers/basic.py      | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/returnn/tensor/_tensor_extra.py b/returnn/tensor/_tensor_extra.py
index 66aaf33..8d34999 100644
--- a/returnn/tensor/_tensor_extra.py
+++ b/returnn/tensor/_tensor_extra.py
@@ -2201,8 +2201,6 @@ class _TensorMixin(_TensorMixinBase):
 
         assert self.placeholder is not None
         assert self.have_time_axis()
-        # flatten_with_seq_len_mask only works if either time_dim_axis or batch_dim_axis is 0:
-        assert 0 in [self.time_dim_axis, self.batch_dim_axis]
         time_dim = self.get_time_dim_tag()
         if time_dim.need_masking():
             assert time_dim.dyn_size_ext.dims == (self.get_batch_dim_tag(),)  # not implemented otherwise
diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index 5067abd..36a789b 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -7777,7 +7777,7 @@ class ReduceLayer(_ConcatInputLayer):
                 assert mode not in arg_funcs, "unexpected arg reduce for multiple axes"
                 # Flattening.
                 assert not keep_dims, "not yet implemented otherwise"
-                axes = [a if (a < x.time_dim_axis) else (a - 1) for a in axes if a != x.time_dim_axis]
+                axes = [0]  # the flattened axis is always the first
                 x = x.copy_time_flattened()
                 x_ = x.placeholder
 
-- 
2.43.0


From 813671d8af0008f78d41dbf73b11f2046a5b7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:11 +0000
Subject: [PATCH 63/81] fix: SliceNdLayer on a static axis which is not the
 second axis

---
 returnn/tf/layers/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index 36a789b..d2e706c 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -1413,9 +1413,9 @@ class SliceNdLayer(_ConcatInputLayer):
                 gather_positions = tf.clip_by_value(gather_positions, 0, seq_lens_t - 1)
             else:
                 pad_mask = tf.logical_or(  # shape like gather_positions
-                    tf.greater(gather_positions, x.batch_shape[1] - 1), tf.less(gather_positions, 0)
+                    tf.greater(gather_positions, x.batch_shape[in_axis] - 1), tf.less(gather_positions, 0)
                 )
-                gather_positions = tf.clip_by_value(gather_positions, 0, x.batch_shape[1] - 1)
+                gather_positions = tf.clip_by_value(gather_positions, 0, x.batch_shape[in_axis] - 1)
             if size_data is not None:
                 size_t = tf_util.copy_compatible_reduce(size_data, start_data, "max").placeholder
                 pad_mask = tf.logical_or(
-- 
2.43.0


From 56ce452f691535a80e42a7f0cfcd99f0c8d7a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:11 +0000
Subject: [PATCH 64/81] fix: PostfixInTimeLayer with postfix layer and axis
 given as Dim

---
 returnn/tf/layers/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index d2e706c..2b21e34 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -8441,7 +8441,7 @@ class PostfixInTimeLayer(_ConcatInputLayer):
         if isinstance(postfix, LayerBase):
             self.postfix_layer = postfix
             assert in_dim not in postfix.output.dim_tags, "Postfix layer with time axis not implemented yet"
-            postfix = postfix.output.copy_compatible_to(self.output, unbroadcast=True, except_axis=axis)
+            postfix = postfix.output.copy_compatible_to(self.output, unbroadcast=True, except_axis=axis_int)
             c = postfix.placeholder
             c_ = tf.tile(c, [1 if i != axis_int else repeat for i in range(self.output.batch_ndim)])
         else:
-- 
2.43.0


From 946f21e65973c60d408ccc736cab66fd41f3a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:18 +0000
Subject: [PATCH 65/81] fix: SliceNdLayer, wrong axis when the input is not
 batch- or time-major

---
 returnn/tf/layers/basic.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/returnn/tf/layers/basic.py b/returnn/tf/layers/basic.py
index 2b21e34..8f0ac7e 100644
--- a/returnn/tf/layers/basic.py
+++ b/returnn/tf/layers/basic.py
@@ -1373,12 +1373,10 @@ class SliceNdLayer(_ConcatInputLayer):
             if (start_data is None or start_data.batch_ndim == 0) and (size_data is None or size_data.batch_ndim == 0):
                 slice_tag = self.output.dim_tags[in_axis]
             else:
-                prefix_dims = set(x.dims[:in_axis])
-                if start_data is not None:
-                    prefix_dims.update(start_data.dims)
-                if size_data is not None:
-                    prefix_dims.update(size_data.dims)
-                slice_tag = self.output.dim_tags[len(prefix_dims)]
+                # The common axes are in front, see GatherLayer.
+                start_dims = start_data.dims if start_data is not None else ()
+                num_common = len([d for i, d in enumerate(x.dims) if i != in_axis and d in start_dims])
+                slice_tag = self.output.dim_tags[max(num_common, in_axis) + len(start_dims) - num_common]
             if size_data is not None and (slice_tag.dyn_size_ext is None or slice_tag.dyn_size_ext.placeholder is None):
                 # in this case, size is not known before runtime and becomes dynamic and we need to set dyn_size
                 assert slice_tag.is_dynamic()
-- 
2.43.0


From 86deb4208184a8105337463570e5698697a31147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:31 +0000
Subject: [PATCH 66/81] fix: native code cache, never use or leave an
 incomplete library or info file (concurrent procs, crash)

---
 returnn/util/native_code_compiler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 114bea3..3b55315 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -195,8 +195,11 @@ class NativeCodeCompiler:
 
     def _save_info(self):
         filename = self._info_filename
-        with open(filename, "w") as f:
+        # Other procs can read this without the lock, so it must never be incomplete, also not when we crash here.
+        tmp_filename = "%s.tmp" % filename
+        with open(tmp_filename, "w") as f:
             f.write("%s\n" % util.better_repr(self._info_dict))
+        os.replace(tmp_filename, filename)
 
     def _need_recompile(self):
         """
@@ -244,6 +247,8 @@ class NativeCodeCompiler:
             if os.path.exists(self._mod_path):
                 self._cleanup_old_path(self._mod_path, reason="need recompile")
         with lock:
+            if not self._need_recompile():  # check again, now with the lock. other proc might have compiled it meanwhile
+                return
             self._maybe_compile_inner()
 
     def _get_compiler_bin(self):
@@ -299,7 +304,9 @@ class NativeCodeCompiler:
         common_opts += ["-D_GLIBCXX_USE_CXX11_ABI=%i" % (1 if self.use_cxx11_abi else 0)]
         common_opts += ["-D%s=%s" % item for item in sorted(self.c_macro_defines.items())]
         common_opts += ["-g"]
-        opts = common_opts + [self._c_filename, "-o", self._so_filename]
+        # Other procs can use the so-file without the lock, so it must never be incomplete, also not when we crash here.
+        tmp_so_filename = "%s.tmp" % self._so_filename
+        opts = common_opts + [self._c_filename, "-o", tmp_so_filename]
         opts += list(map(self._transform_ld_flag, self.ld_flags))
         cmd_bin = self._get_compiler_bin()
         cmd_args = [cmd_bin] + opts
@@ -321,7 +328,8 @@ class NativeCodeCompiler:
                 print("Your GCC version might be too new. This is a problem with some nvcc versions.")
                 print()
             raise CalledProcessError(returncode=proc.returncode, cmd=cmd_args)
-        assert os.path.exists(self._so_filename)
+        assert os.path.exists(tmp_so_filename)
+        os.replace(tmp_so_filename, self._so_filename)
         with open("%s/compile.log" % self._mod_path, "wb") as f:
             if self.verbose:
                 print("%s: write compile log to: %s" % (self.__class__.__name__, f.name))
-- 
2.43.0


From 8c99227b450bee29e1309400c381f2ffa1cc6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:31 +0000
Subject: [PATCH 67/81] fix: native code cache, do not clean up recently used
 libraries

---
 returnn/util/native_code_compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 3b55315..3a707b5 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -131,7 +131,8 @@ class NativeCodeCompiler:
             if not os.path.exists(so_path):
                 self._cleanup_old_path(full_dir_path, reason="corrupt dir, missing so")
                 continue
-            dt = time.time() - os.path.getmtime(so_path)
+            # The info file is touched on every usage, see _maybe_compile.
+            dt = time.time() - os.path.getmtime(info_path)
             if dt > cleanup_time_limit_secs:
                 self._cleanup_old_path(full_dir_path, reason="%s old" % util.hms(dt))
 
-- 
2.43.0


From b15fcf071f98ccd055b7d1df2913cefa9dcb5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:31 +0000
Subject: [PATCH 68/81] fix: edit_distance_via_next_edit_distance_row when all
 of a is empty

---
 returnn/tf/native_op.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/returnn/tf/native_op.py b/returnn/tf/native_op.py
index c85c30a..136edff 100644
--- a/returnn/tf/native_op.py
+++ b/returnn/tf/native_op.py
@@ -1765,6 +1765,7 @@ def edit_distance_via_next_edit_distance_row(a, a_len, b, b_len, optimal_complet
 
     with tf.name_scope("edit_distance_via_next_edit_distance_row"):
         initial_row = expand_dims_unbroadcast(tf.range(tf.shape(b)[1] + 1), axis=0, dim=tf.shape(b)[0])  # (B,time2+1)
+        initial_row = tf.minimum(initial_row, tf.expand_dims(b_len, axis=1))  # repeat last entry, as in the op
 
         # noinspection PyUnusedLocal
         def cond(i, last_row):
-- 
2.43.0


From b6e15804fa0d263a283e0c471c0b90ddac73c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:21 +0000
Subject: [PATCH 69/81] fix: native code cache, do not clean up a dir where
 another proc just starts to compile

---
 returnn/util/native_code_compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/returnn/util/native_code_compiler.py b/returnn/util/native_code_compiler.py
index 3a707b5..71af458 100644
--- a/returnn/util/native_code_compiler.py
+++ b/returnn/util/native_code_compiler.py
@@ -122,6 +122,12 @@ class NativeCodeCompiler:
             lock = util.LockFile(full_dir_path)
             if lock.is_locked():
                 continue
+            try:
+                dir_mtime = os.path.getmtime(full_dir_path)
+            except OSError:
+                continue  # another proc just removed it
+            if time.time() - dir_mtime < lock.lock_timeout:
+                continue  # recently changed. maybe another proc is just about to lock it and to compile there
             lock.maybe_remove_old_lockfile()
             info_path = "%s/info.py" % full_dir_path
             if not os.path.exists(info_path):
-- 
2.43.0


From c4925520749f7bfbdda17609448ad70f3e8ae9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:10 +0000
Subject: [PATCH 70/81] fix: MultiProcDataset, finish_epoch and meta
 information when the workers are not initialized (yet, or after
 free_resources)

---
 returnn/datasets/multi_proc.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/returnn/datasets/multi_proc.py b/returnn/datasets/multi_proc.py
index a9d6a1e..45a8bcf 100644
--- a/returnn/datasets/multi_proc.py
+++ b/returnn/datasets/multi_proc.py
@@ -316,7 +316,8 @@ class MultiProcDataset(CachedDataset2):
                     parent_conn.send(("num_outputs", dataset.num_outputs))
                     parent_conn.send(("labels", dataset.labels))
                 elif msg == "get_total_num_seqs":
-                    assert dataset
+                    if dataset is None:
+                        dataset = init_dataset(dataset_dict)
                     try:
                         total_num_seqs = dataset.get_total_num_seqs()
                         assert isinstance(total_num_seqs, int)
@@ -324,7 +325,8 @@ class MultiProcDataset(CachedDataset2):
                         total_num_seqs = NotImplementedError(f"{exc} in {dataset}")
                     parent_conn.send(("total_num_seqs", total_num_seqs))
                 elif msg == "get_all_tags":
-                    assert dataset
+                    if dataset is None:
+                        dataset = init_dataset(dataset_dict)
                     try:
                         all_tags = dataset.get_all_tags()
                         assert isinstance(all_tags, list)
@@ -332,11 +334,13 @@ class MultiProcDataset(CachedDataset2):
                         all_tags = NotImplementedError(f"{exc} in {dataset}")
                     parent_conn.send(("all_tags", all_tags))
                 elif msg == "get_data_keys":
-                    assert dataset
+                    if dataset is None:
+                        dataset = init_dataset(dataset_dict)
                     data_keys = dataset.get_data_keys()
                     parent_conn.send(("data_keys", data_keys))
                 elif msg == "get_data_dtypes":
-                    assert dataset
+                    if dataset is None:
+                        dataset = init_dataset(dataset_dict)
                     data_keys = dataset.get_data_keys()
                     parent_conn.send(("data_dtypes", {k: dataset.get_data_dtype(k) for k in data_keys}))
                 elif msg == "init_seq_order":
@@ -494,6 +498,7 @@ class MultiProcDataset(CachedDataset2):
     def get_total_num_seqs(self, *, fast: bool = False) -> int:
         """total num seqs"""
         if self._total_num_seqs is None:
+            self._lazy_init()
             worker = self._seq_order_proc_parent_conn
             worker.send(("get_total_num_seqs", {}))
             msg, self._total_num_seqs = worker.recv()
@@ -508,6 +513,7 @@ class MultiProcDataset(CachedDataset2):
     def get_all_tags(self):
         """all tags"""
         if self._all_tags is None:
+            self._lazy_init()
             worker = self._seq_order_proc_parent_conn
             worker.send(("get_all_tags", {}))
             msg, self._all_tags = worker.recv()
@@ -522,7 +528,7 @@ class MultiProcDataset(CachedDataset2):
     def finish_epoch(self, *, free_resources: bool = False):
         """finish epoch"""
         super().finish_epoch(free_resources=free_resources)
-        for worker_parent_conn in self._worker_parent_conns:
+        for worker_parent_conn in self._worker_parent_conns or []:
             worker_parent_conn.send(("finish_epoch", {"free_resources": free_resources}))
 
     def get_data_keys(self) -> List[str]:
-- 
2.43.0


From 66e26f942763149a875dede79e9ff613af0dfca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 71/81] fix: LmDataset, raw text file, do not lose the last
 line when there is no newline at the end of the file

---
 returnn/datasets/lm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 74f8d1c..352d688 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -383,7 +383,9 @@ class LmDataset(CachedDataset2):
                 while True:
                     next_new_line = file_mmap.find(b"\n", pos)
                     if next_new_line == -1:
-                        break
+                        if pos >= len(file_mmap):
+                            break
+                        next_new_line = len(file_mmap)  # last line without newline at the end
                     line_len = next_new_line - pos
                     if line_len or not self._skip_empty_lines:
                         orths.append((file_index, pos, line_len))
-- 
2.43.0


From b7a1f23820a3da1885a833a8a95998c3012e8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 72/81] fix: LmDataset, num seqs is not known in advance when
 invalid seqs are skipped (error_on_invalid_seq=False)

---
 returnn/datasets/lm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 352d688..825f7bd 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -502,7 +502,10 @@ class LmDataset(CachedDataset2):
                 num_seqs=len(self._orths_offsets_and_lens),
                 get_seq_len=lambda i: self._orths_offsets_and_lens[i][2],
             )
-        self._num_seqs = len(self.seq_order)
+        if self.error_on_invalid_seq or self.orth_vocab is not None:
+            self._num_seqs = len(self.seq_order)
+        else:
+            self._num_seqs = None  # unknown, as we might skip some seqs
         self.next_orth_idx = 0
         self.next_seq_idx = 0
         self.num_skipped = 0
-- 
2.43.0


From 183bfed6b863545363447bdf2d2b73d310de7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 73/81] fix: TranslationDataset, seq_list_file contains line
 numbers, not seq tags

---
 returnn/datasets/lm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 825f7bd..6641d45 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1748,8 +1748,8 @@ class TranslationDataset(CachedDataset2):
         """
         super(TranslationDataset, self).init_seq_order(epoch=epoch, seq_list=seq_list, seq_order=seq_order)
 
-        if seq_list is None and self.seq_list:
-            seq_list = self.seq_list
+        if seq_order is None and seq_list is None and self.seq_list:
+            seq_order = self.seq_list  # via seq_list_file, line numbers
         if seq_order is not None:
             self._seq_order = seq_order
         elif seq_list is not None:
-- 
2.43.0


From 3e5a74146c435686baa62b124dd47cc6dd295efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 74/81] fix: TranslationDataset.get_all_tags, independent of
 how much is loaded so far

---
 returnn/datasets/lm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 6641d45..63d639f 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1704,7 +1704,7 @@ class TranslationDataset(CachedDataset2):
         """
         :rtype: list[str]
         """
-        return [self._tag_prefix + str(line_nr) for line_nr in range(len(self._data[self.main_source_data_key]))]
+        return [self._tag_prefix + str(line_nr) for line_nr in range(self._get_data_len())]
 
     def get_corpus_seq_idx(self, seq_idx):
         """
-- 
2.43.0


From 8cbe960eab62d6a277d2ab0db33310e6baed7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 75/81] fix: TranslationDataset.get_data_dim, source and target
 (and factor) vocabs can be different

---
 returnn/datasets/lm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/returnn/datasets/lm.py b/returnn/datasets/lm.py
index 63d639f..7457107 100644
--- a/returnn/datasets/lm.py
+++ b/returnn/datasets/lm.py
@@ -1722,11 +1722,13 @@ class TranslationDataset(CachedDataset2):
         """
         return True  # all is sparse
 
-    def get_data_dim(self, _key: str) -> int:
+    def get_data_dim(self, key: str) -> int:
         """
-        :return: the data dim of data entry `_key`
+        :return: the data dim of data entry `key`
         """
-        return self.num_inputs  # same dim for all keys
+        if key in self.num_outputs:
+            return self.num_outputs[key][0]  # the vocabs can be different
+        return self.num_inputs
 
     def get_data_dtype(self, key):
         """
-- 
2.43.0


From bd87720d9451212e25a6126845b5024cd10e457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:36 +0000
Subject: [PATCH 76/81] fix: Vocabulary.to_id, return the default for an
 invalid label id

---
 returnn/datasets/util/vocabulary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/util/vocabulary.py b/returnn/datasets/util/vocabulary.py
index 18d3364..9327cdc 100644
--- a/returnn/datasets/util/vocabulary.py
+++ b/returnn/datasets/util/vocabulary.py
@@ -270,7 +270,7 @@ class Vocabulary:
                 return label
             if default is KeyError:
                 raise KeyError("invalid label id %i" % label)
-            return None
+            return default
         if label is None and allow_none:
             return None
         raise TypeError("invalid label type %r" % type(label))
-- 
2.43.0


From 30fcd840a1aeceaa2812e584f4b674084792d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 77/81] fix: lru_cache, cache_set_maxsize(0) by another thread
 while a result is inserted

---
 returnn/util/lru_cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/returnn/util/lru_cache.py b/returnn/util/lru_cache.py
index 9baefb0..fa20858 100644
--- a/returnn/util/lru_cache.py
+++ b/returnn/util/lru_cache.py
@@ -111,8 +111,9 @@ def _lru_cache_wrapper(user_function, maxsize: int, typed: bool):
     def _cache_insert(key, result):
         nonlocal root, full
         with lock:
-            if key in cache:
-                # Getting here means that this same key was added to the
+            if maxsize <= 0 or key in cache:
+                # The cache could have been disabled by another thread via cache_set_maxsize meanwhile.
+                # Otherwise, getting here means that this same key was added to the
                 # cache while the lock was released.  Since the link
                 # update is already done, we need only return the
                 # computed result and update the count of misses.
-- 
2.43.0


From 8f3716508ff5f41625b5630d00ce3480186538d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 78/81] fix: Dataset.iterate_seqs, chunking, streams with at
 most one frame dropped all but the first chunk

---
 returnn/datasets/basic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 8f4a5bc..96d51a2 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -1227,7 +1227,13 @@ class Dataset:
                         chunk_end.value = None
                     yield s, chunk_start, chunk_end
                     t += chunk_step
-                    if any([length[key] - t[key] <= self.min_chunk_size[key] for key in length.keys()]):
+                    if any(
+                        [
+                            length[key] - t[key] <= self.min_chunk_size[key]
+                            for key in length.keys()
+                            if key not in keys_with_full_seqs
+                        ]
+                    ):
                         break
             s += 1
 
-- 
2.43.0


From ed3e3603b310a52da46766a43f9dd05c5c74c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 79/81] fix: Dataset batches, max_total_num_seqs allowed one
 seq more

---
 returnn/datasets/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/returnn/datasets/basic.py b/returnn/datasets/basic.py
index 96d51a2..aefcd21 100644
--- a/returnn/datasets/basic.py
+++ b/returnn/datasets/basic.py
@@ -1309,7 +1309,7 @@ class Dataset:
         for seq_idx, t_start, t_end in self.iterate_seqs(recurrent_net=recurrent_net, used_data_keys=used_data_keys):
             if not self.sample(seq_idx):
                 continue
-            if total_num_seqs > max_total_num_seqs:
+            if seq_idx != last_seq_idx and total_num_seqs >= max_total_num_seqs:
                 break
             t_start -= self.ctx_left
             t_end += self.ctx_right
-- 
2.43.0


From 0d414d65026e476a171ca1e6057c8e6885602fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:40 +0000
Subject: [PATCH 80/81] fix: rf.scatter, padded frames must not have any
 influence with fill_value or mode argmax/logmeanexp; int dtypes with mode
 max/min

---
 returnn/frontend/array_.py | 54 +++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/returnn/frontend/array_.py b/returnn/frontend/array_.py
index 0861467..504e396 100644
--- a/returnn/frontend/array_.py
+++ b/returnn/frontend/array_.py
@@ -832,40 +832,58 @@ def scatter(
             source, indices=indices, indices_dim=indices_dim, fill_value=fill_value, out_dim=out_dim
         )
     if mode == "argmax":
-        return scatter_argmax(source, indices=indices, indices_dim=indices_dim, invalid_idx=fill_value, out_dim=out_dim)
+        return scatter_argmax(
+            source,
+            indices=indices,
+            indices_dim=indices_dim,
+            invalid_idx=fill_value if fill_value is not None else -1,
+            out_dim=out_dim,
+        )
     if not out_dim:
         assert isinstance(indices, Tensor) and indices.sparse_dim
         out_dim = indices.sparse_dim
+    # neutral element of the reduction
+    if mode == "sum":
+        neutral_value = 0
+    elif mode == "max":
+        neutral_value = numpy.iinfo(source.dtype).min if "int" in source.dtype else float("-inf")
+    elif mode == "min":
+        neutral_value = numpy.iinfo(source.dtype).max if "int" in source.dtype else float("inf")
+    else:
+        raise ValueError(f"scatter: invalid mode {mode!r}")
     if fill_value is None:
-        if mode == "sum":
-            fill_value = 0
-        elif mode == "max":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).min
-            else:
-                fill_value = float("-inf")
-        elif mode == "min":
-            if "int" in source.dtype:
-                fill_value = numpy.iinfo(source.raw_tensor.dtype).max
-            else:
-                fill_value = float("inf")
-        else:
-            raise ValueError(f"scatter: invalid mode {mode!r}")
+        fill_value = neutral_value
     indices_dim = indices_dim if isinstance(indices_dim, (list, tuple)) else [indices_dim]
+    used = None
     if any(dim.need_masking() for dim in indices_dim):
         if use_mask is None:
             use_mask = rf.use_mask_default(default=True, default_false_for_behavior_version_up_to=22)
         if use_mask:
-            source = source.copy_masked(fill_value, dims=indices_dim)
+            # The padded frames must not have any influence.
+            source = source.copy_masked(neutral_value, dims=indices_dim)
+            if isinstance(fill_value, Tensor) or fill_value != neutral_value:
+                used = rf.ones(dims=indices.dims, dtype="int32", device=source.device)
+                used = used.copy_masked(0, dims=indices_dim)
+                # noinspection PyProtectedMember
+                used = source._raw_backend.scatter(
+                    used, indices=indices, indices_dim=indices_dim, mode="sum", fill_value=0, out_dim=out_dim
+                )
     else:
         use_mask = False
     # noinspection PyProtectedMember
     out = source._raw_backend.scatter(
-        source, indices=indices, indices_dim=indices_dim, mode=mode, fill_value=fill_value, out_dim=out_dim
+        source,
+        indices=indices,
+        indices_dim=indices_dim,
+        mode=mode,
+        fill_value=neutral_value if used is not None else fill_value,
+        out_dim=out_dim,
     )
+    if used is not None:
+        out = rf.where(used > 0, out, fill_value)
     if use_mask and mode != "sum":
         # Make sure we don't leave any infinities in the output.
-        out = out.copy_masked(0, dims=[out_dim])
+        out = out.copy_masked(0, dims=out_dim if isinstance(out_dim, (list, tuple)) else [out_dim])
     return out
 
 
-- 
2.43.0


From 526d397140ef704bdf89b8f8ac49651257f51970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:24 +0000
Subject: [PATCH 81/81] fix: Dim math, sum minus a product with a common
 factor, also with nested products

---
 returnn/tensor/_dim_extra.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/returnn/tensor/_dim_extra.py b/returnn/tensor/_dim_extra.py
index 604bbfb..d3e5f76 100644
--- a/returnn/tensor/_dim_extra.py
+++ b/returnn/tensor/_dim_extra.py
@@ -2472,7 +2472,14 @@ class _OpMultTerm:
 
     def has_negative_factor(self) -> bool:
         """:return: whether there is a negative constant factor"""
-        return any(f.is_constant_static_dim() and f.dimension < 0 for f in self.terms)
+        queue = list(self.terms)
+        while queue:
+            f = queue.pop()
+            if f.derived_from_op and f.derived_from_op.kind == "mul":  # e.g. (-1*T)*S
+                queue.extend(f.derived_from_op.inputs)
+            elif f.is_constant_static_dim() and f.dimension < 0:
+                return True
+        return False
 
     @property
     def dimension(self) -> Optional[int]:
-- 
2.43.0

