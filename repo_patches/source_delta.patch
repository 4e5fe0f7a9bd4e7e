From d01fe50401315502f50819aed66442589b8dd4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 01/54] fix: cross_validation timing no longer requires a CUDA
 device

---
 irtorch/timer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irtorch/timer.py b/irtorch/timer.py
index 6687f53..a1a2b12 100644
--- a/irtorch/timer.py
+++ b/irtorch/timer.py
@@ -11,9 +11,10 @@ def start_timer():
     """
     global START_TIME
     gc.collect()
-    torch.cuda.empty_cache()
-    torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.empty_cache()
+        torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
+        torch.cuda.synchronize()
     START_TIME = time.time()
 
 def end_timer_and_print(local_msg):
@@ -21,7 +22,9 @@ def end_timer_and_print(local_msg):
     End the timer and print the execution time and memory usage.
     """
     end_time = time.time()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.synchronize()
     logger.info("\n%s", local_msg)
     logger.info("Total execution time = %s sec", end_time - START_TIME)
-    logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
+    if torch.cuda.is_available():
+        logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
-- 
2.43.0


From a66b49973485f37a5a6e14309daa50e5d89deadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 02/54] fix: cross_validation trains every fold from the
 untrained model

---
 irtorch/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 913f703..4383856 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -180,7 +180,8 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
             if "algorithm" in fold_params:
                 algorithm = copy.deepcopy(fold_params.pop("algorithm"))
             
-            result = _cv_fold(model, train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
+            # each fold starts from the untrained model, otherwise it has already seen its validation data
+            result = _cv_fold(copy.deepcopy(model), train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
             
             # Add algorithm back to result if it was present
             if algorithm is not None:
-- 
2.43.0


From 0e1ac20b386a3b393b4ab9cd6d1adb080a548406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 03/54] fix: cross_validation keeps non-numeric hyperparameters
 as they are

---
 irtorch/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 4383856..fb0efb5 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -189,13 +189,9 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
                 
             results.append(result)
         
-        # Average results across folds, excluding non-numeric values
-        avg_result = {}
-        for k in results[0].keys():
-            if k == "algorithm":
-                avg_result[k] = results[0][k]  # Just take the first one
-            else:
-                avg_result[k] = sum(d[k] for d in results) / len(results)
+        # Average the score across folds. Hyperparameters are the same in every fold and kept as they are.
+        avg_result = dict(results[0])
+        avg_result["log_likelihood"] = sum(d["log_likelihood"] for d in results) / len(results)
         
         return avg_result
     except Exception as e:
-- 
2.43.0


From 0f4dd6b53f54865903445add38f4a36992926007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 04/54] fix: cross_validation does not change the global
 multiprocessing start method

---
 irtorch/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index fb0efb5..506193b 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -126,7 +126,7 @@ def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, devic
     
     try:
         logger.info(f"Attempting to initialize multiprocessing with {cores_to_use} cores")
-        mp.set_start_method('spawn', force=True)
+        spawn_context = mp.get_context("spawn") # leaves the global start method unchanged
         
         jobs = []
         for params in param_dicts:
@@ -137,7 +137,7 @@ def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, devic
             threads_per_worker = max(1, original_threads // cores_to_use)
             torch.set_num_threads(threads_per_worker)
             
-            with mp.Pool(cores_to_use) as pool:
+            with spawn_context.Pool(cores_to_use) as pool:
                 results = pool.starmap(_cv_param_combination, jobs)
             
             logger.info("Multiprocessing completed successfully")
-- 
2.43.0


From a3641aa84c1789bba0a3a8fc1fa6d80bb8949bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 05/54] fix: inverse_transform_theta undoes the scale
 transformations in reverse order

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5396808..ee71892 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -159,7 +159,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A 2D tensor containing original theta scores. Each column represents one latent variable.
         """
-        for scale in self.scale:
+        for scale in reversed(self.scale):
             transformed_theta = scale.inverse(transformed_theta)
         return transformed_theta
 
-- 
2.43.0


From 9231bf10ae5ab1fab109be31f59f13473d16750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 06/54] fix: parallel fits draw their randomness from per-job
 seeds instead of the state of the worker process

---
 irtorch/utils.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 506193b..9fe8673 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -104,14 +104,15 @@ def cross_validation(
 
     data_folds = _prepare_cross_validation_data(data, folds)
     param_dicts = _create_param_grid(params_grid, kwargs)
+    seeds = _draw_job_seeds(len(param_dicts))
     
     logger.info(f"Performing cross-validation with {len(param_dicts)} parameter combinations")
     start_timer()
     
     results = (
-        _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, device, cores_to_use)
+        _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, device, cores_to_use, seeds)
         if device == "cpu" and multiprocessing
-        else _run_sequential(model, data_folds, param_dicts, theta_estimation, device)
+        else _run_sequential(model, data_folds, param_dicts, theta_estimation, device, seeds)
     )
 
     end_timer_and_print("Cross-validation completed")
@@ -120,7 +121,11 @@ def cross_validation(
     results_df.drop(list(kwargs.keys()), axis=1, inplace=True)
     return results_df
 
-def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, device, cores_to_use):
+def _draw_job_seeds(jobs: int) -> list[int]:
+    """Draw one seed per job, so that the results do not depend on which process runs which job."""
+    return torch.randint(0, 2**31 - 1, (jobs,)).tolist()
+
+def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, device, cores_to_use, seeds):
     if cores_to_use is None:
         cores_to_use = min(mp.cpu_count(), len(param_dicts))
     
@@ -129,8 +134,8 @@ def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, devic
         spawn_context = mp.get_context("spawn") # leaves the global start method unchanged
         
         jobs = []
-        for params in param_dicts:
-            jobs.append((copy.deepcopy(model), data_folds, params, theta_estimation, device))
+        for params, seed in zip(param_dicts, seeds):
+            jobs.append((copy.deepcopy(model), data_folds, params, theta_estimation, device, seed))
         
         original_threads = torch.get_num_threads()
         try:
@@ -147,11 +152,11 @@ def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, devic
             
     except Exception as e:
         logger.warning(f"Multiprocessing initialization failed with error: {str(e)}. Falling back to sequential processing.")
-        return _run_sequential(model, data_folds, param_dicts, theta_estimation, device)
+        return _run_sequential(model, data_folds, param_dicts, theta_estimation, device, seeds)
 
     return results
 
-def _run_sequential(model, data_folds, param_dicts, theta_estimation, device):
+def _run_sequential(model, data_folds, param_dicts, theta_estimation, device, seeds):
     logger.info("Using sequential processing")
     return [
         _cv_param_combination(
@@ -159,13 +164,19 @@ def _run_sequential(model, data_folds, param_dicts, theta_estimation, device):
             data_folds, 
             params, 
             theta_estimation, 
-            device
+            device,
+            seed
         )
-        for params in param_dicts
+        for params, seed in zip(param_dicts, seeds)
     ]
 
-def _cv_param_combination(model, data_folds, params, theta_estimation, device):
+def _cv_param_combination(model, data_folds, params, theta_estimation, device, seed):
     """Worker function for cross-validation parameter combinations."""
+    with torch.random.fork_rng():
+        torch.manual_seed(seed)
+        return _cv_param_combination_seeded(model, data_folds, params, theta_estimation, device)
+
+def _cv_param_combination_seeded(model, data_folds, params, theta_estimation, device):
     try:
         results = []
         for i, validation_fold in enumerate(data_folds):
@@ -495,22 +506,25 @@ def fit_multiple_models_cpu(
         cores_to_use = min(len(models), mp.cpu_count())
 
     print(f"Using {cores_to_use} cores")
+    seeds = _draw_job_seeds(len(models))
     original_threads = torch.get_num_threads()
     try:
         # Ensure each subprocess uses a single thread for PyTorch.
         torch.set_num_threads(1)
         with mp.Pool(cores_to_use) as pool:
-            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs) for model in models])
+            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs, seed) for model, seed in zip(models, seeds)])
     finally:
         torch.set_num_threads(original_threads)
 
     return trained_models
 
-def _fit_model(model: BaseIRTModel, train_data: torch.Tensor, kwargs):
+def _fit_model(model: BaseIRTModel, train_data: torch.Tensor, kwargs, seed: int):
     """
     This is a worker function used in multiprocessing
     """
-    model.fit(train_data, device="cpu", **kwargs)
+    with torch.random.fork_rng():
+        torch.manual_seed(seed)
+        model.fit(train_data, device="cpu", **kwargs)
     return model
 
 def split_data(data, train_ratio=0.8, shuffle=True):
-- 
2.43.0


From 4faf93ffc3f7f52428a14d721248f6224e7bf5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 07/54] fix: fit_multiple_models_cpu does not train the
 supplied models in place through shared memory

---
 irtorch/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 9fe8673..3d5b8b9 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -524,6 +524,8 @@ def _fit_model(model: BaseIRTModel, train_data: torch.Tensor, kwargs, seed: int)
     """
     with torch.random.fork_rng():
         torch.manual_seed(seed)
+        # tensors are shared with the parent process, so the supplied model itself is not trained in place
+        model = copy.deepcopy(model)
         model.fit(train_data, device="cpu", **kwargs)
     return model
 
-- 
2.43.0


From 29d0de19c281b1a31a019e074b2c80c6aff22cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 08/54] fix: save_model never destroys the previously saved
 model when it is interrupted

---
 irtorch/_internal_utils.py       | 40 ++++++++++++++++++++++++++++++++
 irtorch/models/base_irt_model.py |  9 +++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6bc655d..3e16a25 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -1,5 +1,45 @@
+from contextlib import contextmanager
+import os
+import shutil
+import uuid
 import torch
 
+@contextmanager
+def atomic_write(path: str):
+    """
+    Open a file for binary writing. It replaces ``path`` once everything is written and stored on disk. 
+    Until then, or if anything goes wrong, whatever was stored in ``path`` before is kept as it was.
+
+    Parameters
+    -----------
+    path : str
+        The file to write.
+
+    Yields
+    -----------
+    BinaryIO
+        The file to write the new content into.
+    """
+    path = os.path.realpath(path)
+    if os.path.exists(path) and not os.path.isfile(path): # e.g. a named pipe
+        with open(path, "wb") as file:
+            yield file
+        return
+    directory, name = os.path.split(path)
+    temporary_path = os.path.join(directory, f".{name}.{uuid.uuid4().hex[:8]}.tmp")
+    try:
+        with open(temporary_path, "wb") as file:
+            yield file
+            file.flush()
+            os.fsync(file.fileno())
+        if os.path.exists(path):
+            shutil.copymode(path, temporary_path)
+        os.replace(temporary_path, path)
+    except BaseException:
+        if os.path.exists(temporary_path):
+            os.remove(temporary_path)
+        raise
+
 def linear_regression(x, y):
     """
     Performs linear regression.
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index ee71892..c33ead0 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -2,11 +2,12 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 from abc import ABC, abstractmethod
 import logging
+import os
 import torch
 from torch import nn
 from torch.distributions import MultivariateNormal
 import torch.nn.functional as F
-from irtorch._internal_utils import linear_regression, impute_missing_internal, dynamic_print, one_hot_encode_test_data, get_missing_mask
+from irtorch._internal_utils import linear_regression, impute_missing_internal, dynamic_print, one_hot_encode_test_data, get_missing_mask, atomic_write
 
 if TYPE_CHECKING:
     from irtorch.rescale.scale import Scale
@@ -982,7 +983,11 @@ class BaseIRTModel(ABC, nn.Module):
             "algorithm": self.algorithm,
             "scales": self.scale,
         }
-        torch.save(to_save, path)
+        if isinstance(path, (str, os.PathLike)):
+            with atomic_write(path) as file:
+                torch.save(to_save, file)
+        else:
+            torch.save(to_save, path)
 
     def load_model(self, path: str) -> None:
         """
-- 
2.43.0


From 39063a24ac3a489ba8a651697cc2cad538e75e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 09/54] fix: an interrupted big_five download never leaves a
 partially written cache behind

---
 irtorch/load_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/load_dataset.py b/irtorch/load_dataset.py
index b8a45f5..4fd782f 100644
--- a/irtorch/load_dataset.py
+++ b/irtorch/load_dataset.py
@@ -7,6 +7,7 @@ import tempfile
 import pickle
 import torch
 import pandas as pd
+from irtorch._internal_utils import atomic_write
 
 logger = logging.getLogger("irtorch")
 
@@ -269,7 +270,7 @@ def big_five() -> torch.Tensor:
         data = data - 1 # code first option as 0, second as 1, etc.
         torch_data = torch.tensor(data.to_numpy(), dtype=torch.float32)
         # Save preprocessed data to cache
-        with open(processed_data_path, "wb") as f:
+        with atomic_write(processed_data_path) as f:
             pickle.dump((torch_data, original_data), f)
 
     try:
-- 
2.43.0


From 788fd31d642281926d76e2285e8c4e5824d96afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 10/54] fix: load_model leaves the model unchanged when the
 file does not fit the model

---
 irtorch/models/base_irt_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index c33ead0..8a3a9b9 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -999,7 +999,12 @@ class BaseIRTModel(ABC, nn.Module):
             Where to load fitted model from.
         """
         checkpoint = torch.load(path, weights_only=False)
-        self.load_state_dict(checkpoint["model_state_dict"])
+        previous_state = {name: value.clone() for name, value in self.state_dict().items()}
+        try:
+            self.load_state_dict(checkpoint["model_state_dict"])
+        except BaseException:
+            self.load_state_dict(previous_state) # do not leave the model partially loaded
+            raise
         if "algorithm" in checkpoint:
             self.algorithm = checkpoint["algorithm"]
         if "scales" in checkpoint:
-- 
2.43.0


From 020b1e00806a1606aa9f230937457c8cf21b4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 11/54] fix: one-hot encoding does not overwrite the missing
 responses in the data of the caller

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 3e16a25..988f80b 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -393,7 +393,7 @@ def one_hot_encode_test_data(
             "The number of columns in the data tensor must match the length of the item_categories list."
         )
     if data.isnan().any():
-        data[data.isnan()] = -1
+        data = torch.where(data.isnan(), -1.0, data) # not in place as the data belongs to the caller
 
     one_hot_list = []
     if data.dtype != torch.long:
-- 
2.43.0


From b633da929f71feb29b13f9a83580488e71355b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 12/54] fix: residuals does not overwrite the missing responses
 in the data of the caller

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c23c899..f11cf9a 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -172,7 +172,7 @@ class Evaluator:
         data, theta, _ = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         missing_mask = get_missing_mask(data)
-        data[torch.isnan(data)] = -1
+        data = torch.where(torch.isnan(data), -1.0, data) # not in place as the data belongs to the caller
         if self.model.mc_correct is not None:
             # 3D tensor with dimensions (respondents, items, item categories)
             probabilities = self.model.item_probabilities(theta)
-- 
2.43.0


From 91c3ef9af77272a66422710f68d36050c2058add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 13/54] fix: gradient computations do not change requires_grad
 of the supplied theta scores

---
 irtorch/models/base_irt_model.py | 4 +---
 irtorch/rescale/bit.py           | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 8a3a9b9..e4183f7 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -335,9 +335,7 @@ class BaseIRTModel(ABC, nn.Module):
         The last line gives us a linear equation that is solved using `torch.linalg.solve` to get :math:`\nabla_{\boldsymbol{\theta}} \mathbb{E}(X_j|\boldsymbol{\theta})`.
         This is more efficient as computing :math:`\mathbf{J}^{-1}_f` is not needed.
         """
-        if theta.requires_grad:
-            theta.requires_grad_(False)
-
+        theta = theta.detach()
         gradients = torch.zeros(theta.shape[0], len(self.item_categories), theta.shape[1])
         theta_scores = theta.clone()
         theta_scores.requires_grad_(True)
diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 355c115..2b1f746 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -243,9 +243,7 @@ class Bit(Scale):
             A torch tensor with the gradients for each theta score. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         if self.model.latent_variables == 1:
-            if theta.requires_grad:
-                theta.requires_grad_(False)
-
+            theta = theta.detach()
             probs = self.model.item_probabilities(theta)
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
-- 
2.43.0


From c0cc07d01d5d5f51cf6f90affdcc5e72a8eb1f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 14/54] fix: an interrupted MML fit does not leave the
 precomputed spline basis in the model

---
 irtorch/estimation_algorithms/mml.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index f36849d..f9ad517 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -133,16 +133,21 @@ class MML(BaseIRTAlgorithm):
         )
 
         model.to(device)
-        self._training_loop(
-            model,
-            train_data.to(device),
-            max_epochs,
-            points.to(device, dtype = torch.float32),
-            log_weights.to(device, dtype = torch.float32),
-            scheduler,
-            learning_rate_updates_before_stopping
-        )
-        
+        try:
+            self._training_loop(
+                model,
+                train_data.to(device),
+                max_epochs,
+                points.to(device, dtype = torch.float32),
+                log_weights.to(device, dtype = torch.float32),
+                scheduler,
+                learning_rate_updates_before_stopping
+            )
+        finally:
+            # remove basis functions for spline models also when the training was interrupted
+            if getattr(model, "basis", None) is not None:
+                model.basis = None
+
         model.to("cpu")
         model.eval()
 
-- 
2.43.0


From 2573a727524d0e32c85902ca376ba4a1754c0e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 15/54] fix: latent_scores restores requires_grad of each
 parameter and reports the original error when it fails

---
 irtorch/models/base_irt_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index e4183f7..39cef2f 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -783,6 +783,8 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A torch.Tensor with the theta scores. The columns are latent variables and rows are respondents.
         """
+        requires_grad = [parameter.requires_grad for parameter in self.parameters()]
+        iteration = 0
         try:
             if theta_estimation == "MAP": # Approximate prior
                 if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
@@ -829,6 +831,7 @@ class BaseIRTModel(ABC, nn.Module):
                 return loss
 
             for i in range(max_iter):
+                iteration = i + 1
                 optimizer.step(closure)
                 with torch.no_grad():
                     forward_output = self(optimized_theta_scores)
@@ -846,14 +849,14 @@ class BaseIRTModel(ABC, nn.Module):
 
                 loss_history.append(loss)
         except Exception as e:
-            logger.error("Error in %s iteration %s: %s", theta_estimation, i+1, e)
+            logger.error("Error in %s iteration %s: %s", theta_estimation, iteration, e)
             raise e
         finally:
-            # Reset requires_grad train model later
+            # Reset requires_grad to train model later
             self.to("cpu")
-            optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
-            self.requires_grad_(True)
-        return optimized_theta_scores
+            for parameter, required in zip(self.parameters(), requires_grad):
+                parameter.requires_grad_(required)
+        return optimized_theta_scores.detach().to("cpu")
 
     @torch.no_grad()
     def _eap_theta_scores(self, data: torch.Tensor, grid_points: int = None) -> torch.Tensor:
-- 
2.43.0


From ffa79de9df3557bd0ac9c9b1d9ef0c04491e7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 16/54] fix: EAP latent scores work for models fitted with MML

---
 irtorch/models/base_irt_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 39cef2f..1d86552 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -886,7 +886,10 @@ class BaseIRTModel(ABC, nn.Module):
                 4: 5
             }.get(self.latent_variables, 15)
 
-        if hasattr(self.algorithm, "training_theta_scores"):
+        covariance_matrix = getattr(self.algorithm, "covariance_matrix", None)
+        if hasattr(self.algorithm, "training_theta_scores") and (
+            self.algorithm.training_theta_scores is not None or covariance_matrix is None
+        ):
             if self.algorithm.training_theta_scores is None:
                 raise ValueError("Please fit the model before computing latent scores.")
             train_theta_scores = self.algorithm.training_theta_scores.to("cpu")
@@ -903,8 +906,8 @@ class BaseIRTModel(ABC, nn.Module):
                 columns = [grid_values[:, i] for i in range(grid_values.size(1))]
                 theta_grid = torch.cartesian_prod(*columns)
 
-            if hasattr(self.algorithm, "covariance_matrix"):
-                cov_matrix = self.algorithm.covariance_matrix
+            if covariance_matrix is not None:
+                cov_matrix = covariance_matrix
             else:
                 cov_matrix = torch.eye(self.latent_variables)
 
-- 
2.43.0


From 17b983cab5b01ca7dec6eb53e99d4558705087f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 17/54] fix: initial theta scores from the training data work
 for all model output shapes

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 1d86552..874519c 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -666,7 +666,7 @@ class BaseIRTModel(ABC, nn.Module):
             init_data = data.repeat_interleave(training_thetas.shape[0], dim=0)
             missing_mask = missing_mask.repeat_interleave(training_thetas.shape[0], dim=0)
 
-            logits = logits.repeat(data.shape[0], 1)
+            logits = logits.repeat(data.shape[0], *[1] * (logits.dim() - 1))
             lls = self.log_likelihood(init_data, logits, missing_mask, loss_reduction="none")
             lls = lls.view(logits.shape[0], -1).nansum(dim=1)
             lls = lls.view(data.shape[0], -1)
-- 
2.43.0


From 0f5da7743cff9b2c1bea1223b22446ae4c0f3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 18/54] fix: training never restores parameters that were
 destroyed by non-finite gradients

---
 irtorch/_internal_utils.py           | 16 ++++++++++++++++
 irtorch/estimation_algorithms/ae.py  |  4 ++--
 irtorch/estimation_algorithms/jml.py |  4 ++--
 irtorch/estimation_algorithms/mml.py |  4 ++--
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 988f80b..72c2ea4 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -40,6 +40,22 @@ def atomic_write(path: str):
             os.remove(temporary_path)
         raise
 
+def parameters_are_finite(*modules: torch.nn.Module) -> bool:
+    """
+    Check that a training step did not destroy the parameters, which happens when the gradients are not finite.
+
+    Parameters
+    -----------
+    *modules : torch.nn.Module
+        The modules to check.
+
+    Returns
+    -----------
+    bool
+        Whether all parameters of all modules are finite.
+    """
+    return all(parameter.isfinite().all() for module in modules for parameter in module.parameters())
+
 def linear_regression(x, y):
     """
     Performs linear regression.
diff --git a/irtorch/estimation_algorithms/ae.py b/irtorch/estimation_algorithms/ae.py
index 704dd6e..af43ffd 100644
--- a/irtorch/estimation_algorithms/ae.py
+++ b/irtorch/estimation_algorithms/ae.py
@@ -6,7 +6,7 @@ import numpy as np
 from irtorch.models import BaseIRTModel
 from irtorch.estimation_algorithms import BaseIRTAlgorithm
 from irtorch.estimation_algorithms.encoders import StandardEncoder
-from irtorch._internal_utils import dynamic_print
+from irtorch._internal_utils import dynamic_print, parameters_are_finite
 from irtorch.irt_dataset import PytorchIRTDataset
 
 logger = logging.getLogger("irtorch")
@@ -254,7 +254,7 @@ class AE(BaseIRTAlgorithm):
                     self.lr_update_count += 1
                     learning_rate = self.optimizer.param_groups[0]['lr']
                 
-                if mean_loss < self.best_avg_loss[0]:
+                if mean_loss < self.best_avg_loss[0] and parameters_are_finite(model, self.encoder):
                     self.best_avg_loss = mean_loss, self.total_iterations
                     self.best_model_state = {
                         "state_dict_model": copy.deepcopy(model.state_dict()),
diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index a5f0aa2..d6c109f 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -2,7 +2,7 @@ import logging
 import copy
 import torch
 from irtorch.models import BaseIRTModel
-from irtorch._internal_utils import dynamic_print, sum_score
+from irtorch._internal_utils import dynamic_print, parameters_are_finite, sum_score
 from irtorch.irt_dataset import PytorchIRTDataset
 from irtorch.estimation_algorithms import BaseIRTAlgorithm
 
@@ -166,7 +166,7 @@ class JML(BaseIRTAlgorithm):
                 scheduler.step(train_loss)
                 dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
 
-                if current_loss < best_loss:
+                if current_loss < best_loss and parameters_are_finite(model) and self.training_theta_scores.isfinite().all():
                     best_loss = current_loss
                     best_epoch = epoch
                     best_model_state = {
diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index f9ad517..77a0efd 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -4,7 +4,7 @@ import torch
 from torch.distributions import MultivariateNormal
 from irtorch.models import BaseIRTModel, MonotoneBSpline, NestedLogit, MonotoneBSpline
 from irtorch.utils import gauss_hermite
-from irtorch._internal_utils import dynamic_print
+from irtorch._internal_utils import dynamic_print, parameters_are_finite
 from irtorch.irt_dataset import PytorchIRTDataset
 from irtorch.estimation_algorithms import BaseIRTAlgorithm
 
@@ -211,7 +211,7 @@ class MML(BaseIRTAlgorithm):
             scheduler.step(train_loss)
             dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
 
-            if current_loss < best_loss:
+            if current_loss < best_loss and parameters_are_finite(model):
                 best_loss = current_loss
                 best_epoch = epoch
                 best_model_state = { "state_dict": copy.deepcopy(model.state_dict()),
-- 
2.43.0


From 7eb510c926c699ccf26e721b6c62a837f46ec670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 19/54] fix: sum_score_probabilities does not reuse the latent
 density of another population

---
 irtorch/evaluator.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index f11cf9a..b17e7fc 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1117,6 +1117,7 @@ class Evaluator:
         population_data: torch.Tensor,
         trapezoidal_segments: int,
     ):
+        explicit_latent_density = self.latent_density
         if population_data is not None or (
             (
                 latent_density_method != "qmvn"
@@ -1127,9 +1128,16 @@ class Evaluator:
                 or not isinstance(self.latent_density, GaussianMixtureModel)
             )
         ):
-            self.approximate_latent_density(
-                theta_scores=theta_scores, approximation=latent_density_method
-            )
+            try:
+                self.approximate_latent_density(
+                    theta_scores=theta_scores, approximation=latent_density_method
+                )
+                latent_density = self.latent_density
+            finally:
+                # this approximation is for the current population and model only
+                self.latent_density = explicit_latent_density
+        else:
+            latent_density = self.latent_density
 
         # get the min/max points for integration
         min_theta, max_theta = self._min_max_theta_for_integration(theta_scores)
@@ -1147,7 +1155,7 @@ class Evaluator:
             # Add an extra dimension for 1D models to make it a 2D tensor with 1 column
             theta_scores = theta_scores.unsqueeze(1)
 
-        weights = self.latent_density.pdf(theta_scores)
+        weights = latent_density.pdf(theta_scores)
         weights = weights / weights.sum()
 
         return theta_scores, weights
\ No newline at end of file
-- 
2.43.0


From 2dc199c6f336899e2d097f877d78c03a5ae75ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 20/54] fix: JML can be fitted to data with missing responses

---
 irtorch/_internal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 72c2ea4..ce791db 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -510,7 +510,7 @@ def sum_score(data: torch.Tensor, mc_correct: list[int] = None):
     Parameters
     ----------
     data : torch.Tensor
-        A 2D tensor where each row is a response vector and each column is an item.
+        A 2D tensor where each row is a response vector and each column is an item. Missing responses (nan or -1) do not add to the score.
     mc_correct : list[int], optional
         Only for multiple choice data. A list of integers where each integer is the correct response for the corresponding item. If None, the data is assumed to be non multiple choice and the rows are summed. (default is None)
 
@@ -520,6 +520,6 @@ def sum_score(data: torch.Tensor, mc_correct: list[int] = None):
         A tensor of sum scores for each respondent.
     """
     if mc_correct is None:
-        return data.sum(dim=1)
+        return torch.where(get_missing_mask(data), 0.0, data).sum(dim=1)
     else:
         return (data == torch.tensor(mc_correct, dtype=data.dtype)).int().sum(dim=1).float()
-- 
2.43.0


From 8dcee646d99543437560ef1c8d8bf09651e21c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 21/54] fix: random incorrect imputation accepts multiple
 choice models instead of all other models

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 3d5b8b9..3fe5055 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -343,7 +343,7 @@ def impute_missing(
         imputed_data[mask] = means.repeat(data.shape[0], 1)[mask]
     elif method == "random incorrect":
         if model is not None:
-            if model.mc_correct is not None:
+            if model.mc_correct is None:
                 raise ValueError("The model provided must be a multiple choice item model when using random_incorrect imputation")
             item_categories = model.item_categories
             mc_correct = model.mc_correct
-- 
2.43.0


From feb1762327415fcf0b2ae13dfdd3342f2a3a378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 22/54] fix: latent scores impute missing responses in the same
 way as when the autoencoder was fitted

---
 irtorch/estimation_algorithms/vae.py | 1 +
 irtorch/models/base_irt_model.py     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 5f9be23..c7d562e 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -101,6 +101,7 @@ class VAE(AE):
         self.annealing_iterations = annealing_iterations
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
+        self.imputation_method = imputation_method
 
         if batch_size is None:
             batch_size = train_data.shape[0]
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 874519c..3346e22 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -599,6 +599,8 @@ class BaseIRTModel(ABC, nn.Module):
                         encoder_data = impute_missing_internal(
                             data = data,
                             method=self.algorithm.imputation_method,
+                            mc_correct=self.mc_correct,
+                            item_categories=self.item_categories,
                         )
                     elif not self.algorithm.one_hot_encoded:
                         raise ValueError("The algorithm encoder does not use one-hot encoded data, and autoencoder does not have a pre-specified imputation method. Please impute beforehand.")
-- 
2.43.0


From b1ff15c66e647b33369376ce1e7ac6aaab70d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 23/54] fix: the inverse and jacobian of LinkCommonItems match
 its transformation

---
 irtorch/rescale/link_common_items.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 0649b8a..486aa4c 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -253,8 +253,8 @@ class LinkCommonItems(Scale):
             A 2D tensor containing theta scores on the the original scale.
         """
         if self._method == "spline":
-            theta, _ = self._transformation(transformed_theta, inverse=True)
-            return theta * self._transformation_multiplier
+            theta, _ = self._transformation(transformed_theta * self._transformation_multiplier, inverse=True)
+            return theta
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
@@ -278,7 +278,7 @@ class LinkCommonItems(Scale):
         theta_scores = theta.clone()
         theta_scores.detach_().requires_grad_(True)
         if self._method == "neuralnet":
-            transformed_thetas = self._transformation(theta_scores)
+            transformed_thetas = self._split_activation(self._transformation(theta_scores)).sum(dim=1).view(-1, 1)
         else:
             transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
         transformed_thetas = transformed_thetas * self._transformation_multiplier
-- 
2.43.0


From 0e7a7fb9ee566838988cc648c664111cf987caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 24/54] fix: group_fit_log_likelihood keeps the missing mask in
 the order of the respondents

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index b17e7fc..2cbe70e 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -576,13 +576,14 @@ class Evaluator:
         indicies = torch.sort(theta[:, latent_variable - 1], dim=0)[1]
         theta = theta[indicies]
         data = data[indicies]
+        missing_mask = missing_mask[indicies]
         likelihoods = self.model.log_likelihood(
             data,
             self.model(theta),
             missing_mask,
             loss_reduction="none"
         )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).sum(dim=1)
+        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
-- 
2.43.0


From 03635827b3e0c62f62255b09cdb04be6ff007ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 25/54] fix: group_fit_residuals defaults to the training data

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 2cbe70e..feb2ba8 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -253,7 +253,7 @@ class Evaluator:
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
             # get number of people in each group
-            data = torch.chunk(data, groups)
+            data = torch.chunk(self.model.algorithm.train_data if data is None else data, groups)
             group_n = torch.tensor([group.shape[0] for group in data])
 
             std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
-- 
2.43.0


From 740a8e537d03cbc861e148629ca780ee1875bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 26/54] fix: encoder sampling passes the model to the encoder

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index feb2ba8..05c8c86 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1099,7 +1099,7 @@ class Evaluator:
             )
             if latent_density_method == "encoder sampling":
                 theta_scores = self.model.algorithm.sample_latent_variables(
-                    sample_size=sample_size, input_data=population_data
+                    model=self.model, sample_size=sample_size, input_data=population_data
                 )
         else:
             (
-- 
2.43.0


From 3836ea01ee5f7167bff69abf17086aeca4e3351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:16 +0000
Subject: [PATCH 27/54] fix: a worker process that dies no longer makes
 cross-validation or fitting several models wait forever

multiprocessing.Pool replaces a dead worker, but loses its task, so that starmap never returns.
---
 irtorch/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 3fe5055..0a4d562 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -1,6 +1,7 @@
 import logging
 import random
 import copy
+from concurrent.futures import ProcessPoolExecutor
 from itertools import product
 import torch
 import torch.multiprocessing as mp
@@ -142,8 +143,9 @@ def _run_multiprocessing(model, data_folds, param_dicts, theta_estimation, devic
             threads_per_worker = max(1, original_threads // cores_to_use)
             torch.set_num_threads(threads_per_worker)
             
-            with spawn_context.Pool(cores_to_use) as pool:
-                results = pool.starmap(_cv_param_combination, jobs)
+            # unlike a Pool, an executor does not wait forever if a worker process dies
+            with ProcessPoolExecutor(cores_to_use, mp_context=spawn_context) as executor:
+                results = list(executor.map(_cv_param_combination, *zip(*jobs)))
             
             logger.info("Multiprocessing completed successfully")
             
@@ -511,8 +513,10 @@ def fit_multiple_models_cpu(
     try:
         # Ensure each subprocess uses a single thread for PyTorch.
         torch.set_num_threads(1)
-        with mp.Pool(cores_to_use) as pool:
-            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs, seed) for model, seed in zip(models, seeds)])
+        # unlike a Pool, an executor does not wait forever if a worker process dies
+        with ProcessPoolExecutor(cores_to_use, mp_context=mp.get_context()) as executor:
+            jobs = [(model, train_data, kwargs, seed) for model, seed in zip(models, seeds)]
+            trained_models = list(executor.map(_fit_model, *zip(*jobs)))
     finally:
         torch.set_num_threads(original_threads)
 
-- 
2.43.0


From 2e0174d3df9801d8580a5c70ea9ded84cf638f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 28/54] fix: the variational encoder gives every hidden layer
 its own batch normalization

All layers shared the name batchnorm0, so a later layer replaced the normalization of the first one, and
hidden layers of different sizes failed.
---
 irtorch/estimation_algorithms/encoders/variational_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/encoders/variational_encoder.py b/irtorch/estimation_algorithms/encoders/variational_encoder.py
index 132690e..0a27c95 100644
--- a/irtorch/estimation_algorithms/encoders/variational_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/variational_encoder.py
@@ -27,7 +27,7 @@ class VariationalEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # variational layers
-- 
2.43.0


From c2a9acb5219f3bc1c0bf271133b36d25e5d6f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 29/54] fix: VAE drops too small batches when it uses batch
 normalization

AE already did. VAE did not record that batch normalization is used, and failed on a last batch of one respondent.
---
 irtorch/estimation_algorithms/vae.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index c7d562e..67b5ece 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -102,6 +102,7 @@ class VAE(AE):
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
         self.imputation_method = imputation_method
+        self.batch_normalization = batch_normalization_encoder
 
         if batch_size is None:
             batch_size = train_data.shape[0]
-- 
2.43.0


From 15f6e30ec2ebab524a7ecbb5936849359d3870b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:58 +0000
Subject: [PATCH 30/54] fix: the mutual information difference ignores missing
 responses coded as -1

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index ce791db..68c0009 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -334,7 +334,7 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
     if data.dim() != 2:
         raise ValueError("Input must be a 2D tensor")
     
-    mask = ~torch.isnan(data)
+    mask = ~get_missing_mask(data)
     int_data = data.int()
     max_combos = ((int_data.max() + 1) ** 2).item()
     proportions = torch.zeros(int_data.shape[1], int_data.shape[1], max_combos)
-- 
2.43.0


From 9ba4be242d1e1e70ee15b04fb44d52b2510458bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:58 +0000
Subject: [PATCH 31/54] fix: encoder sampling weights every sampled latent
 score

---
 irtorch/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 05c8c86..ba6cf41 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1093,14 +1093,14 @@ class Evaluator:
             theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
-            weights = (
-                torch.ones(theta_scores.shape[0])
-                / theta_scores.shape[0]
-            )
             if latent_density_method == "encoder sampling":
                 theta_scores = self.model.algorithm.sample_latent_variables(
                     model=self.model, sample_size=sample_size, input_data=population_data
                 )
+            weights = (
+                torch.ones(theta_scores.shape[0])
+                / theta_scores.shape[0]
+            )
         else:
             (
                 theta_scores,
-- 
2.43.0


From b715ef598dcaf27c67ddfe6fa980c6c8ea6e42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:24 +0000
Subject: [PATCH 32/54] fix: the jacobians of Flow and LinkCommonItems are
 available where gradients are disabled

---
 irtorch/rescale/flow.py              | 11 ++++++-----
 irtorch/rescale/link_common_items.py | 17 +++++++++--------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/irtorch/rescale/flow.py b/irtorch/rescale/flow.py
index 7e85ef2..49dd794 100644
--- a/irtorch/rescale/flow.py
+++ b/irtorch/rescale/flow.py
@@ -228,10 +228,11 @@ class Flow(Scale):
             A tensor with the Jacobian for each input row. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         self._flow_exists()
-        theta_scores = theta.clone()
-        theta_scores.detach_().requires_grad_(True)
-        standardized_theta_scores = (theta_scores - self.theta_means) / self.theta_stds
-        transformed_thetas = self.flow(standardized_theta_scores)
-        transformed_thetas.sum().backward()
+        with torch.enable_grad(): # may be called where gradients are disabled
+            theta_scores = theta.clone()
+            theta_scores.detach_().requires_grad_(True)
+            standardized_theta_scores = (theta_scores - self.theta_means) / self.theta_stds
+            transformed_thetas = self.flow(standardized_theta_scores)
+            transformed_thetas.sum().backward()
         jacobians = torch.diag_embed(theta_scores.grad) # Since each transformation is only dependent on one theta score
         return jacobians
diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 486aa4c..a56fc3b 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -275,14 +275,15 @@ class LinkCommonItems(Scale):
         torch.Tensor
             A tensor with the Jacobian for each input row. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
-        theta_scores = theta.clone()
-        theta_scores.detach_().requires_grad_(True)
-        if self._method == "neuralnet":
-            transformed_thetas = self._split_activation(self._transformation(theta_scores)).sum(dim=1).view(-1, 1)
-        else:
-            transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
-        transformed_thetas = transformed_thetas * self._transformation_multiplier
-        transformed_thetas.sum().backward()
+        with torch.enable_grad(): # may be called where gradients are disabled
+            theta_scores = theta.clone()
+            theta_scores.detach_().requires_grad_(True)
+            if self._method == "neuralnet":
+                transformed_thetas = self._split_activation(self._transformation(theta_scores)).sum(dim=1).view(-1, 1)
+            else:
+                transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
+            transformed_thetas = transformed_thetas * self._transformation_multiplier
+            transformed_thetas.sum().backward()
         jacobians = torch.diag_embed(theta_scores.grad) # Since each transformation is only dependent on one theta score
         return jacobians
     
-- 
2.43.0


From 883ce776fec1fb1f53432c8971cb66b9a275407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 33/54] fix: log-likelihoods of a ModelMix are attributed to
 their own respondents and items

---
 irtorch/_internal_utils.py           | 27 +++++++++++++++++++++++++++
 irtorch/estimation_algorithms/mml.py |  4 ++--
 irtorch/estimation_algorithms/vae.py |  8 +++-----
 irtorch/evaluator.py                 |  5 +++--
 irtorch/models/base_irt_model.py     |  7 ++++---
 5 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 68c0009..ad39f37 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -445,6 +445,33 @@ def get_missing_mask(data: torch.Tensor) -> torch.Tensor:
     """
     return (data == -1) | data.isnan()
 
+def log_likelihoods_by_response(model, log_likelihoods: torch.Tensor, respondents: int) -> torch.Tensor:
+    """
+    Arrange the result of model.log_likelihood() with loss_reduction='none' by respondent and item.
+
+    Parameters
+    ----------
+    model : BaseIRTModel
+        The model. The log-likelihoods from a ModelMix are ordered by model first.
+    log_likelihoods : torch.Tensor
+        A 1D tensor with one log-likelihood for each response.
+    respondents : int
+        The number of respondents.
+
+    Returns
+    -------
+    torch.Tensor
+        A 2D tensor with log-likelihoods. Rows are respondents and columns are items.
+    """
+    from .models.model_mix import ModelMix # avoids a circular import
+    if isinstance(model, ModelMix):
+        splits = torch.split(log_likelihoods, [respondents * sub_model.items for sub_model in model.models])
+        return torch.cat(
+            [log_likelihoods_by_response(sub_model, split, respondents) for sub_model, split in zip(model.models, splits)],
+            dim=1
+        )
+    return log_likelihoods.view(respondents, -1)
+
 @torch.no_grad()
 def impute_missing_internal(
     data: torch.Tensor,
diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index 77a0efd..6743b03 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -4,7 +4,7 @@ import torch
 from torch.distributions import MultivariateNormal
 from irtorch.models import BaseIRTModel, MonotoneBSpline, NestedLogit, MonotoneBSpline
 from irtorch.utils import gauss_hermite
-from irtorch._internal_utils import dynamic_print, parameters_are_finite
+from irtorch._internal_utils import dynamic_print, log_likelihoods_by_response, parameters_are_finite
 from irtorch.irt_dataset import PytorchIRTDataset
 from irtorch.estimation_algorithms import BaseIRTAlgorithm
 
@@ -274,7 +274,7 @@ class MML(BaseIRTAlgorithm):
         self.optimizer.zero_grad()
         logits = model(latent_grid)
         ll = model.log_likelihood(train_data.data, logits, missing_mask=train_data.mask, loss_reduction="none")
-        ll = ll.view(-1, model.items).nansum(dim=1) # sum over items
+        ll = log_likelihoods_by_response(model, ll, logits.shape[0]).nansum(dim=1) # sum over items
         
         log_sums = (log_weights + ll).view(number_of_weights, -1)
         constant = log_sums.max(dim=0)[0] # for logexpsum trick (one constant per respondent)
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 67b5ece..bfe0146 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -1,6 +1,7 @@
 import logging
 import torch
 from torch.distributions import Normal
+from irtorch._internal_utils import log_likelihoods_by_response
 from irtorch.models import BaseIRTModel
 from irtorch.estimation_algorithms.ae import AE
 from irtorch.estimation_algorithms.encoders import VariationalEncoder
@@ -253,11 +254,8 @@ class VAE(AE):
 
         # Reshape tensor by each iw-sample
         # we need to keep a dimension for each respondent, but we can sum over items
-        log_p_x_theta = log_p_x_theta.view(
-            self.iw_samples,
-            log_p_x_theta.shape[0] // (self.iw_samples * data.shape[1]),
-            data.shape[1],
-        ).nansum(2)
+        log_p_x_theta = log_likelihoods_by_response(model, log_p_x_theta, self.iw_samples * data.shape[0])
+        log_p_x_theta = log_p_x_theta.view(self.iw_samples, data.shape[0], data.shape[1]).nansum(2)
 
         if self.iw_samples == 1:
             # ELBO (1 sample) can be computed using the true means and variances
diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index ba6cf41..21ed5d9 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -12,6 +12,7 @@ from irtorch._internal_utils import (
     conditional_score_distribution,
     sum_incorrect_probabilities,
     get_missing_mask,
+    log_likelihoods_by_response,
     correlation_matrix,
     dynamic_print,
     entropy,
@@ -529,7 +530,7 @@ class Evaluator:
 
         # On unseen data, we may end up with 0 probabilities which will result in -inf likelihoods
         likelihoods[likelihoods==-torch.inf] = -30.0
-        likelihoods = likelihoods.view(theta.shape[0], -1)
+        likelihoods = log_likelihoods_by_response(self.model, likelihoods, theta.shape[0])
         if reduction in "mean":
             return likelihoods.nanmean(dim=dim)
         if reduction == "sum":
@@ -583,7 +584,7 @@ class Evaluator:
             missing_mask,
             loss_reduction="none"
         )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
+        respondent_likelihoods = log_likelihoods_by_response(self.model, likelihoods, theta.shape[0]).nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 3346e22..b7e7b27 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -7,7 +7,7 @@ import torch
 from torch import nn
 from torch.distributions import MultivariateNormal
 import torch.nn.functional as F
-from irtorch._internal_utils import linear_regression, impute_missing_internal, dynamic_print, one_hot_encode_test_data, get_missing_mask, atomic_write
+from irtorch._internal_utils import linear_regression, impute_missing_internal, dynamic_print, one_hot_encode_test_data, get_missing_mask, atomic_write, log_likelihoods_by_response
 
 if TYPE_CHECKING:
     from irtorch.rescale.scale import Scale
@@ -670,7 +670,7 @@ class BaseIRTModel(ABC, nn.Module):
 
             logits = logits.repeat(data.shape[0], *[1] * (logits.dim() - 1))
             lls = self.log_likelihood(init_data, logits, missing_mask, loss_reduction="none")
-            lls = lls.view(logits.shape[0], -1).nansum(dim=1)
+            lls = log_likelihoods_by_response(self, lls, logits.shape[0]).nansum(dim=1)
             lls = lls.view(data.shape[0], -1)
             best_theta_ind = lls.argmax(dim=1)
             best_theta_ind = torch.arange(0, data.shape[0], device=device) * training_thetas.shape[0] + best_theta_ind
@@ -927,7 +927,8 @@ class BaseIRTModel(ABC, nn.Module):
         log_prior = torch.cat([log_prior] * data.shape[0], dim=0)
         missing_mask = get_missing_mask(replicated_data)
         grid_log_likelihoods = self.log_likelihood(replicated_data, replicated_logits, missing_mask, loss_reduction = "none")
-        grid_log_likelihoods = grid_log_likelihoods.view(-1, data.shape[1]).nansum(dim=1) # sum likelihood over items
+        grid_log_likelihoods = log_likelihoods_by_response(self, grid_log_likelihoods, replicated_data.shape[0])
+        grid_log_likelihoods = grid_log_likelihoods.nansum(dim=1) # sum likelihood over items
 
         # Approximate integration integral(p(x|theta)*p(theta)dtheta)
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
-- 
2.43.0


From 45c9c2b8f16cdf2d53ba5b8f4e41f053a7094b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 34/54] fix: JML with mini-batches waits for epochs, not
 batches, and compares losses of whole epochs

---
 irtorch/estimation_algorithms/jml.py | 54 ++++++++++++++--------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index d6c109f..251eafb 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -152,40 +152,38 @@ class JML(BaseIRTAlgorithm):
         model.train()
 
         for epoch in range(max_epochs):
+            train_loss = 0.0
             for _, (batch, mask, _, idx) in enumerate(data_loader):
                 self.optimizer.zero_grad()
                 model_out = model(self.training_theta_scores[idx])
                 loss = -model.log_likelihood(batch, model_out, missing_mask=mask, loss_reduction="sum")
                 loss.backward()
                 self.optimizer.step()
-                
-                train_loss = loss.item()
-                self.training_history["train_loss"].append(loss.item())
-                
-                current_loss = train_loss
-                scheduler.step(train_loss)
-                dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
-
-                if current_loss < best_loss and parameters_are_finite(model) and self.training_theta_scores.isfinite().all():
-                    best_loss = current_loss
-                    best_epoch = epoch
-                    best_model_state = {
-                        "theta": copy.deepcopy(self.training_theta_scores.data),
-                        "state_dict": copy.deepcopy(model.state_dict()),
-                        "optimizer": copy.deepcopy(self.optimizer.state_dict()) 
-                    }
-
-                current_lr = [group["lr"] for group in self.optimizer.param_groups]
-                if current_lr != prev_lr:
-                    lr_update_count += 1
-                    if lr_update_count >= learning_rate_updates_before_stopping:
-                        break
-                    prev_lr = current_lr
-                    logger.info("Decreased learning rate to: %s", current_lr[0])
-
-
-            if lr_update_count >= learning_rate_updates_before_stopping:
-                break
+                train_loss += loss.item()
+
+            # losses of single batches concern different respondents and are not comparable, so we evaluate once per epoch
+            self.training_history["train_loss"].append(train_loss)
+
+            current_loss = train_loss
+            scheduler.step(train_loss)
+            dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
+
+            if current_loss < best_loss and parameters_are_finite(model) and self.training_theta_scores.isfinite().all():
+                best_loss = current_loss
+                best_epoch = epoch
+                best_model_state = {
+                    "theta": copy.deepcopy(self.training_theta_scores.data),
+                    "state_dict": copy.deepcopy(model.state_dict()),
+                    "optimizer": copy.deepcopy(self.optimizer.state_dict()) 
+                }
+
+            current_lr = [group["lr"] for group in self.optimizer.param_groups]
+            if current_lr != prev_lr:
+                lr_update_count += 1
+                if lr_update_count >= learning_rate_updates_before_stopping:
+                    break
+                prev_lr = current_lr
+                logger.info("Decreased learning rate to: %s", current_lr[0])
 
         # Load the best model state
         if best_model_state is not None:
-- 
2.43.0


From d2e567f66eb9af33492480552dd7719e56968f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 35/54] fix: random incorrect imputation of a single respondent

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index ad39f37..c1c0627 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -523,7 +523,7 @@ def impute_missing_internal(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
         return imputed_data
diff --git a/irtorch/utils.py b/irtorch/utils.py
index 0a4d562..7f98413 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -360,7 +360,7 @@ def impute_missing(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
     elif method == "prior expected":
-- 
2.43.0


From 76a9db3b7c8bf72f89275686033de0984189484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 36/54] fix: get_item_categories counts the categories chosen
 by respondents with missing responses

---
 irtorch/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 7f98413..df92f03 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -301,7 +301,8 @@ def get_item_categories(data: torch.Tensor):
     list
         A list of integers where each integer is the number of possible responses for the corresponding item.
     """
-    return [int(data[~data.isnan().any(dim=1)][:, col].max()) + 1 for col in range(data.shape[1])]
+    data = torch.where(data.isnan(), -1.0, data) # respondents with missing responses count for the items they responded to
+    return [int(data[:, col].max()) + 1 for col in range(data.shape[1])]
 
 @torch.no_grad()
 def impute_missing(
-- 
2.43.0


From 0bf45e308748c6405d6612d49a8411e1406b50f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 37/54] fix: guessing data for multiple choice items with two
 responses of which the first is correct

---
 irtorch/_internal_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index c1c0627..96ab2a1 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -185,6 +185,8 @@ def random_guessing_data(
 
         if num_categories == 2:
             responses = torch.bernoulli(torch.full((size,), guessing_prob))
+            if mc_correct is not None and mc_correct[item_idx] == 0:
+                responses = 1 - responses # guessing correctly means choosing response 0
         else:
             if mc_correct is not None:
                 probs = torch.full((num_categories,), (1 - guessing_prob) / (num_categories - 1))
-- 
2.43.0


From a8071dd81e3fd1875ba5b03d5b520d9641f3e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 38/54] fix: the jacobian of bit scores of selected items uses
 the probabilities of those items

---
 irtorch/rescale/bit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 2b1f746..e6cdf20 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -244,7 +244,7 @@ class Bit(Scale):
         """
         if self.model.latent_variables == 1:
             theta = theta.detach()
-            probs = self.model.item_probabilities(theta)
+            probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
             item_bit_gradients = entropy_gradient_summands.nansum(dim=2).abs()
-- 
2.43.0


From ad3035900cd6f23c8865102de22af42b0d8f1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 39/54] fix: missing responses coded as -1 in integer data can
 be imputed

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 96ab2a1..bd425b3 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -498,7 +498,7 @@ def impute_missing_internal(
     item_categories : list[int], optional
         Only for method='random_incorrect'. A list of integers where each integer is the number of possible responses for the corresponding item. If None, the number of possible responses is calculated from the data. (default is None)
     """
-    imputed_data = data.clone()
+    imputed_data = data.clone() if data.is_floating_point() else data.float() # integers cannot be nan
 
     if (imputed_data == -1).any():
         imputed_data[imputed_data == -1] = torch.nan
diff --git a/irtorch/utils.py b/irtorch/utils.py
index df92f03..6dd1687 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -333,7 +333,7 @@ def impute_missing(
     item_categories : list[int], optional
         Only for method='random_incorrect'. A list of integers where each integer is the number of possible responses for the corresponding item. If None, the number of possible responses is calculated from the data. (default is None)
     """
-    imputed_data = data.clone()
+    imputed_data = data.clone() if data.is_floating_point() else data.float() # integers cannot be nan
 
     if (imputed_data == -1).any():
         imputed_data[imputed_data == -1] = torch.nan
-- 
2.43.0


From 4ebd9e134aac03289dfe33df63661159330e4970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 40/54] fix: JML does not overwrite the starting scores of the
 caller

---
 irtorch/estimation_algorithms/jml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index 251eafb..c5a4026 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -84,7 +84,7 @@ class JML(BaseIRTAlgorithm):
             raise ValueError("start_thetas must contain the same number of latent variables as the model.")
 
         self.training_theta_scores = torch.nn.Parameter(
-            start_thetas.to(device)
+            start_thetas.clone().to(device) # the caller's starting scores are not to be trained
         )
 
         self.optimizer = torch.optim.Adam(
-- 
2.43.0


From c7086d66cd55f6718168918aa5ea69fada6f7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 41/54] fix: EAP scores are not nan when the posterior
 underflows at every grid point

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index b7e7b27..ed42881 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -933,6 +933,8 @@ class BaseIRTModel(ABC, nn.Module):
         # Approximate integration integral(p(x|theta)*p(theta)dtheta)
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
         log_posterior = (log_prior + grid_log_likelihoods).view(-1, theta_grid.shape[0]) # each row is one respondent
+        # the most probable grid point of each respondent gets 1 so that they cannot all underflow to 0
+        log_posterior = log_posterior - log_posterior.max(dim=1, keepdim=True).values
         # convert to float 64 to prevent 0 probabilities
         exp_log_posterior = log_posterior.to(dtype=torch.float64).exp()
         posterior = (exp_log_posterior.T / exp_log_posterior.sum(dim=1)).T.view(-1, 1) # transform to one column
-- 
2.43.0


From 1217b2f6d8b3855c1313accf2579680b0f4b5c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 42/54] fix: log-likelihood of a ModelMix for integer data

---
 irtorch/models/model_mix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index ddd2915..812b60d 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -161,6 +161,7 @@ class ModelMix(BaseIRTModel):
             [model.items for model in self.models],
             dim=1
         )
+        data_splits = [data_split.contiguous() for data_split in data_splits]
         if missing_mask is None:
             mask_splits = [None] * len(self.models)
         else:
-- 
2.43.0


From 2eab65cef34aeba8d6a2cfe4fa5ed888c504deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 43/54] fix: encoders without one-hot encoding accept integer
 responses

---
 irtorch/irt_dataset.py           | 2 +-
 irtorch/models/base_irt_model.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/irt_dataset.py b/irtorch/irt_dataset.py
index a6c8723..6669152 100644
--- a/irtorch/irt_dataset.py
+++ b/irtorch/irt_dataset.py
@@ -43,7 +43,7 @@ class PytorchIRTDataset(torch.utils.data.Dataset):
                 raise ValueError("item_categories must be supplied for one-hot encoded data.")
             self.input_data = one_hot_encode_test_data(data, item_categories)
         else:
-            self.input_data = data
+            self.input_data = data.float()
 
     def __len__(self) -> int:
         return len(self.data)
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index ed42881..169e8ee 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -613,6 +613,7 @@ class BaseIRTModel(ABC, nn.Module):
                     encoder_data = one_hot_encode_test_data(encoder_data, self.item_categories)
                     theta = self.algorithm.theta_scores(encoder_data).clone()
                 else:
+                    encoder_data = encoder_data.float()
                     theta = self.algorithm.theta_scores(encoder_data).clone()
             else:
                 if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
-- 
2.43.0


From a086bbac7954e21360034dcbdfa639d158aeef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 44/54] fix: monotone models report no direction for unrelated
 items and latent variables

---
 irtorch/models/monotone_nn.py         | 2 +-
 irtorch/models/monotone_polynomial.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/monotone_nn.py b/irtorch/models/monotone_nn.py
index 5a8499c..33695e2 100644
--- a/irtorch/models/monotone_nn.py
+++ b/irtorch/models/monotone_nn.py
@@ -279,4 +279,4 @@ class MonotoneNN(BaseIRTModel):
         if hasattr(self, "negation_dim0"):
             return torch.stack([getattr(self, f"negation_dim{i}").all_item_weights().sign() for i in range(self.latent_variables)], dim=1).int()
         else:
-            return torch.ones(self.items, self.latent_variables, dtype=torch.int)
+            return self.item_theta_relationships.int()
diff --git a/irtorch/models/monotone_polynomial.py b/irtorch/models/monotone_polynomial.py
index bf7949b..1b50882 100644
--- a/irtorch/models/monotone_polynomial.py
+++ b/irtorch/models/monotone_polynomial.py
@@ -67,6 +67,7 @@ class MonotonePolynomial(BaseIRTModel):
         else:
             item_theta_relationships = torch.tensor([[True] * latent_variables] * self.items, dtype=torch.bool)
 
+        self.item_theta_relationships = item_theta_relationships
         self.separate = separate
         self.output_length = self.items * self.max_item_responses
         self.negative_latent_variable_item_relationships = negative_latent_variable_item_relationships
@@ -135,4 +136,4 @@ class MonotonePolynomial(BaseIRTModel):
         """
         if self.negative_latent_variable_item_relationships:
             return (self._modules["mono_poly"].directions * self._modules["mono_poly"].directions_mask).transpose(0, 1).sign().int()
-        return torch.ones(self.items, self.latent_variables).int()
+        return self.item_theta_relationships.int()
-- 
2.43.0


From 324e7a1343edc10111a65da54c9933526a870555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 45/54] fix: monotone splines with separate categories support
 several latent variables

---
 irtorch/models/monotone_b_spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/monotone_b_spline.py b/irtorch/models/monotone_b_spline.py
index a557f11..2b3a62a 100644
--- a/irtorch/models/monotone_b_spline.py
+++ b/irtorch/models/monotone_b_spline.py
@@ -93,7 +93,7 @@ class MonotoneBSpline(BaseIRTModel):
         else:
             # (lv, n_bases, items, max(item_categories))
             # with True where splines are supposed to be
-            spline_mask = torch.ones((1, self.n_bases, self.items, max(item_categories)), dtype=bool)
+            spline_mask = torch.ones((self.latent_variables, self.n_bases, self.items, max(item_categories)), dtype=bool)
             spline_mask[:, :, :, 0] = False
             # remove entries for items with fewer possible responses
             for item, item_cat in enumerate(item_categories):
-- 
2.43.0


From 39af762ffc2b927a0d9b25f3f5506f1dc768aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 46/54] fix: log-likelihood plots of two latent variables
 crashed

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 66468d1..8cb87cf 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -424,7 +424,7 @@ class Plotter:
                 )
             return fig
         if len(latent_variables) == 2:
-            grid_size = int(np.sqrt(log_likelihood.size()))
+            grid_size = int(np.sqrt(log_likelihood.numel()))
             return self._3d_surface_plot(
                 x = scores_to_plot[:, 0].reshape((grid_size, grid_size)),
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
-- 
2.43.0


From 3a882fdd9085dfa8d01efd4ddfb921927273f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 47/54] fix: information plots of multidimensional models use
 the scale of the plotted latent variables

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 8cb87cf..d05ac35 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -730,7 +730,7 @@ class Plotter:
             logger.warning("A large grid of latent variable values is used for plotting. This may take a while. Consider lowering the steps argument.")
 
         if rescale and self.model.scale:
-            scores_to_plot = self.model.transform_theta(theta_grid)
+            scores_to_plot = self.model.transform_theta(theta_grid)[:, latent_indices]
         else:
             scores_to_plot = theta_grid[:, [var - 1 for var in latent_variables]]
             if scores_to_plot.dim() == 1:
-- 
2.43.0


From 1a747c6d51bd9d892e49585f5281e08531fad32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 48/54] fix: item probability plots held the other latent
 variables at medians of the wrong scale

---
 irtorch/plotter.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index d05ac35..96bcd3c 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -586,15 +586,7 @@ class Plotter:
 
         latent_indices = [theta - 1 for theta in latent_variables]
 
-        mask = torch.ones(model_dim, dtype=bool)
-        mask[latent_indices] = 0
-        if fixed_thetas is None:
-            if hasattr(self.model.algorithm, "training_theta_scores") and self.model.algorithm.training_theta_scores is not None:
-                fixed_thetas = self.model.algorithm.training_theta_scores[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(model_dim)[mask]
-
-        elif len(fixed_thetas) is not model_dim - len(latent_variables):
+        if fixed_thetas is not None and len(fixed_thetas) is not model_dim - len(latent_variables):
             raise TypeError("If specified, the number of fixed latent variables needs to be the same as the number of variables in the model not used for plotting.")
 
         theta_grid = self._get_theta_grid_for_plotting(latent_variables, theta_range, second_theta_range, steps, fixed_thetas, latent_indices, rescale)
-- 
2.43.0


From 75a655fb6244b1be37601743128430d273323cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 49/54] fix: plots of models without training scores used
 supplied ranges on the original scale

---
 irtorch/plotter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 96bcd3c..956734f 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -902,10 +902,12 @@ class Plotter:
             and hasattr(self.model.algorithm, "training_theta_scores")
             and self.model.algorithm.training_theta_scores is not None
         )
-        use_transformed_train_theta = invertible and rescale and has_training_theta_scores
+        # without training scores, the default range is on the original scale, but supplied ranges are not
+        ranges_supplied = theta_range is not None or second_theta_range is not None
+        use_transformed_theta = invertible and rescale and (has_training_theta_scores or ranges_supplied)
 
         if has_training_theta_scores:
-            if use_transformed_train_theta:
+            if use_transformed_theta:
                 theta_source = self.model.transform_theta(
                     self.model.algorithm.training_theta_scores
                 )
@@ -918,7 +920,10 @@ class Plotter:
             if theta_source is not None:
                 fixed_thetas = theta_source[:, mask].median(dim=0).values
             else:
-                fixed_thetas = torch.zeros(self.model.latent_variables)[mask]
+                fixed_thetas = torch.zeros(1, self.model.latent_variables)
+                if use_transformed_theta:
+                    fixed_thetas = self.model.transform_theta(fixed_thetas)
+                fixed_thetas = fixed_thetas[0, mask]
 
         if theta_range is None:
             if theta_source is not None:
@@ -954,8 +959,9 @@ class Plotter:
             theta_grid[:, latent_indices[1]] = latent_theta_2.flatten()
             theta_grid[:, mask] = fixed_thetas
 
-        if use_transformed_train_theta:
-            theta_grid = self.model.inverse_transform_theta(theta_grid)
+        if use_transformed_theta:
+            for scale in reversed(self.model.scale):
+                theta_grid = scale.inverse(theta_grid)
         return theta_grid
 
     def _2d_line_plot(
-- 
2.43.0


From 956dd53fde7be032d8d600b582fb5e7b2420c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 50/54] fix: plots on reversed scales missed their lowest point

---
 irtorch/plotter.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 956734f..dd4ad38 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -258,8 +258,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                item_entropies = item_entropies[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                item_entropies = item_entropies[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -387,8 +387,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                log_likelihood = log_likelihood.detach_().squeeze_()[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                log_likelihood = log_likelihood.detach_().squeeze_()[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -740,8 +740,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                information = information.detach_().squeeze_()[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                information = information.detach_().squeeze_()[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -862,8 +862,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                sum_scores = sum_scores[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                sum_scores = sum_scores[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -1056,8 +1056,8 @@ class Plotter:
         min_indices = (latent_scores == latent_scores.min()).nonzero().flatten()
         if min_indices[-1] == len(latent_scores) - 1:  # if we have reversed theta scale
             start_idx = min_indices[0].item()  # get the first index
-            latent_scores = latent_scores[:start_idx]
-            prob_matrix = prob_matrix[:start_idx, :]
+            latent_scores = latent_scores[:start_idx + 1]
+            prob_matrix = prob_matrix[:start_idx + 1, :]
         else:
             start_idx = min_indices[-1].item()  # get the last index
             latent_scores = latent_scores[start_idx:]
-- 
2.43.0


From 3f8372983a231d6bd254d25ad706f168a7939b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 51/54] fix: impute an encoder's missing responses with the
 training data's item means

Scoring used the item means of the batch being scored, so a respondent's score
depended on who else was scored, and was nan for a single respondent.
---
 irtorch/_internal_utils.py           | 5 ++++-
 irtorch/estimation_algorithms/ae.py  | 3 +++
 irtorch/estimation_algorithms/vae.py | 5 ++++-
 irtorch/models/base_irt_model.py     | 1 +
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index bd425b3..920a2b4 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -480,6 +480,7 @@ def impute_missing_internal(
     method: str = "zero",
     mc_correct: list[int] = None,
     item_categories: list[int] = None,
+    item_means: torch.Tensor = None,
 ) -> torch.Tensor:
     """
     Impute missing values. Separate from the external version to not rely on a fitted model. 
@@ -497,6 +498,8 @@ def impute_missing_internal(
         Only for method='random_incorrect'. A list of integers where each integer is the correct response for the corresponding item. If None, the data is assumed to be non multiple choice (or dichotomously scored multiple choice with only 0's and 1's). (default is None)
     item_categories : list[int], optional
         Only for method='random_incorrect'. A list of integers where each integer is the number of possible responses for the corresponding item. If None, the number of possible responses is calculated from the data. (default is None)
+    item_means : torch.Tensor, optional
+        Only for method='mean'. The item means to impute. If None, they are computed from the data. (default is None)
     """
     imputed_data = data.clone() if data.is_floating_point() else data.float() # integers cannot be nan
 
@@ -508,7 +511,7 @@ def impute_missing_internal(
         return imputed_data
         
     if method == "mean":
-        means = imputed_data.nanmean(dim=0)
+        means = imputed_data.nanmean(dim=0) if item_means is None else item_means.to(imputed_data)
         mask = torch.isnan(imputed_data)
         imputed_data[mask] = means.repeat(data.shape[0], 1)[mask]
         return imputed_data
diff --git a/irtorch/estimation_algorithms/ae.py b/irtorch/estimation_algorithms/ae.py
index af43ffd..05ec7b4 100644
--- a/irtorch/estimation_algorithms/ae.py
+++ b/irtorch/estimation_algorithms/ae.py
@@ -25,6 +25,7 @@ class AE(BaseIRTAlgorithm):
         self.optimizer = None
         self.item_categories = None
         self.mc_correct = None
+        self.item_means = None
         self.training_history = {
             "train_loss": [],
         }
@@ -132,6 +133,8 @@ class AE(BaseIRTAlgorithm):
             imputation_method=imputation_method,
             mc_correct=model.mc_correct
         )
+        # the encoder needs the same imputed values when scoring
+        self.item_means = train_data.float().masked_fill(train_data == -1, torch.nan).nanmean(dim=0).to("cpu")
         self.data_loader = torch.utils.data.DataLoader(
             train_data_irt,
             batch_size=batch_size,
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index bfe0146..9d40000 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -132,6 +132,8 @@ class VAE(AE):
             imputation_method=imputation_method,
             mc_correct=model.mc_correct
         )
+        # the encoder needs the same imputed values when scoring
+        self.item_means = train_data.float().masked_fill(train_data == -1, torch.nan).nanmean(dim=0).to("cpu")
         self.data_loader = torch.utils.data.DataLoader(
             train_data_irt,
             batch_size=batch_size,
@@ -354,7 +356,8 @@ class VAE(AE):
             one_hot_encoded=self.one_hot_encoded,
             item_categories=model.item_categories,
             imputation_method=self.imputation_method,
-            mc_correct=model.mc_correct
+            mc_correct=model.mc_correct,
+            item_means=getattr(self, "item_means", None)
         )
 
         # Sample test scores until we have sample_size
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 169e8ee..c5fc638 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -601,6 +601,7 @@ class BaseIRTModel(ABC, nn.Module):
                             method=self.algorithm.imputation_method,
                             mc_correct=self.mc_correct,
                             item_categories=self.item_categories,
+                            item_means=getattr(self.algorithm, "item_means", None), # scores must not depend on who else is scored
                         )
                     elif not self.algorithm.one_hot_encoded:
                         raise ValueError("The algorithm encoder does not use one-hot encoded data, and autoencoder does not have a pre-specified imputation method. Please impute beforehand.")
-- 
2.43.0


From 9d5d473ee5fd3491d20b9c228c0d9f4db8245e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 52/54] fix: a used algorithm object can be fitted to a model
 with another number of items

The responses of an earlier fit were stacked onto the new ones when the number of
columns differed, which torch.cat refuses.
---
 irtorch/estimation_algorithms/base_irt_algorithm.py | 4 ++--
 irtorch/estimation_algorithms/vae.py                | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/irtorch/estimation_algorithms/base_irt_algorithm.py b/irtorch/estimation_algorithms/base_irt_algorithm.py
index 2eb8dd5..2c6a311 100644
--- a/irtorch/estimation_algorithms/base_irt_algorithm.py
+++ b/irtorch/estimation_algorithms/base_irt_algorithm.py
@@ -29,8 +29,8 @@ class BaseIRTAlgorithm(ABC):
         **kwargs
             Additional keyword arguments for the algorithm fit method.
         """
-        # Store all training data within the algorithm instance
-        if self.train_data is not None:
+        # Store all training data within the algorithm instance. Data of a test with other items cannot be added
+        if self.train_data is not None and self.train_data.shape[1] == train_data.shape[1]:
             self.train_data = torch.cat((self.train_data, train_data), dim=0).contiguous()
         else:
             self.train_data = train_data.contiguous()
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 9d40000..69ffdd2 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -82,7 +82,7 @@ class VAE(AE):
         iw_samples : int, optional
             The number of importance weighted samples to use. (default is 5)
         """
-        if self.train_data is not None:
+        if self.train_data is not None and self.train_data.shape[1] == train_data.shape[1]:
             self.train_data = torch.cat((self.train_data, train_data), dim=0).contiguous()
         else:
             self.train_data = train_data.contiguous()
-- 
2.43.0


From 48fab46769e097b2912ccc6bc197a0ae3ec1d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 53/54] fix: responses stored as float64 can be fitted with JML
 and imputed

torch.arange of another dtype and a float64 multinomial ended fits and imputation
in a dtype error although every other number type was accepted.
---
 irtorch/_internal_utils.py           | 2 +-
 irtorch/estimation_algorithms/jml.py | 4 ++--
 irtorch/utils.py                     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 920a2b4..60bb5fe 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -525,7 +525,7 @@ def impute_missing_internal(
 
         for col in range(imputed_data.shape[1]):
             # Get the incorrect non-missing responses from the column
-            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
+            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device, dtype=imputed_data.dtype)
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
             missing_indices = imputed_data[:, col].isnan()
diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index c5a4026..ea1eca4 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -72,7 +72,7 @@ class JML(BaseIRTAlgorithm):
             batch_size = train_data.shape[0]
 
         if start_thetas is None:
-            start_thetas = sum_score(train_data, model.mc_correct)
+            start_thetas = sum_score(train_data.float(), model.mc_correct)
             start_thetas = (start_thetas - start_thetas.mean()) / start_thetas.std()
             start_thetas = start_thetas.detach().unsqueeze(1).repeat(1, model.latent_variables)
             if model.latent_variables > 1:
@@ -84,7 +84,7 @@ class JML(BaseIRTAlgorithm):
             raise ValueError("start_thetas must contain the same number of latent variables as the model.")
 
         self.training_theta_scores = torch.nn.Parameter(
-            start_thetas.clone().to(device) # the caller's starting scores are not to be trained
+            start_thetas.clone().to(device, torch.float32) # the caller's starting scores are not to be trained
         )
 
         self.optimizer = torch.optim.Adam(
diff --git a/irtorch/utils.py b/irtorch/utils.py
index 6dd1687..3a88542 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -358,7 +358,7 @@ def impute_missing(
 
         for col in range(imputed_data.shape[1]):
             # Get the incorrect non-missing responses from the column
-            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
+            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device, dtype=imputed_data.dtype)
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
             missing_indices = imputed_data[:, col].isnan()
@@ -375,7 +375,7 @@ def impute_missing(
         ).round()
         mask = torch.isnan(imputed_data)
         imputed_data[mask] = prior_scores.repeat(imputed_data.shape[0], 1).to(
-            next(model.parameters()).device
+            next(model.parameters()).device, imputed_data.dtype
         )[mask]
     else:
         raise ValueError(
-- 
2.43.0


From c66892f6e3c751daa5da16bf0a882435b2e4131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 54/54] fix: cross_validation used fewer folds than requested

---
 irtorch/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 3a88542..ab8ce43 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -17,7 +17,8 @@ logger = logging.getLogger("irtorch")
 def _prepare_cross_validation_data(data: torch.Tensor, folds: int) -> list[torch.Tensor]:
     """Prepare data for cross-validation by shuffling and splitting into folds."""
     shuffled_data = data[torch.randperm(data.shape[0])]
-    return torch.chunk(shuffled_data, folds, dim=0)
+    # unlike chunk, tensor_split always gives the requested number of folds
+    return torch.tensor_split(shuffled_data, min(folds, data.shape[0]), dim=0)
 
 def _create_param_grid(params_grid: dict, kwargs: dict) -> list[dict]:
     """Create list of parameter combinations from grid."""
-- 
2.43.0

