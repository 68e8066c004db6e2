From eb8ff637e63519810177d6160d62ec1067b4f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 01/61] fix: conformal classification sets kept the least
 conforming labels

---
 fortuna/conformal/classification/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/base.py b/fortuna/conformal/classification/base.py
index 73aa3b2..bca3a12 100644
--- a/fortuna/conformal/classification/base.py
+++ b/fortuna/conformal/classification/base.py
@@ -48,7 +48,7 @@ class ConformalClassifier:
         test_scores: Array,
         error: float,
     ) -> List[List[int]]:
-        conds = jnp.sum(val_scores[:, None, None] > test_scores[None], axis=0) < (
+        conds = jnp.sum(val_scores[:, None, None] < test_scores[None], axis=0) < (
             1 - error
         ) * (len(val_scores) + 1)
         sizes = conds.sum(1)
-- 
2.43.0


From 7ddfda4a918df0a2748ad3bf7c20298d0f0e7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:49 +0000
Subject: [PATCH 02/61] fix: jackknife+, jackknife-minmax and CV+ use the
 finite-sample corrected quantile level

---
 fortuna/conformal/regression/cvplus.py           | 6 ++++--
 fortuna/conformal/regression/jackknife_minmax.py | 4 +++-
 fortuna/conformal/regression/jackknifeplus.py    | 6 ++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/fortuna/conformal/regression/cvplus.py b/fortuna/conformal/regression/cvplus.py
index 2fee601..3886633 100644
--- a/fortuna/conformal/regression/cvplus.py
+++ b/fortuna/conformal/regression/cvplus.py
@@ -93,6 +93,8 @@ class CVPlusConformalRegressor(ConformalRegressor):
             [mu[None] + ri[:, None] for mu, ri in zip(cross_test_outputs, r)], 0
         )
 
-        qleft = jnp.quantile(left, q=error, axis=0)
-        qright = jnp.quantile(right, q=1 - error, axis=0)
+        n = left.shape[0]
+        level = jnp.minimum(jnp.ceil((n + 1) * (1 - error)) / n, 1.0)
+        qleft = jnp.quantile(left, q=1 - level, axis=0)
+        qright = jnp.quantile(right, q=level, axis=0)
         return jnp.array(list(zip(qleft, qright))).squeeze(2)
diff --git a/fortuna/conformal/regression/jackknife_minmax.py b/fortuna/conformal/regression/jackknife_minmax.py
index 974d0ce..05ec44f 100644
--- a/fortuna/conformal/regression/jackknife_minmax.py
+++ b/fortuna/conformal/regression/jackknife_minmax.py
@@ -76,7 +76,9 @@ class JackknifeMinmaxConformalRegressor(ConformalRegressor):
             )
 
         r = jnp.abs(loo_val_targets - loo_val_outputs)
-        q = jnp.quantile(r, q=1 - error, axis=0)
+        n = r.shape[0]
+        level = jnp.minimum(jnp.ceil((n + 1) * (1 - error)) / n, 1.0)
+        q = jnp.quantile(r, q=level, axis=0)
         qleft = jnp.min(loo_test_outputs, axis=0) - q
         qright = jnp.max(loo_test_outputs, axis=0) + q
         return jnp.array(list(zip(qleft, qright))).squeeze(2)
diff --git a/fortuna/conformal/regression/jackknifeplus.py b/fortuna/conformal/regression/jackknifeplus.py
index 5eaea50..0540d32 100644
--- a/fortuna/conformal/regression/jackknifeplus.py
+++ b/fortuna/conformal/regression/jackknifeplus.py
@@ -78,6 +78,8 @@ class JackknifePlusConformalRegressor(ConformalRegressor):
         left = loo_test_outputs - r[:, None]
         right = loo_test_outputs + r[:, None]
 
-        qleft = jnp.quantile(left, q=error, axis=0)
-        qright = jnp.quantile(right, q=1 - error, axis=0)
+        n = left.shape[0]
+        level = jnp.minimum(jnp.ceil((n + 1) * (1 - error)) / n, 1.0)
+        qleft = jnp.quantile(left, q=1 - level, axis=0)
+        qright = jnp.quantile(right, q=level, axis=0)
         return jnp.array(list(zip(qleft, qright))).squeeze(2)
-- 
2.43.0


From 0953343cfcb64d443687a8508ab8977d246994b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:49 +0000
Subject: [PATCH 03/61] fix: CV+ no longer reshapes the arrays in the caller's
 lists

---
 fortuna/conformal/regression/cvplus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/conformal/regression/cvplus.py b/fortuna/conformal/regression/cvplus.py
index 3886633..1d49a9b 100644
--- a/fortuna/conformal/regression/cvplus.py
+++ b/fortuna/conformal/regression/cvplus.py
@@ -55,6 +55,9 @@ class CVPlusConformalRegressor(ConformalRegressor):
             raise TypeError("`cross_val_targets` must be a list of arrays.")
         if type(cross_test_outputs) != list:
             raise TypeError("`cross_test_outputs` must be a list of arrays.")
+        cross_val_outputs = list(cross_val_outputs)
+        cross_val_targets = list(cross_val_targets)
+        cross_test_outputs = list(cross_test_outputs)
         for i, (mu, y, mu_test) in enumerate(
             zip(cross_val_outputs, cross_val_targets, cross_test_outputs)
         ):
-- 
2.43.0


From 5e282246738cd767903546985017cb7c8d9db0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 04/61] fix: adaptive conformal error update with scalar and
 one-element targets

---
 .../conformal/classification/adaptive_conformal_classifier.py   | 2 +-
 fortuna/conformal/regression/adaptive_conformal_regressor.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/classification/adaptive_conformal_classifier.py b/fortuna/conformal/classification/adaptive_conformal_classifier.py
index 21c372c..265136d 100644
--- a/fortuna/conformal/classification/adaptive_conformal_classifier.py
+++ b/fortuna/conformal/classification/adaptive_conformal_classifier.py
@@ -110,7 +110,7 @@ class AdaptiveConformalClassifier(ConformalClassifier):
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], [conformal_set])
+        is_in = self.is_in(jnp.reshape(target, (1,)), [conformal_set])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
diff --git a/fortuna/conformal/regression/adaptive_conformal_regressor.py b/fortuna/conformal/regression/adaptive_conformal_regressor.py
index 15fb66f..05fa9c4 100644
--- a/fortuna/conformal/regression/adaptive_conformal_regressor.py
+++ b/fortuna/conformal/regression/adaptive_conformal_regressor.py
@@ -107,7 +107,7 @@ class AdaptiveConformalRegressor:
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], conformal_interval[None])[0]
+        is_in = self.is_in(jnp.reshape(target, (1,)), conformal_interval[None])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
-- 
2.43.0


From 9fd12b34f6446403357e1a0c4cef73ba9b484dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 05/61] fix: EnbPI residual update with batches of more than
 one new point

---
 fortuna/conformal/regression/enbpi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/regression/enbpi.py b/fortuna/conformal/regression/enbpi.py
index 32c5e00..3bbf1c3 100644
--- a/fortuna/conformal/regression/enbpi.py
+++ b/fortuna/conformal/regression/enbpi.py
@@ -273,10 +273,13 @@ class EnbPI(ConformalRegressor):
                     "second dimension greater than 1."
                 )
 
-        train_residuals[:-1] = train_residuals[1:]
-        train_residuals[-1] = np.abs(
+        n_residuals = len(train_residuals)
+        new_residuals = np.abs(
             new_train_targets - self.aggregation_fun(bootstrap_new_train_preds)
         )
+        train_residuals = np.concatenate((train_residuals, new_residuals))[
+            -n_residuals:
+        ]
         aggr_test_preds = self.aggregation_fun(bootstrap_new_test_preds)
         residuals_quantile = jnp.quantile(train_residuals, q=1 - error, axis=0)
 
-- 
2.43.0


From 9e021bedd07a4d8a92af8341cacbc55fd38bf8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 06/61] fix: multivalid calibration kept the status of, but
 not, the patch that reached convergence

---
 fortuna/conformal/multivalid/iterative/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index ba50f37..0bdad39 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -267,6 +267,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 break
             if val_losses[-1] <= atol:
                 logging.info(f"Absolute tolerance satisfied after {t} rounds.")
+                self._patches.append((taut, gt, vt, ct, patch))
                 converged = True
                 break
             if val_losses[-1] > val_losses[-2]:
@@ -275,6 +276,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                     f"The loss started increasing on the validation data."
                 )
                 break
+            self._patches.append((taut, gt, vt, ct, patch))
             if (
                 jnp.any(val_bt)
                 and (val_losses[-2] - val_losses[-1]) / val_losses[-2] <= rtol
@@ -284,8 +286,6 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 break
             old_losses = jnp.copy(losses)
 
-            self._patches.append((taut, gt, vt, ct, patch))
-
         status = dict(
             n_rounds=len(self.patches),
             losses=val_losses,
-- 
2.43.0


From 4e73a69569d3a8be29ba667cec11822bb3cef62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 07/61] fix: multivalid apply_patches returned None without
 patches and values

---
 fortuna/conformal/multivalid/iterative/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index 0bdad39..ad8abb1 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -331,13 +331,13 @@ class IterativeMultivalidMethod(MultivalidMethod):
             raise ValueError(
                 "At least one between `groups` and `values` must be provided."
             )
+        values = self._maybe_init_values(
+            values, groups.shape[0] if groups is not None else None
+        )
         if not len(self._patches):
             logging.warning("No patches available.")
             return values
 
-        values = self._maybe_init_values(
-            values, groups.shape[0] if groups is not None else None
-        )
         self._maybe_check_values(values)
 
         groups = self._init_groups(groups, values.shape[0])
-- 
2.43.0


From 3b923cba93ad2a52d076c6f092a6e2628c28d0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 08/61] fix: BatchMVP calibration_error crashed without
 thresholds

---
 fortuna/conformal/multivalid/iterative/batch_mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/batch_mvp.py b/fortuna/conformal/multivalid/iterative/batch_mvp.py
index 6e9691b..eadb76d 100644
--- a/fortuna/conformal/multivalid/iterative/batch_mvp.py
+++ b/fortuna/conformal/multivalid/iterative/batch_mvp.py
@@ -279,7 +279,7 @@ class BatchMVPConformalMethod(
     def _maybe_check_values(
         values: Optional[Array], test_values: Optional[Array] = None
     ):
-        if jnp.any(values < 0) or jnp.any(values > 1):
+        if values is not None and (jnp.any(values < 0) or jnp.any(values > 1)):
             raise ValueError("All elements in `thresholds` must be within [0, 1].")
 
     @staticmethod
-- 
2.43.0


From 655325cf4f10c6243d710706eaea525c4b3c9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 09/61] fix: one-shot multicalibration of a value depended on
 the other values in the batch

---
 fortuna/conformal/multivalid/one_shot/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fortuna/conformal/multivalid/one_shot/base.py b/fortuna/conformal/multivalid/one_shot/base.py
index 1a73f40..a0ff279 100644
--- a/fortuna/conformal/multivalid/one_shot/base.py
+++ b/fortuna/conformal/multivalid/one_shot/base.py
@@ -137,13 +137,13 @@ class OneShotMultivalidMethod(MultivalidMethod):
             for c in range(b.shape[2]):
                 idx_v = jnp.argmin(jnp.abs(buckets - v))
                 if values.ndim == 1:
-                    patched_values = patched_values.at[b[:, i, c]].set(
-                        self._patches[idx_v, c]
-                    )
+                    patched_values = patched_values.at[
+                        b[:, i, c] & (values == v)
+                    ].set(self._patches[idx_v, c])
                 else:
-                    patched_values = patched_values.at[b[:, i, c], c].set(
-                        self._patches[idx_v, c]
-                    )
+                    patched_values = patched_values.at[
+                        b[:, i, c] & (values[:, c] == v), c
+                    ].set(self._patches[idx_v, c])
         return patched_values
 
     @abc.abstractmethod
-- 
2.43.0


From d55894479e280464b976e0ea6487614245af44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 10/61] fix: multicalibration losses of one-dimensional values
 were sums, not means, of squared errors

---
 fortuna/conformal/multivalid/mixins/multicalibrator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/mixins/multicalibrator.py b/fortuna/conformal/multivalid/mixins/multicalibrator.py
index ac0f691..c90dc56 100644
--- a/fortuna/conformal/multivalid/mixins/multicalibrator.py
+++ b/fortuna/conformal/multivalid/mixins/multicalibrator.py
@@ -27,5 +27,4 @@ class MulticalibratorMixin:
     def _loss_fn(values: Array, scores: Array) -> Array:
         if scores.ndim == 2 and values.ndim == 1:
             scores = scores[:, 0]
-            return jnp.mean(jnp.sum((values - scores) ** 2, axis=-1))
         return jnp.mean((values - scores) ** 2)
-- 
2.43.0


From b2069df4db13d0257fa92d95b953846f12bf7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 11/61] fix: multiplicative multicalibration patch was not
 finite for zero values

---
 fortuna/conformal/multivalid/iterative/multicalibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/multicalibrator.py b/fortuna/conformal/multivalid/iterative/multicalibrator.py
index 8db676c..84bee29 100644
--- a/fortuna/conformal/multivalid/iterative/multicalibrator.py
+++ b/fortuna/conformal/multivalid/iterative/multicalibrator.py
@@ -142,7 +142,8 @@ class Multicalibrator(MulticalibratorMixin, IterativeMultivalidMethod):
                 values=values,
                 n_buckets=len(buckets),
             )
-            return ey / self._get_mean_values(values, b, c)
+            mean_values = self._get_mean_values(values, b, c)
+            return jnp.where(mean_values > 0, ey / mean_values, 1.0)
 
     @staticmethod
     def _get_mean_values(values: Array, b: Array, c: Array):
-- 
2.43.0


From 90ba8d9b1189329f4ec1e73a6949c1645004adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 12/61] fix: true negative coverage used the threshold itself
 instead of its complement, unlike true negative precision

---
 .../classification/maxcovfixprec_binary_classfication.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py b/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
index df57741..82c0dbd 100644
--- a/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
+++ b/fortuna/conformal/classification/maxcovfixprec_binary_classfication.py
@@ -117,7 +117,7 @@ class MaxCoverageFixedPrecisionBinaryClassificationCalibrator:
 
     @staticmethod
     def true_negative_coverage(probs: Array, threshold: float):
-        return jnp.mean(probs <= threshold)
+        return jnp.mean(probs <= 1 - threshold)
 
     @property
     def patches(self):
-- 
2.43.0


From 405c33d5fdfcc8d208e589edfbef470d43619c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 13/61] fix: targets loaders made from a data loader were not
 targets loaders

---
 fortuna/data/loader/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/data/loader/base.py b/fortuna/data/loader/base.py
index 73e1b1c..8d2a675 100644
--- a/fortuna/data/loader/base.py
+++ b/fortuna/data/loader/base.py
@@ -459,7 +459,7 @@ class BaseTargetsLoader:
         T
             A concrete instance of a subclass of :class:`~fortuna.data.loader.BaseTargetsLoader`.
         """
-        return IterableData.data_loader_to_targets_iterable(data_loader)
+        return cls(iterable=IterableData.data_loader_to_targets_iterable(data_loader))
 
     @classmethod
     def from_callable_iterable(
-- 
2.43.0


From 2a98e4cacc821ef251030cbd22b1fb6b9233e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:57 +0000
Subject: [PATCH 14/61] fix: pulling or updating a state with an explicit
 checkpoint directory crashed

---
 fortuna/training/train_state_repository.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortuna/training/train_state_repository.py b/fortuna/training/train_state_repository.py
index 25cd7fd..5c43fb6 100644
--- a/fortuna/training/train_state_repository.py
+++ b/fortuna/training/train_state_repository.py
@@ -75,10 +75,10 @@ class TrainStateRepository(WithCheckpointingMixin):
             **kwargs,
         )
         if checkpoint_path or self.checkpoint_dir:
-            os.remove(
-                checkpoint_path
-                or self.get_path_latest_checkpoint(self.checkpoint_dir, prefix=prefix)
-            )
+            path = checkpoint_path or self.checkpoint_dir
+            if os.path.isdir(path):
+                path = self.get_path_latest_checkpoint(path, prefix=prefix)
+            os.remove(path)
         return state
 
     def update(
-- 
2.43.0


From ea4b5edbc21e493ab08f9abbc9c812e8d8fd1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:57 +0000
Subject: [PATCH 15/61] fix: updating a saved state removed its only checkpoint
 before writing the new one

---
 fortuna/training/train_state_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/training/train_state_repository.py b/fortuna/training/train_state_repository.py
index 5c43fb6..f76ed7a 100644
--- a/fortuna/training/train_state_repository.py
+++ b/fortuna/training/train_state_repository.py
@@ -90,7 +90,7 @@ class TrainStateRepository(WithCheckpointingMixin):
         prefix: str = "checkpoint_",
         **kwargs,
     ):
-        state = self.pull(
+        state = self.get(
             checkpoint_path=checkpoint_path,
             optimizer=optimizer,
             prefix=prefix,
-- 
2.43.0


From 458caead0d76ab3ba558b3dbdcc1bd7e4f69b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:57 +0000
Subject: [PATCH 16/61] fix: multi-state repositories crashed when putting to
 or getting all states

---
 .../prob_model/posterior/posterior_multi_state_repository.py  | 2 +-
 .../posterior/sgmcmc/sgmcmc_posterior_state_repository.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/posterior/posterior_multi_state_repository.py b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
index 734aacb..5b35a42 100644
--- a/fortuna/prob_model/posterior/posterior_multi_state_repository.py
+++ b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
@@ -68,7 +68,7 @@ class PosteriorMultiStateRepository:
             _put(i)
         else:
             for i in range(self.size):
-                state.append(_put(i))
+                _put(i)
 
     def pull(
         self,
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
index be34312..976f39a 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
@@ -119,7 +119,7 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
             return state
 
         if isinstance(state, list):
-            return [_update_state(_state, modify=modify) for _state in state]
+            return [self._update_state(_state, modify=modify) for _state in state]
 
         if modify == "add":
             state = state.replace(
@@ -154,6 +154,6 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
                 step=state.step,
             )
         else:
-            raise RuntimeError(f"Invalid update state method {method}.")
+            raise RuntimeError(f"Invalid update state method {modify}.")
 
         return state
-- 
2.43.0


From c29ca9ab9d3092e6d1bec695cb76c37caaee59bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 17/61] fix: the order of more than ten stochastic parameter
 paths was scrambled by restoring a checkpoint

---
 fortuna/utils/strings.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fortuna/utils/strings.py b/fortuna/utils/strings.py
index f54e50a..d7b5bfc 100644
--- a/fortuna/utils/strings.py
+++ b/fortuna/utils/strings.py
@@ -34,8 +34,13 @@ def decode_encoded_tuple_of_lists_of_strings_to_array(
 ) -> Optional[Tuple[List[str], ...]]:
     if encoded is None:
         return None
-    encoded = tree_map(lambda v: "".join([chr(o) for o in v]), encoded)
     if isinstance(encoded, dict):
-        return tuple([list(v.values()) for k, v in encoded.items()])
-    else:
-        return encoded
+        # states restored from a checkpoint store sequences as dictionaries keyed by position;
+        # `tree_map` would sort these keys as strings, i.e. "10" before "2"
+        encoded = tuple(
+            [
+                [path[k] for k in sorted(path, key=int)]
+                for path in [encoded[k] for k in sorted(encoded, key=int)]
+            ]
+        )
+    return tree_map(lambda v: "".join([chr(o) for o in v]), encoded)
-- 
2.43.0


From 3fe858a4712203fa464177226265c6b29349fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 18/61] fix: output calibration states without mutables could
 not be restored from a checkpoint

---
 fortuna/output_calib_model/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/output_calib_model/state.py b/fortuna/output_calib_model/state.py
index 9d10be6..d21e30e 100644
--- a/fortuna/output_calib_model/state.py
+++ b/fortuna/output_calib_model/state.py
@@ -103,7 +103,7 @@ class OutputCalibState(TrainState):
         }
         return cls.init(
             FrozenDict(d["params"]),
-            FrozenDict(d["mutable"]),
+            FrozenDict(d["mutable"]) if d["mutable"] is not None else None,
             optimizer,
             **kwargs,
         )
-- 
2.43.0


From 0a43c5685cef0adda954d578b4bc4da4c4be31e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 19/61] fix: disabling validation with
 eval_every_n_epochs=None, as documented, crashed

---
 fortuna/output_calib_model/output_calib_model_calibrator.py | 1 +
 fortuna/training/output_calibrator.py                       | 1 +
 fortuna/training/trainer.py                                 | 1 +
 3 files changed, 3 insertions(+)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index 2dfb5a9..ea53dbd 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -457,6 +457,7 @@ class OutputCalibModelCalibrator(
     ) -> bool:
         return (
             val_data_loader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 7e7a774..9703392 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -443,6 +443,7 @@ class OutputCalibratorABC(
     ) -> bool:
         return (
             val_data_loader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 7703368..bcefe52 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -593,6 +593,7 @@ class TrainerABC(
     ) -> bool:
         return (
             validation_dataloader is not None
+            and self.eval_every_n_epochs is not None
             and self.eval_every_n_epochs > 0
             and epoch % self.eval_every_n_epochs == 0
         )
-- 
2.43.0


From 24a60d4a9054c1b52421c8be7dabbd503340b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 20/61] fix: gradient accumulation over epoch borders crashed
 or skipped the end of updating steps

---
 fortuna/training/trainer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index bcefe52..510bde9 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -475,7 +475,7 @@ class TrainerABC(
         state = self.training_epoch_start(state, callbacks)
         # ensure to use a different key at each step
         model_key = self.training_step_start(rng, state.step)
-        for step, batch in enumerate(training_dataloader):
+        for batch in training_dataloader:
             # forward and backward pass
             state, aux = self.training_step(
                 state,
@@ -487,8 +487,9 @@ class TrainerABC(
                 training_kwargs,
             )
             self._global_training_step += 1
-            if (gradient_accumulation_steps > 0) and (
-                (step + 1) % gradient_accumulation_steps != 0
+            # parameters are updated whenever the step is a multiple of `gradient_accumulation_steps`
+            if gradient_accumulation_steps > 1 and (
+                int(jnp.ravel(state.step)[0]) % gradient_accumulation_steps != 0
             ):
                 continue
             # update model key
@@ -584,6 +585,9 @@ class TrainerABC(
     def _get_mean_losses_and_metrics(
         self, losses_and_metrics: List[Dict[str, jnp.ndarray]]
     ) -> Dict[str, float]:
+        if len(losses_and_metrics) == 0:
+            # no parameters update, e.g. with more accumulation steps than batches
+            return dict()
         losses_and_metrics = stack_forest(losses_and_metrics)
         losses_and_metrics = tree_map(lambda x: x.mean(), losses_and_metrics)
         return losses_and_metrics
-- 
2.43.0


From edbce6fb6fd74b8164c75009117ddf42a8eb86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 21/61] fix: calibration checkpoints followed the epoch instead
 of the number of training steps

---
 fortuna/output_calib_model/output_calib_model_calibrator.py | 2 +-
 fortuna/training/output_calibrator.py                       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index ea53dbd..e03eec0 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -299,7 +299,7 @@ class OutputCalibModelCalibrator(
         if (
             self.save_checkpoint_dir
             and self.save_every_n_steps
-            and current_epoch % self.save_every_n_steps == 0
+            and jnp.ravel(state.step)[0] % self.save_every_n_steps == 0
         ):
             self.save_checkpoint(
                 state, self.save_checkpoint_dir, keep=self.keep_top_n_checkpoints
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 9703392..085a32b 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -287,7 +287,7 @@ class OutputCalibratorABC(
         if (
             self.save_checkpoint_dir
             and self.save_every_n_steps
-            and current_epoch % self.save_every_n_steps == 0
+            and jnp.ravel(state.step)[0] % self.save_every_n_steps == 0
         ):
             self.save_checkpoint(
                 state, self.save_checkpoint_dir, keep=self.keep_top_n_checkpoints
-- 
2.43.0


From 4313f119afee1177387933a14c2b381f3f017d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 22/61] fix: an overflow under dynamic loss scaling was
 accumulated into the gradients, making parameters not finite

---
 fortuna/training/trainer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 510bde9..fef18a2 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -160,6 +160,11 @@ class TrainerABC(
             kwargs.get("gradient_accumulation_steps", 0.0) or 0.0
         )
         if gradient_accumulation_steps > 1:
+            if state.dynamic_scale is not None:
+                # do not accumulate gradients containing Inf/NaNs (= skip this batch).
+                grad = tree_map(
+                    lambda x: jnp.where(is_fin, x, jnp.zeros_like(x)), grad
+                )
             new_state = self.params_update_with_grad_accumulation(
                 state, grad, aux, gradient_accumulation_steps, max_grad_norm
             )
-- 
2.43.0


From acc3c6e870e6a8d40320987658e1acfd8fb357a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 23/61] fix: multi-device training with dynamic loss scaling
 did not average gradients across devices

---
 fortuna/training/trainer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index fef18a2..76e5c5e 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -66,6 +66,9 @@ class TrainerABC(
     InputValidatorMixin,
     metaclass=abc.ABCMeta,
 ):
+    # name of the device axis to average over; `None` if a single device is used
+    _sync_axis_name: Optional[str] = None
+
     def __init__(
         self,
         *args,
@@ -121,7 +124,9 @@ class TrainerABC(
         if state.dynamic_scale is None:
             value_and_grad_fn = value_and_grad
         else:
-            value_and_grad_fn = state.dynamic_scale.value_and_grad
+            value_and_grad_fn = partial(
+                state.dynamic_scale.value_and_grad, axis_name=self._sync_axis_name
+            )
 
         forward_fun = lambda params: self.training_loss_step(
             loss_fun,
@@ -151,9 +156,10 @@ class TrainerABC(
             (loss, aux), grad = outputs
             loss = self._sync_array(loss)
         else:
-            # dynamic_scale.value_and_grad takes care of averaging gradients and loss across replicas (no need to call sync)
+            # dynamic_scale.value_and_grad takes care of averaging gradients across replicas (no need to sync them)
             dynamic_scale, is_fin, aux, grad = outputs
             loss, aux = aux
+            loss = self._sync_array(loss)
 
         max_grad_norm = kwargs.get("max_grad_norm", 0.0) or 0.0
         gradient_accumulation_steps = (
@@ -760,6 +766,7 @@ class JittedMixin:
 
 class MultiDeviceMixin:
     all_reduce_mean = jax.pmap(lambda x: lax.pmean(x, "x"), "x")
+    _sync_axis_name = "batch"
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-- 
2.43.0


From b2043821ade68db7debd5684e897f24ca0c741fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:48 +0000
Subject: [PATCH 24/61] fix: ADVI with frozen parameters scrambled the initial
 trainable parameters

---
 .../normalizing_flow/advi/advi_posterior.py   |  9 +-----
 .../normalizing_flow/advi/advi_trainer.py     | 31 ++++++-------------
 2 files changed, 11 insertions(+), 29 deletions(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
index cde86b8..c3ef53a 100755
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
@@ -436,14 +436,7 @@ class ADVIPosterior(Posterior):
 
             if log_stds is not None:
                 rav_log_stds = ravel_pytree(
-                    nested_set(
-                        d={},
-                        key_paths=which_params,
-                        objs=tuple(
-                            [nested_get(log_stds, path) for path in which_params]
-                        ),
-                        allow_nonexistent=True,
-                    )
+                    tuple([nested_get(log_stds, path) for path in which_params])
                 )[0]
             else:
                 rav_log_stds = None
diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
index a2fa161..6e7432c 100644
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
@@ -25,10 +25,7 @@ from fortuna.typing import (
     Params,
     Path,
 )
-from fortuna.utils.freeze import (
-    get_frozen_paths,
-    get_trainable_paths,
-)
+from fortuna.utils.freeze import get_frozen_paths
 from fortuna.utils.nested_dicts import (
     nested_get,
     nested_pair,
@@ -102,10 +99,6 @@ class ADVITrainer(NormalizingFlowTrainer):
             frozen_paths = get_frozen_paths(
                 self._unravel(state.params["mean"]), self.freeze_fun
             )
-            trainable_paths = get_trainable_paths(
-                self._unravel(state.params["mean"]), self.freeze_fun
-            )
-
             state = state.replace(
                 frozen_params=FrozenDict(
                     {
@@ -130,20 +123,16 @@ class ADVITrainer(NormalizingFlowTrainer):
                 ),
                 params=FrozenDict(
                     {
+                        # same order as in `unravel`, which follows the paths
                         s: ravel_pytree(
-                            nested_set(
-                                d={},
-                                key_paths=trainable_paths,
-                                objs=tuple(
-                                    [
-                                        nested_get(
-                                            self._unravel(state.params[s]).unfreeze(),
-                                            path,
-                                        )
-                                        for path in trainable_paths
-                                    ]
-                                ),
-                                allow_nonexistent=True,
+                            tuple(
+                                [
+                                    nested_get(
+                                        self._unravel(state.params[s]).unfreeze(),
+                                        path,
+                                    )
+                                    for path in self._which_params
+                                ]
                             )
                         )[0]
                         for s in ["mean", "log_std"]
-- 
2.43.0


From edefc03d0b2f458b915b708f2a6c5cdbfeecf58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:46 +0000
Subject: [PATCH 25/61] fix: sampling from ensembles and SGMCMC posteriors
 fitted without compilation crashed

---
 .../deep_ensemble/deep_ensemble_posterior.py          | 11 +++++++++--
 .../prob_model/posterior/sgmcmc/sgmcmc_posterior.py   | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index bf72cdb..0068e45 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -15,6 +15,8 @@ from jax import (
     pure_callback,
     random,
 )
+import jax.numpy as jnp
+from jax.tree_util import tree_map
 
 from fortuna.data.loader import DataLoader
 from fortuna.prob_model.fit_config.base import FitConfig
@@ -194,9 +196,14 @@ class DeepEnsemblePosterior(Posterior):
     def sample(self, rng: Optional[jax.Array] = None, **kwargs) -> JointState:
         if rng is None:
             rng = self.rng.get()
+
+        def get_state(i):
+            # without compilation, leaves of a state may be Python scalars
+            return tree_map(jnp.asarray, self.state.get(i=i))
+
         state = pure_callback(
-            lambda j: self.state.get(i=j),
-            self.state.get(i=0),
+            get_state,
+            get_state(0),
             random.choice(rng, self.posterior_approximator.ensemble_size),
         )
         return JointState(
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index b6de41e..cc2b763 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -10,6 +10,8 @@ from jax import (
     pure_callback,
     random,
 )
+import jax.numpy as jnp
+from jax.tree_util import tree_map
 
 from fortuna.prob_model.fit_config.base import FitConfig
 from fortuna.prob_model.joint.state import JointState
@@ -45,9 +47,14 @@ class SGMCMCPosterior(Posterior):
         """
         if rng is None:
             rng = self.rng.get()
+
+        def get_state(i):
+            # without compilation, leaves of a state may be Python scalars
+            return tree_map(jnp.asarray, self.state.get(i=i))
+
         state = pure_callback(
-            lambda j: self.state.get(i=j),
-            self.state.get(i=0),
+            get_state,
+            get_state(0),
             random.choice(rng, self.posterior_approximator.n_samples),
         )
 
-- 
2.43.0


From 15c222b3436a4df02dc83a65b5d4eaa93a8d591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:17 +0000
Subject: [PATCH 26/61] fix: regression models with mutable state crashed and
 would not have used or updated it

---
 fortuna/model/model_manager/regression.py | 106 ++++++++--------------
 1 file changed, 39 insertions(+), 67 deletions(-)

diff --git a/fortuna/model/model_manager/regression.py b/fortuna/model/model_manager/regression.py
index d915c4b..7ded741 100644
--- a/fortuna/model/model_manager/regression.py
+++ b/fortuna/model/model_manager/regression.py
@@ -5,7 +5,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 import flax.linen as nn
 from flax.training.checkpoints import PyTree
 import jax
@@ -63,81 +66,50 @@ class RegressionModelManager(ModelManager):
             model_rngs = None
             lik_log_var_rngs = None
 
-        if mutable is not None:
-            mutable["model"] = mutable.get("model")
-            mutable["lik_log_var"] = mutable.get("lik_log_var")
-
-        model_has_aux = train and mutable is not None and mutable["model"] is not None
-        lik_log_var_has_aux = (
-            train and mutable is not None and mutable["lik_log_var"] is not None
-        )
-
-        def apply_fn(p, x, m_mutable, llv_mutable):
-            model_outputs = self.model.apply(
-                p["model"],
-                x,
-                train=train,
-                mutable=m_mutable,
-                rngs=model_rngs,
-            )
-            lik_log_var_outputs = self.likelihood_log_variance_model.apply(
-                p["lik_log_var"],
-                x,
-                train=train,
-                mutable=llv_mutable,
-                rngs=lik_log_var_rngs,
+        models = {
+            "model": (self.model, model_rngs),
+            "lik_log_var": (self.likelihood_log_variance_model, lik_log_var_rngs),
+        }
+        mutable_variables = {
+            k: (
+                unfreeze(mutable[k])
+                if mutable is not None and mutable.get(k) is not None
+                else {}
             )
+            for k in models
+        }
+        has_aux = train and mutable is not None
 
-            if isinstance(model_outputs, tuple) and not model_has_aux:
-                model_outputs = model_outputs[0]
-            if isinstance(lik_log_var_outputs, tuple) and not lik_log_var_has_aux:
-                lik_log_var_outputs = lik_log_var_outputs[0]
-
-            if model_has_aux:
-                model_outputs, m_mutable = model_outputs
-            if lik_log_var_has_aux:
-                lik_log_var_outputs, llv_mutable = lik_log_var_outputs
-
-            self._check_outputs(model_outputs, lik_log_var_outputs)
-
-            aux = dict()
-            if m_mutable or llv_mutable:
-                aux["mutable"] = dict()
-                if m_mutable:
-                    aux["mutable"]["model"] = m_mutable
-                if llv_mutable:
-                    aux["mutable"]["lik_log_var"] = m_mutable
+        def apply_fn(p, x):
+            outputs, new_mutable = dict(), dict()
+            for k, (model, rngs) in models.items():
+                variables = {**p[k], **mutable_variables[k]}
+                collections = list(mutable_variables[k].keys())
+                if has_aux and len(collections) > 0:
+                    outputs[k], new_mutable[k] = model.apply(
+                        variables, x, train=train, mutable=collections, rngs=rngs
+                    )
+                else:
+                    outputs[k] = model.apply(variables, x, train=train, rngs=rngs)
+                    new_mutable[k] = mutable_variables[k]
 
-            return jnp.concatenate(
-                (model_outputs, lik_log_var_outputs), axis=-1
-            ), FrozenDict(aux)
+            self._check_outputs(outputs["model"], outputs["lik_log_var"])
+            _outputs = jnp.concatenate(
+                (outputs["model"], outputs["lik_log_var"]), axis=-1
+            )
+            if has_aux:
+                return _outputs, {"mutable": FrozenDict(new_mutable)}
+            return _outputs
 
         if self.model_editor is not None:
-            outputs, aux = self.model_editor.apply(
+            return self.model_editor.apply(
                 params["model_editor"],
-                apply_fn=lambda p, x: apply_fn(
-                    p,
-                    x,
-                    m_mutable=mutable["model"] if mutable is not None else False,
-                    llv_mutable=(
-                        mutable["lik_log_var"] if mutable is not None else False
-                    ),
-                ),
+                apply_fn=apply_fn,
                 model_params=params,
                 x=inputs,
-                has_aux=True,
+                has_aux=has_aux,
             )
-        else:
-            outputs, aux = apply_fn(
-                params,
-                inputs,
-                m_mutable=mutable["model"] if mutable is not None else False,
-                llv_mutable=mutable["lik_log_var"] if mutable is not None else False,
-            )
-
-        if len(aux) > 0:
-            return outputs, aux
-        return outputs
+        return apply_fn(params, inputs)
 
     def init(
         self, input_shape: Tuple, rng: Optional[jax.Array] = None, **kwargs
-- 
2.43.0


From 535eaee9fe2f9b6c78b70007f7460456bd233ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 27/61] fix: multi-device training returned the running
 statistics of one device and crashed with ADVI

---
 .../normalizing_flow/advi/advi_trainer.py     | 26 +++++++++----------
 fortuna/training/trainer.py                   |  3 +--
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
index 6e7432c..9778ad3 100644
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_trainer.py
@@ -148,18 +148,18 @@ class JittedADVITrainer(JittedMixin, ADVITrainer):
 
 
 class MultiDeviceADVITrainer(MultiDeviceMixin, ADVITrainer):
-    def on_train_end(self, state: ADVIState) -> ADVIState:
-        self.save_checkpoint(
-            state,
-            save_checkpoint_dir=self.save_checkpoint_dir,
-            keep=self.keep_top_n_checkpoints,
-            force_save=True,
+    def __init__(self, **kwargs):
+        super().__init__(**kwargs)
+        # the state is replicated over devices until the end of the training
+        self._encoded_which_params = tree_map(
+            lambda v: v[None], self._encoded_which_params
         )
 
-        state = jax.device_get(tree_map(lambda x: x[0], state))
-        state = state.replace(
-            params=self._unravel_params(state.params),
-            frozen_params=None,
-            _encoded_which_params=self._encoded_which_params,
-        )
-        return state
+    def _unravel_params(
+        self,
+        rav_params: FrozenDict,
+    ) -> Params:
+        return jax.vmap(super()._unravel_params)(rav_params)
+
+    def on_train_end(self, state: ADVIState) -> ADVIState:
+        return self._sync_state(ADVITrainer.on_train_end(self, state))
diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 76e5c5e..a62dab2 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -829,8 +829,7 @@ class MultiDeviceMixin:
         return state, dataloaders, model_key
 
     def on_train_end(self, state: TrainState) -> TrainState:
-        state = super(MultiDeviceMixin, self).on_train_end(state)
-        return jax.device_get(tree_map(lambda x: x[0], state))
+        return self._sync_state(super(MultiDeviceMixin, self).on_train_end(state))
 
     def training_step_start(self, rng: jax.Array, step: int) -> jax.Array:
         step = step if isinstance(step, int) or step.ndim == 0 else step[0]
-- 
2.43.0


From 8ba18683d094b3db209a76f68a4a02fd51135c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 28/61] fix: multi-device SWAG with frozen parameters returned
 an incomplete state

---
 fortuna/prob_model/posterior/swag/swag_trainer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 2601d77..716847a 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -8,7 +8,6 @@ from typing import (
 )
 
 from flax.core import FrozenDict
-from jax import device_get
 from jax.flatten_util import ravel_pytree
 import jax.numpy as jnp
 from jax.tree_util import tree_map
@@ -154,5 +153,9 @@ class MultiDeviceSWAGTrainer(SWAGMultiDeviceMixin, SWAGTrainer):
             keep=self.keep_top_n_checkpoints,
             force_save=True,
         )
-        state = device_get(tree_map(lambda x: x[0], state))
-        return self._update_state_with_stats(state)
+
+        if self.freeze_fun is not None:
+            state = state.replace(
+                params=self._get_all_params(state), frozen_params=None
+            )
+        return self._sync_state(self._update_state_with_stats(state))
-- 
2.43.0


From 256bd00fc7acfdd7a3f7beac8ae18e49d61e692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:14 +0000
Subject: [PATCH 29/61] fix: SGHMC, cyclical SGLD and SNGP changed the caller's
 fit configuration, and the samplers ignored callbacks

---
 .../sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py       | 6 +++++-
 .../prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py  | 6 +++++-
 fortuna/prob_model/posterior/sngp/sngp_posterior.py       | 8 ++++----
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index 59c945d..d3c549f 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 import pathlib
 from typing import Optional
@@ -98,6 +99,9 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
         if fit_config.optimizer.method is not None:
             logging.info("`FitOptimizer` method in CyclicalSGLD is ignored.")
 
+        # work on a copy, not to change the configuration of the caller
+        fit_config = copy(fit_config)
+        fit_config.optimizer = copy(fit_config.optimizer)
         fit_config.optimizer.method = cyclical_sgld_integrator(
             rng_key=self.rng.get(),
             init_step_size=self.posterior_approximator.init_step_size,
@@ -185,7 +189,7 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            callbacks=[cyclical_sampling_callback],
+            callbacks=(fit_config.callbacks or []) + [cyclical_sampling_callback],
         )
         logging.info("Fit completed.")
 
diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index cb84d46..fc00768 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 import pathlib
 from typing import Optional
@@ -94,6 +95,9 @@ class SGHMCPosterior(SGMCMCPosterior):
         if fit_config.optimizer.method is not None:
             logging.info("`FitOptimizer` method in SGHMC is ignored.")
 
+        # work on a copy, not to change the configuration of the caller
+        fit_config = copy(fit_config)
+        fit_config.optimizer = copy(fit_config.optimizer)
         fit_config.optimizer.method = sghmc_integrator(
             momentum_decay=self.posterior_approximator.momentum_decay,
             momentum_resample_steps=None,
@@ -180,7 +184,7 @@ class SGHMCPosterior(SGMCMCPosterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            callbacks=[sghmc_sampling_callback],
+            callbacks=(fit_config.callbacks or []) + [sghmc_sampling_callback],
         )
         logging.info("Fit completed.")
 
diff --git a/fortuna/prob_model/posterior/sngp/sngp_posterior.py b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
index fc06714..bf505a0 100755
--- a/fortuna/prob_model/posterior/sngp/sngp_posterior.py
+++ b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 from typing import Optional
 
@@ -49,10 +50,9 @@ class SNGPPosterior(MAPPosterior):
                 ridge_penalty=self.joint.likelihood.model_manager.ridge_penalty,
             )
         ]
-        if fit_config.callbacks is None:
-            fit_config.callbacks = callbacks
-        else:
-            fit_config.callbacks = fit_config.callbacks + callbacks
+        # work on a copy, not to change the configuration of the caller
+        fit_config = copy(fit_config)
+        fit_config.callbacks = (fit_config.callbacks or []) + callbacks
         return super(SNGPPosterior, self).fit(
             train_data_loader, val_data_loader, fit_config, **kwargs
         )
-- 
2.43.0


From 3fa658f3e75c787d89c47e83fe60d97ae4889442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:03 +0000
Subject: [PATCH 30/61] fix: samples of cyclical SGLD were collected after
 exploration steps

---
 .../sgmcmc/cyclical_sgld/cyclical_sgld_callback.py          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py
index 16aebc5..bfa9356 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py
@@ -52,10 +52,12 @@ class CyclicalSGLDSamplingCallback(SGMCMCSamplingCallback):
             keep_top_n_checkpoints=keep_top_n_checkpoints,
         )
 
+        # steps are counted from one here, and from zero by the integrator
         self._do_sample = (
             lambda current_step, samples_count: samples_count < n_samples
-            and ((current_step % cycle_length) / cycle_length) >= exploration_ratio
-            and (current_step % cycle_length) % n_thinning == 0
+            and (((current_step - 1) % cycle_length) / cycle_length)
+            >= exploration_ratio
+            and ((current_step - 1) % cycle_length) % n_thinning == 0
         )
 
         total_samples = sum(
-- 
2.43.0


From 1ab9bfdea366e4baacc82e65a6c55485776e2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:03 +0000
Subject: [PATCH 31/61] fix: the kernel Stein discrepancy crashed with given
 hyperparameters

---
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
index 0ac0c31..b610306 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_diagnostic.py
@@ -1,3 +1,4 @@
+from functools import partial
 from typing import (
     List,
     Optional,
@@ -13,7 +14,8 @@ import jax.numpy as jnp
 from optax._src.base import PyTree
 
 
-@jit
+# the hyperparameters are checked, hence they cannot be traced
+@partial(jit, static_argnames=("c", "beta"))
 def kernel_stein_discrepancy_imq(
     samples: List[PyTree],
     grads: List[PyTree],
-- 
2.43.0


From 059c1ba5f588941c7fd14f1be5008e38555c6df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:03 +0000
Subject: [PATCH 32/61] fix: step schedules without burn-in or with empty
 cycles were not a number

---
 fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
index 485a680..fa903de 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_step_schedule.py
@@ -109,7 +109,7 @@ def constant_schedule_with_cosine_burnin(
         raise ValueError("`burnin_steps` should be >= 0.")
 
     def schedule(step: Array):
-        t = jnp.minimum(step / burnin_steps, 1.0)
+        t = jnp.minimum(step / burnin_steps, 1.0) if burnin_steps > 0 else 1.0
         coef = (1 + jnp.cos(t * np.pi)) * 0.5
         return coef * init_step_size + (1 - coef) * final_step_size
 
@@ -138,8 +138,8 @@ def cyclical_cosine_schedule_with_const_burnin(
         raise ValueError("`init_step_size` should be >= 0.")
     if not burnin_steps >= 0:
         raise ValueError("`burnin_steps` should be >= 0.")
-    if not cycle_length >= 0:
-        raise ValueError("`cycle_length` should be >= 0.")
+    if not cycle_length > 0:
+        raise ValueError("`cycle_length` should be > 0.")
 
     def schedule(step: Array):
         t = jnp.maximum(step - burnin_steps - 1, 0.0)
-- 
2.43.0


From 862e5b57dc71becf56e22f0cce02d8949cd6d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 33/61] fix: predictive sample takes a key, keeps the sample
 axis and returns the outputs asked for

A key given as an array raised, because it was tested for truth. With
distribution the device and sample axes were merged in the wrong order, and
with return_aux the batches were concatenated along the samples, and the
outputs asked for were never returned.
---
 fortuna/prob_model/predictive/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index e6983d1..161383c 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -353,7 +353,7 @@ class Predictive(WithRNG):
         Union[jnp.ndarray, Tuple[jnp.ndarray, Dict[str, jnp.ndarray]]]
             Samples for each input data point. Optionally, an auxiliary object is returned.
         """
-        if not rng:
+        if rng is None:
             rng = self.rng.get()
 
         def fun(_inputs):
@@ -367,7 +367,7 @@ class Predictive(WithRNG):
             if return_aux is None or len(return_aux) == 0:
                 return jnp.concatenate(
                     [
-                        self.likelihood._unshard_array(fun(inputs))
+                        self._unshard_ensemble_arrays(fun(inputs))
                         for inputs in inputs_loader
                     ],
                     1,
@@ -376,15 +376,15 @@ class Predictive(WithRNG):
                 samples, aux_outputs = [], []
                 for inputs in inputs_loader:
                     _samples, _aux = fun(inputs)
-                    samples.append(self.likelihood._unshard_array(_samples))
+                    samples.append(self._unshard_ensemble_arrays(_samples))
                     if "outputs" in _aux:
                         aux_outputs.append(
-                            self.likelihood._unshard_array(_aux["outputs"])
+                            self._unshard_ensemble_arrays(_aux["outputs"])
                         )
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
         else:
             fun = jit(fun)
@@ -397,10 +397,10 @@ class Predictive(WithRNG):
                     samples.append(_samples)
                     if "outputs" in _aux:
                         aux_outputs.append(_aux["outputs"])
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
 
     def _batched_sample(
-- 
2.43.0


From 2ba26031ba94aca026038ecaedda13ba0e1d7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:43 +0000
Subject: [PATCH 34/61] fix: predictive output samples of several batches are
 joined along the points

They were joined along the sample axis.
---
 fortuna/prob_model/predictive/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 161383c..1ad8023 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -508,7 +508,7 @@ class Predictive(WithRNG):
         if rng is None:
             rng = self.rng.get()
 
-        return self._loop_fun_through_inputs_loader(
+        return self._loop_ensemble_fun_through_inputs_loader(
             self._sample_batched_outputs,
             inputs_loader,
             n_output_samples,
-- 
2.43.0


From 0613da985e0827e3886af5519408658a9fb2e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:58 +0000
Subject: [PATCH 35/61] fix: negative log joint probabilities can be called
 without return_aux

The default is None, whose length was taken.
---
 fortuna/prob_model/joint/base.py      | 2 ++
 fortuna/prob_model/predictive/base.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fortuna/prob_model/joint/base.py b/fortuna/prob_model/joint/base.py
index 7af4d41..b75cbf4 100755
--- a/fortuna/prob_model/joint/base.py
+++ b/fortuna/prob_model/joint/base.py
@@ -135,6 +135,8 @@ class Joint(WithRNG):
         rng: Optional[jax.Array] = None,
         **kwargs,
     ) -> Union[float, Tuple[float, dict]]:
+        if return_aux is None:
+            return_aux = []
         outs = self._batched_log_joint_prob(
             params,
             batch,
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 1ad8023..bdeca9d 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -298,6 +298,8 @@ class Predictive(WithRNG):
         rng: Optional[jax.Array] = None,
         **kwargs,
     ) -> Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]]:
+        if return_aux is None:
+            return_aux = []
         outs = self._batched_log_joint_prob(
             batch,
             n_data,
-- 
2.43.0


From aed84ea06dc6bf9374aa2da05e1e7878228c5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:58 +0000
Subject: [PATCH 36/61] fix: unsupported auxiliary objects are reported as such

The list of their names was summed, which raised a TypeError.
---
 fortuna/calib_model/loss.py                   | 2 +-
 fortuna/likelihood/base.py                    | 6 +++---
 fortuna/output_calib_model/loss.py            | 2 +-
 fortuna/output_calib_model/predictive/base.py | 2 +-
 fortuna/prob_model/predictive/base.py         | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 8e675a1..1dae209 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -47,7 +47,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 37b392c..722e260 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -174,7 +174,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -311,7 +311,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -352,7 +352,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index cac3eb0..5142cb2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -41,7 +41,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index a0707fb..fa19b10 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -273,7 +273,7 @@ class Predictive(WithRNG, abc.ABC):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index bdeca9d..50ac8f8 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -218,7 +218,7 @@ class Predictive(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
-- 
2.43.0


From 0627822c9c26370c4f433bf4a2996942d4d1fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:55 +0000
Subject: [PATCH 37/61] fix: the size of sampled outputs counts points, not
 devices

With distribution the leading axis of the inputs is over devices.
---
 fortuna/prob_model/predictive/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 50ac8f8..dbdb9f4 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -562,10 +562,13 @@ class Predictive(WithRNG):
         iterable = []
         size = 0
         for inputs in inputs_loader:
-            size += (
-                inputs.shape[0]
+            _inputs = (
+                inputs
                 if not isinstance(inputs, dict)
-                else inputs[list(inputs.keys())[0]].shape[0]
+                else inputs[list(inputs.keys())[0]]
+            )
+            size += (
+                _inputs.shape[0] * _inputs.shape[1] if distribute else _inputs.shape[0]
             )
             if distribute:
                 outputs = jnp.stack(
-- 
2.43.0


From 6fefbf03153817aad2050ad5db32c8a006eb8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:19 +0000
Subject: [PATCH 38/61] fix: the standard deviation of given variances is their
 square root

Given variances were returned as they are.
---
 fortuna/prob_output_layer/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/base.py b/fortuna/prob_output_layer/base.py
index 9423666..cb2f087 100755
--- a/fortuna/prob_output_layer/base.py
+++ b/fortuna/prob_output_layer/base.py
@@ -149,7 +149,9 @@ class ProbOutputLayer(WithRNG, abc.ABC):
         jnp.ndarray
             The estimated standard deviation for each output.
         """
-        return jnp.sqrt(self.variance(outputs)) if variances is None else variances
+        if variances is None:
+            variances = self.variance(outputs)
+        return jnp.sqrt(variances)
 
     @abc.abstractmethod
     def entropy(self, outputs: Array, **kwargs) -> jnp.ndarray:
-- 
2.43.0


From 3d0e19e68eca5b32dfe540519933bbfe09742cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:19 +0000
Subject: [PATCH 39/61] fix: unknown interval types are reported as such

Formatting the message raised an IndexError.
---
 fortuna/prob_output_layer/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/regression.py b/fortuna/prob_output_layer/regression.py
index 6577fb8..4af9f7d 100644
--- a/fortuna/prob_output_layer/regression.py
+++ b/fortuna/prob_output_layer/regression.py
@@ -122,7 +122,7 @@ class RegressionProbOutputLayer(ProbOutputLayer):
         if interval_type not in supported_types:
             raise ValueError(
                 "`type={}` not recognised. Please choose among the following supported types: {}.".format(
-                    supported_types
+                    interval_type, supported_types
                 )
             )
         q = (
-- 
2.43.0


From 9e9fb9cb03c9a35e1dbd1ed5a640bbb6555509aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:02 +0000
Subject: [PATCH 40/61] fix: likelihoods work without an output calibration
 manager

Then what the model returned was taken for calibrated outputs, although it is
a pair with the running statistics during training and does not exist when
outputs are given.
---
 fortuna/likelihood/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 722e260..4421549 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -221,6 +221,7 @@ class Likelihood(WithRNG):
                 outputs = outs
 
         aux = dict()
+        outs = outputs
         if self.output_calib_manager is not None:
             outs = self.output_calib_manager.apply(
                 params=(
-- 
2.43.0


From 007daf4387db9d35547604ea03424e1f97973f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 41/61] fix: running state of output calibrators was nested one
 level deeper at every step, which crashed calibration

---
 fortuna/output_calibrator/output_calib_manager/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/output_calibrator/output_calib_manager/base.py b/fortuna/output_calibrator/output_calib_manager/base.py
index 069e9ec..6a7cfe9 100644
--- a/fortuna/output_calibrator/output_calib_manager/base.py
+++ b/fortuna/output_calibrator/output_calib_manager/base.py
@@ -75,7 +75,7 @@ class OutputCalibManager(WithRNG):
             outputs, mutable = self.output_calibrator.apply(
                 variables, outputs, mutable=mutable, train=calib, rngs=rngs
             )
-            return outputs, {"mutable": mutable}
+            return outputs, FrozenDict(mutable)
         else:
             return self.output_calibrator.apply(
                 variables, outputs, train=calib, mutable=False, rngs=rngs
-- 
2.43.0


From b22426d9816f8e93e95730a0e7035c47755a8cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:27 +0000
Subject: [PATCH 42/61] fix: multi-device calibration averaged validation
 outputs over devices and returned the running state of one device

---
 .../output_calib_model_calibrator.py                | 13 +++++++++----
 fortuna/training/output_calibrator.py               | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/fortuna/output_calib_model/output_calib_model_calibrator.py b/fortuna/output_calib_model/output_calib_model_calibrator.py
index e03eec0..0986e9c 100644
--- a/fortuna/output_calib_model/output_calib_model_calibrator.py
+++ b/fortuna/output_calib_model/output_calib_model_calibrator.py
@@ -599,6 +599,7 @@ class MultiDeviceMixin:
 
     def on_train_end(self, state: OutputCalibState) -> OutputCalibState:
         state = super(MultiDeviceMixin, self).on_train_end(state)
+        state = self.sync_mutable(state)
         return jax.device_get(tree_map(lambda x: x[0], state))
 
     @partial(jax.pmap, axis_name="batch", static_broadcasted_argnums=(0, 4))
@@ -640,8 +641,8 @@ class MultiDeviceMixin:
         loss_fun: Callable,
         rng: jax.Array,
     ) -> Dict[str, jnp.ndarray]:
-        val_losses = super().val_loss_step(state, targets, outputs, loss_fun, rng)
-        return lax.pmean(val_losses, axis_name="batch")
+        val_loss, aux = super().val_loss_step(state, targets, outputs, loss_fun, rng)
+        return lax.pmean(val_loss, axis_name="batch"), aux
 
     def val_metrics_step(
         self,
@@ -652,8 +653,12 @@ class MultiDeviceMixin:
         ] = None,
     ) -> Dict[str, jnp.ndarray]:
         outputs = aux["outputs"]
-        outputs = outputs.reshape(outputs.shape[0] * outputs.shape[1], -1)
-        targets = targets.reshape(targets.shape[0] * targets.shape[1], -1)
+        outputs = outputs.reshape(
+            (outputs.shape[0] * outputs.shape[1],) + outputs.shape[2:]
+        )
+        targets = targets.reshape(
+            (targets.shape[0] * targets.shape[1],) + targets.shape[2:]
+        )
         if metrics is not None:
             val_metrics = self.compute_metrics(
                 self.predict_fn(outputs), self.uncertainty_fn(outputs), targets, metrics
diff --git a/fortuna/training/output_calibrator.py b/fortuna/training/output_calibrator.py
index 085a32b..1877104 100644
--- a/fortuna/training/output_calibrator.py
+++ b/fortuna/training/output_calibrator.py
@@ -635,6 +635,7 @@ class MultiDeviceMixin:
 
     def on_train_end(self, state: OutputCalibState) -> OutputCalibState:
         state = super(MultiDeviceMixin, self).on_train_end(state)
+        state = self.sync_mutable(state)
         return jax.device_get(tree_map(lambda x: x[0], state))
 
     @partial(jax.pmap, axis_name="batch", static_broadcasted_argnums=(0, 4, 6))
@@ -678,8 +679,8 @@ class MultiDeviceMixin:
         rng: jax.Array,
         n_data: int,
     ) -> Dict[str, jnp.ndarray]:
-        val_losses = super().val_loss_step(state, batch, outputs, loss_fun, rng, n_data)
-        return lax.pmean(val_losses, axis_name="batch")
+        val_loss, aux = super().val_loss_step(state, batch, outputs, loss_fun, rng, n_data)
+        return lax.pmean(val_loss, axis_name="batch"), aux
 
     def val_metrics_step(
         self,
@@ -690,8 +691,12 @@ class MultiDeviceMixin:
         ] = None,
     ) -> Dict[str, jnp.ndarray]:
         outputs = aux["outputs"]
-        outputs = outputs.reshape(outputs.shape[0] * outputs.shape[1], -1)
-        targets = batch[1].reshape(batch[1].shape[0] * batch[1].shape[1], -1)
+        outputs = outputs.reshape(
+            (outputs.shape[0] * outputs.shape[1],) + outputs.shape[2:]
+        )
+        targets = batch[1].reshape(
+            (batch[1].shape[0] * batch[1].shape[1],) + batch[1].shape[2:]
+        )
         if metrics is not None:
             val_metrics = self.compute_metrics(
                 self.predict_fn(outputs), self.uncertainty_fn(outputs), targets, metrics
-- 
2.43.0


From 8a2d0c5760e8111b01adab87913c07ac91422b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:27 +0000
Subject: [PATCH 43/61] fix: calibration models with running statistics crashed

---
 fortuna/calib_model/loss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 1dae209..1f9d3e1 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -93,6 +93,7 @@ class Loss(WithRNG):
                 outputs = outs
 
         aux = dict()
+        outs = outputs
         if self.likelihood.output_calib_manager is not None:
             outs = self.likelihood.output_calib_manager.apply(
                 params=(
-- 
2.43.0


From 489a942edf5d549d96ba67875083bc94cfe35a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:30 +0000
Subject: [PATCH 44/61] fix: credible sets with error zero contained only the
 most probable class

---
 fortuna/prob_model/predictive/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/predictive/classification.py b/fortuna/prob_model/predictive/classification.py
index 8119cd5..5b1fc07 100644
--- a/fortuna/prob_model/predictive/classification.py
+++ b/fortuna/prob_model/predictive/classification.py
@@ -472,6 +472,8 @@ class ClassificationPredictive(Predictive):
         labels = jnp.argsort(p_classes, axis=-1)[:, ::-1]
         p_classes_sorted = jnp.sort(p_classes, axis=-1)[:, ::-1]
         region_classes = jnp.cumsum(p_classes_sorted, axis=1) > (1 - error)
+        # if the threshold is never exceeded, all classes are included
+        region_classes = region_classes.at[:, -1].set(True)
 
         # Convert CB region into sets
         index_true = jnp.argmax(region_classes, axis=1)  # first index where True
-- 
2.43.0


From c2ee19a60718de8665f230385f9132a4398c25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:30 +0000
Subject: [PATCH 45/61] fix: conformal sets of classifiers lost labels whose
 probabilities underflow

---
 .../prob_model/predictive/classification.py   | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/fortuna/prob_model/predictive/classification.py b/fortuna/prob_model/predictive/classification.py
index 5b1fc07..4f63b0e 100644
--- a/fortuna/prob_model/predictive/classification.py
+++ b/fortuna/prob_model/predictive/classification.py
@@ -559,24 +559,29 @@ class ClassificationPredictive(Predictive):
         def _compute_cb_region_importancesampling(
             ensemble_testgrid_log_probs,
         ):
-            # compute importance sampling weights and normalizing constant
-            importance_weights = jnp.exp(ensemble_testgrid_log_probs.T)
-            normalizing_constant = jnp.sum(importance_weights, axis=1).reshape(-1, 1)
-
-            # compute predictives for y_i,x_i and y_new,x_n+1
-            prob_train = jnp.dot(
-                importance_weights / normalizing_constant,
-                jnp.exp(ensemble_train_log_probs),
+            # compute normalized importance sampling weights, on the log scale as
+            # the probabilities may underflow
+            log_importance_weights = ensemble_testgrid_log_probs.T
+            log_normalized_weights = (
+                log_importance_weights
+                - jsp.special.logsumexp(log_importance_weights, axis=1, keepdims=True)
             )
-            prob_test = (
-                jnp.sum(importance_weights**2, axis=1).reshape(-1, 1)
-                / normalizing_constant
+
+            # compute log-predictives for y_i,x_i and y_new,x_n+1
+            log_prob_train = jsp.special.logsumexp(
+                log_normalized_weights[:, :, None] + ensemble_train_log_probs[None],
+                axis=1,
+            )
+            log_prob_test = jsp.special.logsumexp(
+                log_normalized_weights + log_importance_weights, axis=1, keepdims=True
             )
 
             # compute nonconformity score and sort
-            prob_train_test = jnp.concatenate((prob_train, prob_test), axis=1)
+            log_prob_train_test = jnp.concatenate(
+                (log_prob_train, log_prob_test), axis=1
+            )
             rank_test = jnp.sum(
-                prob_train_test <= prob_train_test[:, -1].reshape(-1, 1), axis=1
+                log_prob_train_test <= log_prob_train_test[:, -1:], axis=1
             )
 
             # Compute region of grid which is in confidence set
-- 
2.43.0


From 836f2816ba6c9b957f97845b8e056e5166591187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:45 +0000
Subject: [PATCH 46/61] fix: the maximum calibration error was multiplied by
 the number of points of the bins

---
 fortuna/metric/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/metric/classification.py b/fortuna/metric/classification.py
index 3b121f0..aa23e51 100755
--- a/fortuna/metric/classification.py
+++ b/fortuna/metric/classification.py
@@ -177,7 +177,7 @@ def maximum_calibration_error(
     counts, confs, accs = compute_counts_confs_accs(
         preds, probs, targets, plot, plot_options
     )
-    mce = jnp.max(counts * jnp.abs(accs - confs))
+    mce = jnp.max(jnp.abs(accs - confs))
     return mce
 
 
-- 
2.43.0


From 5ddef734f465d739eea8929933f99d8cbb2810a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:07 +0000
Subject: [PATCH 47/61] fix: the focal loss and its gradient were not finite
 when the probability of the target underflows

---
 fortuna/loss/classification/focal_loss.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fortuna/loss/classification/focal_loss.py b/fortuna/loss/classification/focal_loss.py
index 02a31f6..d8e0479 100644
--- a/fortuna/loss/classification/focal_loss.py
+++ b/fortuna/loss/classification/focal_loss.py
@@ -1,6 +1,6 @@
 from jax.nn import (
+    log_softmax,
     one_hot,
-    softmax,
 )
 import jax.numpy as jnp
 
@@ -30,7 +30,6 @@ def focal_loss_fn(
     jnp.ndarray
         The focal loss evaluation.
     """
-    probs = softmax(outputs, -1)
     targets = one_hot(targets, outputs.shape[-1])
-    probs = jnp.sum(probs * targets, -1)
-    return -jnp.mean((1 - probs) ** gamma * jnp.log(probs))
+    log_probs = jnp.sum(log_softmax(outputs, -1) * targets, -1)
+    return -jnp.mean((1 - jnp.exp(log_probs)) ** gamma * log_probs)
-- 
2.43.0


From a5561d90ce6deee33847d365b00ab42d4d7da167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:07 +0000
Subject: [PATCH 48/61] fix: kernel regression of constant targets was not a
 number

---
 fortuna/kernel_regression/nadaraya_watson.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fortuna/kernel_regression/nadaraya_watson.py b/fortuna/kernel_regression/nadaraya_watson.py
index 056f679..b1a8ff3 100644
--- a/fortuna/kernel_regression/nadaraya_watson.py
+++ b/fortuna/kernel_regression/nadaraya_watson.py
@@ -38,7 +38,11 @@ class NadarayaWatsonKernelRegressor:
             )
         self.train_inputs = jnp.copy(train_inputs)
         self._mean_train_targets = jnp.mean(train_targets)
-        self._std_train_targets = jnp.std(train_targets)
+        std_train_targets = jnp.std(train_targets)
+        # constant targets are not rescaled
+        self._std_train_targets = jnp.where(
+            std_train_targets > 0, std_train_targets, 1.0
+        )
         self.standardized_train_targets = (
             jnp.copy(train_targets) - self._mean_train_targets
         ) / self._std_train_targets
-- 
2.43.0


From 86461b5df0169457ed94e0d9841838f7e5f5a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:41 +0000
Subject: [PATCH 49/61] fix: without a freeze function, trainable and frozen
 paths were the top-level keys split into characters

---
 fortuna/utils/freeze.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/utils/freeze.py b/fortuna/utils/freeze.py
index a5c3c8f..1b3434f 100644
--- a/fortuna/utils/freeze.py
+++ b/fortuna/utils/freeze.py
@@ -126,6 +126,8 @@ def get_frozen_paths(
     Tuple[List[AnyKey], ...]
         A tuple of sequences of keys pointing to the frozen parameters only.
     """
+    if freeze_fun is None:
+        return ()
     return get_paths_with_label(
         params, freeze_fun, "frozen", allowed_labels=["frozen", "trainable"]
     )
@@ -145,4 +147,4 @@ def get_paths_with_label(
             [list(p) for c, p in zip(conds, flatten_dict(paths)) if c == label]
         )
     else:
-        return tuple([list(p) for p in paths])
+        return tuple([list(p) for p in flatten_dict(paths)])
-- 
2.43.0


From 1f06fd14b2086094ac84dee0754043b4fd03110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:29 +0000
Subject: [PATCH 50/61] fix: Mahalanobis scores were not a number when a class
 had no training data

---
 fortuna/ood_detection/mahalanobis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fortuna/ood_detection/mahalanobis.py b/fortuna/ood_detection/mahalanobis.py
index 93cbc37..7efd54f 100644
--- a/fortuna/ood_detection/mahalanobis.py
+++ b/fortuna/ood_detection/mahalanobis.py
@@ -44,7 +44,8 @@ def compute_mean_and_joint_cov(
         mask = jnp.expand_dims(labels == class_id, axis=-1)
         data = embeddings * mask
         mean = jnp.sum(data, axis=0) / jnp.sum(mask)
-        diff = (data - mean) * mask
+        # the mean of a class without data is not a number and must not propagate
+        diff = jnp.where(mask, data - mean, 0.0)
         cov += jnp.matmul(diff.T, diff)
         return cov, mean
 
@@ -178,4 +179,7 @@ class MalahanobisOODClassifier(OutOfDistributionClassifierABC):
         """
         if self._mean is None or self._cov is None:
             raise NotFittedError("You have to call fit before calling score.")
-        return compute_mahalanobis_distance(embeddings, self.mean, self.cov).min(axis=1)
+        # classes without training data have no distance
+        return jnp.nanmin(
+            compute_mahalanobis_distance(embeddings, self.mean, self.cov), axis=1
+        )
-- 
2.43.0


From 75f26a68839559bfe6af5d42fe0d00c1b6ca57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:29 +0000
Subject: [PATCH 51/61] fix: DDU scores crashed or were meaningless when a
 class had fewer than two training points

---
 fortuna/ood_detection/ddu.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fortuna/ood_detection/ddu.py b/fortuna/ood_detection/ddu.py
index f8528da..9fe0602 100644
--- a/fortuna/ood_detection/ddu.py
+++ b/fortuna/ood_detection/ddu.py
@@ -26,6 +26,9 @@ JITTERS = [0, DOUBLE_INFO.tiny] + [10**exp for exp in range(-10, 0, 1)]
 
 def _centered_cov(x: Array) -> Array:
     n = x.shape[0]
+    if n < 2:
+        # the covariance cannot be estimated
+        return jnp.full((x.shape[1], x.shape[1]), jnp.nan)
     res = jnp.matmul(1 / (n - 1) * x.T, x)
     return res
 
@@ -87,6 +90,11 @@ def _get_logpdf_fn(
     Callable[[Array], Array]
         A function to evaluate the log-likelihood of a test sample according to the (fitted) GMM.
     """
+    # components that could not be estimated are ignored
+    valid = np.all(np.isfinite(classwise_cov_features), axis=(1, 2))
+    classwise_mean_features = classwise_mean_features[valid]
+    classwise_cov_features = classwise_cov_features[valid]
+
     for jitter_eps in JITTERS:
         jitter = np.expand_dims(jitter_eps * np.eye(classwise_cov_features.shape[1]), 0)
         gmm_logprob_fn_vmapped = jax.vmap(
@@ -188,4 +196,6 @@ class DeepDeterministicUncertaintyOODClassifier(OutOfDistributionClassifierABC):
         if self._gmm_logpdf_fn is None:
             raise NotFittedError("You have to call fit before calling score.")
         loglik = self._gmm_logpdf_fn(embeddings)
-        return -jsp.special.logsumexp(jnp.nan_to_num(loglik, 0.0), axis=1)
+        return -jsp.special.logsumexp(
+            jnp.where(jnp.isnan(loglik), -jnp.inf, loglik), axis=1
+        )
-- 
2.43.0


From 87b5408fce68bb81170d6c912f296aa8c330576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:36 +0000
Subject: [PATCH 52/61] fix: keys handed out by the random number generator
 overlapped with those of later calls

---
 fortuna/utils/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fortuna/utils/random.py b/fortuna/utils/random.py
index a34dd09..3604031 100644
--- a/fortuna/utils/random.py
+++ b/fortuna/utils/random.py
@@ -45,8 +45,9 @@ class RandomNumberGenerator:
         jax.Array
             A random number generator key.
         """
-        self._rng = random.split(self._rng)[0]
-        return self._rng
+        # the returned key must not be the internal one: keys split from it would be reused by later calls
+        self._rng, rng = random.split(self._rng)
+        return rng
 
 
 class WithRNG:
-- 
2.43.0


From f135658e98d729ef41dc2bce7b0f7c0ce25dd4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 53/61] fix: Laplace with a diagonal prior and frozen
 parameters could not be sampled

---
 .../posterior/laplace/laplace_posterior.py       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index 5e6376f..f77326b 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -333,8 +333,22 @@ class LaplacePosterior(Posterior):
                 which_params,
                 ("mean", "hess_lik_diag"),
             )
+            prior_log_var = state.prior_log_var
+            if jnp.ndim(prior_log_var) > 0:
+                # keep the prior log-variances of the trainable parameters only
+                prior_log_var = ravel_pytree(mean)[1](prior_log_var)
+                prior_log_var = ravel_pytree(
+                    nested_set(
+                        d={},
+                        key_paths=which_params,
+                        objs=tuple(
+                            [nested_get(prior_log_var, keys) for keys in which_params]
+                        ),
+                        allow_nonexistent=True,
+                    )
+                )[0]
             std = self._compute_std(
-                prior_log_var=state.prior_log_var, hess_lik_diag=hess_lik_diag
+                prior_log_var=prior_log_var, hess_lik_diag=hess_lik_diag
             )
 
             noise = generate_random_normal_like_tree(rng, std)
-- 
2.43.0


From f1d9c575b4c5a457dfeaaea5324e3e313779de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 54/61] fix: tuning the prior of a Laplace posterior crashed on
 one device, on several, and with a diagonal prior

---
 .../posterior/laplace/laplace_posterior.py    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index f77326b..e8ba292 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -10,10 +10,8 @@ from typing import (
 )
 
 from flax.core import FrozenDict
-from flax.training.common_utils import (
-    shard,
-    shard_prng_key,
-)
+from flax.jax_utils import replicate
+from flax.training.common_utils import shard_prng_key
 import jax
 from jax import (
     devices,
@@ -503,10 +501,11 @@ class LaplacePosterior(Posterior):
         candidates = list(
             jnp.linspace(min_prior_log_var, max_prior_log_var, grid_size)
         ) + [jnp.array(self.joint.prior.log_var)]
+        rng = jax.random.PRNGKey(0)
         if distribute:
-            rng = shard_prng_key(jax.random.PRNGKey(0))
+            rng = shard_prng_key(rng)
             val_data_loader = DeviceDimensionAugmentedLoader(val_data_loader)
-            candidates = [shard(c) for c in candidates]
+            candidates = [replicate(c) for c in candidates]
             fn = pmap(self._batched_log_prob, static_broadcasted_argnums=(2,))
         else:
             fn = jit(self._batched_log_prob, static_argnums=(2,))
@@ -515,8 +514,12 @@ class LaplacePosterior(Posterior):
             neg_log_prob = -jnp.sum(
                 jnp.concatenate(
                     [
-                        self.joint.likelihood._unshard_array(
-                            fn(batch, lpv, n_posterior_samples, rng)
+                        (
+                            self.joint.likelihood._unshard_array(
+                                fn(batch, lpv, n_posterior_samples, rng)
+                            )
+                            if distribute
+                            else fn(batch, lpv, n_posterior_samples, rng)
                         )
                         for batch in val_data_loader
                     ],
@@ -526,5 +529,4 @@ class LaplacePosterior(Posterior):
             if best is None or neg_log_prob < best[-1]:
                 best = (lpv, neg_log_prob)
 
-        opt_prior_log_var = best[0].reshape()
-        return opt_prior_log_var
+        return best[0][0] if distribute else best[0]
-- 
2.43.0


From 9d8ada17b9d6b6687cf737972a015d50cd4e09de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:28 +0000
Subject: [PATCH 55/61] fix: the running moments of SWAG ignored how many
 training steps an epoch has

---
 fortuna/prob_model/posterior/swag/swag_trainer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 716847a..ee535cc 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -33,6 +33,7 @@ class SWAGTrainer(MAPTrainer):
         self._mean_rav_params = None
         self._mean_squared_rav_params = None
         self._deviation_rav_params = None
+        self._n_collected_params = 0
         self._encoded_which_params = encode_tuple_of_lists_of_strings_to_numpy(
             which_params
         )
@@ -85,13 +86,14 @@ class SWAGTrainer(MAPTrainer):
             self._mean_squared_rav_params = rav_params**2
             self._deviation_rav_params = jnp.zeros((len(rav_params), 1))
         else:
-            self._mean_rav_params *= current_epoch
+            # training steps may be several per epoch, hence count them rather than the epochs
+            self._mean_rav_params *= self._n_collected_params
             self._mean_rav_params += rav_params
-            self._mean_rav_params /= current_epoch + 1
+            self._mean_rav_params /= self._n_collected_params + 1
 
-            self._mean_squared_rav_params *= current_epoch
+            self._mean_squared_rav_params *= self._n_collected_params
             self._mean_squared_rav_params += rav_params**2
-            self._mean_squared_rav_params /= current_epoch + 1
+            self._mean_squared_rav_params /= self._n_collected_params + 1
             self._deviation_rav_params = jnp.concatenate(
                 (
                     self._deviation_rav_params[:, -kwargs["rank"] + 1 :],
@@ -99,6 +101,7 @@ class SWAGTrainer(MAPTrainer):
                 ),
                 axis=1,
             )
+        self._n_collected_params += 1
         return super().training_step_end(
             current_epoch, state, aux, batch, metrics, callbacks, kwargs
         )
-- 
2.43.0


From 158b9704a64cc5309a406eea3c4393693d1b3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:03 +0000
Subject: [PATCH 56/61] fix: the probit model editor crashed, and varied
 running statistics as if they were parameters

---
 fortuna/model/model_manager/classification.py | 5 +++--
 fortuna/utils/grad.py                         | 7 +++++--
 fortuna/utils/probit.py                       | 7 +++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/fortuna/model/model_manager/classification.py b/fortuna/model/model_manager/classification.py
index ba92d3a..94725d9 100644
--- a/fortuna/model/model_manager/classification.py
+++ b/fortuna/model/model_manager/classification.py
@@ -63,14 +63,15 @@ class ClassificationModelManager(ModelManager):
         else:
             rngs = None
 
+        # keep mutable objects apart, as they are not parameters for the model editor
+        mutable_variables = {}
         if mutable is not None:
             mutable_variables = mutable["model"].unfreeze()
-            variables.update(mutable_variables)
             mutable = list(mutable_variables.keys())
 
         def apply_fn(v, x):
             _outputs = self.model.apply(
-                v,
+                {**v, **mutable_variables},
                 x,
                 mutable=mutable if mutable is not None else False,
                 train=train,
diff --git a/fortuna/utils/grad.py b/fortuna/utils/grad.py
index d415d22..0c2b6de 100644
--- a/fortuna/utils/grad.py
+++ b/fortuna/utils/grad.py
@@ -6,7 +6,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 from jax import (
     jacrev,
     vmap,
@@ -40,7 +43,7 @@ def value_and_jacobian_squared_row_norm(
     freeze_fun: Optional[Callable[[Tuple[AnyKey, ...], Array], str]] = None,
     top_k: Optional[int] = None,
 ) -> Tuple[Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]], jnp.ndarray]:
-    params = params.unfreeze()
+    params = unfreeze(params)
 
     params_paths = None
     sub_params = None
diff --git a/fortuna/utils/probit.py b/fortuna/utils/probit.py
index fdb6199..a5dc914 100644
--- a/fortuna/utils/probit.py
+++ b/fortuna/utils/probit.py
@@ -6,7 +6,10 @@ from typing import (
     Union,
 )
 
-from flax.core import FrozenDict
+from flax.core import (
+    FrozenDict,
+    unfreeze,
+)
 from jax import (
     jit,
     jvp,
@@ -66,7 +69,7 @@ def sequential_probit_scaling(
     n_final_tokens: Optional[int] = None,
     stop_gradient: bool = False,
 ) -> Union[jnp.ndarray, Tuple[jnp.ndarray, Dict]]:
-    params = params.unfreeze()
+    params = unfreeze(params)
 
     params_paths = None
     sub_params = None
-- 
2.43.0


From b4a98ba2eca57e50fe9eb4d52f266bad5093dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 57/61] fix: probit scaling with a bounded memory, with top-k
 outputs and with a single token

---
 fortuna/utils/probit.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/fortuna/utils/probit.py b/fortuna/utils/probit.py
index a5dc914..91bc82e 100644
--- a/fortuna/utils/probit.py
+++ b/fortuna/utils/probit.py
@@ -101,7 +101,8 @@ def sequential_probit_scaling(
 
     if f.ndim > 3:
         raise ValueError("The model outputs can be at most three dimensional.")
-    if f.ndim == 2:
+    is_sequence = f.ndim == 3
+    if not is_sequence:
         f = f[:, None]
 
     n_outputs = f.shape[-1]
@@ -183,8 +184,26 @@ def sequential_probit_scaling(
         M = jnp.matmul(P, Jinv)
         C = S - jnp.matmul(M, P.swapaxes(1, 2))
 
-        M = M[:, :, block_size:]
-        Jinv = Jinv[:, block_size:, block_size:]
+        diagC = get_diag(C)
+
+        # forget the oldest token: marginalize it out of the inverse, unless the slot is empty
+        if memory > 1:
+            oldest = jnp.where(
+                old_taus[0] == -1,
+                jnp.eye(block_size),
+                Jinv[:, :block_size, :block_size],
+            )
+            cross = Jinv[:, :block_size, block_size:]
+            Jinv = Jinv[:, block_size:, block_size:] - jnp.matmul(
+                cross.swapaxes(1, 2), jnp.linalg.solve(oldest, cross)
+            )
+            P = P[:, :, block_size:]
+            M = jnp.matmul(P, Jinv)
+            C = S - jnp.matmul(M, P.swapaxes(1, 2))
+        else:
+            Jinv = Jinv[:, block_size:, block_size:]
+            M = M[:, :, block_size:]
+            C = S
         Cinv = jnp.linalg.inv(C)
         MtCinv = jnp.matmul(M.swapaxes(1, 2), Cinv)
 
@@ -197,7 +216,7 @@ def sequential_probit_scaling(
         )
 
         old_taus = jnp.concatenate((old_taus[1:], jnp.array([tau])))
-        return (Jinv, old_taus), get_diag(C)
+        return (Jinv, old_taus), diagC
 
     def get_diagCs(_params):
         old_taus = jnp.concatenate(
@@ -246,9 +265,9 @@ def sequential_probit_scaling(
         scales = vmap(
             lambda i: vmap(
                 lambda j: scales[i, j]
-                .at[indices[i, j]]
-                .set(diagCs[i, j, indices[i, j]])
-            )(jnp.arange(seq_length - n_final_tokens, seq_length))
+                .at[indices[i, seq_length - n_final_tokens + j]]
+                .set(diagCs[i, j])
+            )(jnp.arange(n_final_tokens))
         )(jnp.arange(batch_size))
     else:
         scales = diagCs
@@ -262,7 +281,7 @@ def sequential_probit_scaling(
         axis=1,
     )
 
-    if seq_length == 1:
+    if not is_sequence:
         f = f[:, 0]
 
     if has_aux:
-- 
2.43.0


From 9917f8ddadca5ab3f7fb1562ea478c8dcb8776ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:39 +0000
Subject: [PATCH 58/61] fix: SNGP models applied their model editor twice

---
 fortuna/model/model_manager/classification.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/fortuna/model/model_manager/classification.py b/fortuna/model/model_manager/classification.py
index 94725d9..24ea063 100644
--- a/fortuna/model/model_manager/classification.py
+++ b/fortuna/model/model_manager/classification.py
@@ -263,21 +263,10 @@ class SNGPClassificationModelManagerMixin:
 
         has_aux = mutable is not None and train
 
-        def apply_fn(p, x):
-            return super(SNGPClassificationModelManagerMixin, self).apply(
-                p, x, deep_feature_extractor_mutable, train, rng
-            )
-
-        if self.model_editor is not None:
-            deep_feature_extractor_outputs = self.model_editor.apply(
-                params["model_editor"],
-                apply_fn=apply_fn,
-                model_params=params,
-                x=inputs,
-                has_aux=has_aux,
-            )
-        else:
-            deep_feature_extractor_outputs = apply_fn(params, inputs)
+        # the model editor, if any, is applied by the parent class
+        deep_feature_extractor_outputs = super(
+            SNGPClassificationModelManagerMixin, self
+        ).apply(params, inputs, deep_feature_extractor_mutable, train, rng)
 
         variables = params["model"].unfreeze()
         if mutable is not None:
-- 
2.43.0


From 6959bf25916fad5f05e60ed7c08328393725ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:21 +0000
Subject: [PATCH 59/61] fix: hallucination scores depended on the batch,
 balancing changed the user's lists, constant features broke the grouping, and
 cleaning lowered the case of later sentences

---
 fortuna/hallucination/base.py                 | 55 ++++++++++++++-----
 .../hallucination/grouping/clustering/base.py | 13 ++++-
 fortuna/hallucination/utils/string.py         | 10 +++-
 3 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/fortuna/hallucination/base.py b/fortuna/hallucination/base.py
index 193628f..a63eafa 100644
--- a/fortuna/hallucination/base.py
+++ b/fortuna/hallucination/base.py
@@ -1,3 +1,4 @@
+from inspect import signature
 import logging
 import pickle
 from typing import (
@@ -253,8 +254,10 @@ class HallucinationMulticalibrator:
         for batch_texts, batch_contexts in tqdm(
             gen, total=int(np.ceil(len(texts) / batch_size))
         ):
-            logits, _scores = self._get_logits_scores(batch_texts, batch_contexts)
-            embeddings.append(logits.mean(1))
+            _embeddings, _scores = self._get_embeddings_scores(
+                batch_texts, batch_contexts
+            )
+            embeddings.append(_embeddings)
             scores.append(_scores)
 
         return (
@@ -267,29 +270,49 @@ class HallucinationMulticalibrator:
         for i in range(0, len(texts), batch_size):
             yield texts[i : i + batch_size], contexts[i : i + batch_size]
 
-    def _get_logits_scores(
-        self, texts: str, contexts: str
+    def _get_embeddings_scores(
+        self, texts: List[str], contexts: List[str]
     ) -> Tuple[np.ndarray, np.ndarray]:
-        context_inputs = self.tokenizer(contexts, return_tensors="pt", padding=True).to(
-            self.generative_model.device
-        )
-        text_inputs = self.tokenizer(texts, return_tensors="pt", padding=True).to(
-            self.generative_model.device
-        )
+        # pad contexts on the left and texts on the right, such that they stay next to each other
+        context_inputs = self._tokenize(contexts, padding_side="left")
+        text_inputs = self._tokenize(texts, padding_side="right")
         inputs = {
             k: torch.cat((context_inputs[k], v), dim=1) for k, v in text_inputs.items()
         }
+        mask = inputs["attention_mask"].bool()
+        n_final_tokens = text_inputs["attention_mask"].sum(1)
+        if "position_ids" in signature(self.generative_model.forward).parameters:
+            inputs["position_ids"] = (mask.long().cumsum(1) - 1).clamp(min=0)
 
         with torch.no_grad():
             _logits = self.generative_model(**inputs).logits
 
-            _scores = self.scoring_fn(
-                logits=_logits,
-                labels=inputs["input_ids"],
-                n_final_tokens=text_inputs.input_ids.shape[1],
+            # drop the padding, which depends on the other inputs in the batch
+            _scores = torch.cat(
+                [
+                    self.scoring_fn(
+                        logits=_logits[i][mask[i]][None],
+                        labels=inputs["input_ids"][i][mask[i]][None],
+                        n_final_tokens=int(n_final_tokens[i]),
+                    )
+                    for i in range(len(texts))
+                ]
             )
+            _embeddings = torch.stack(
+                [_logits[i][mask[i]].mean(0) for i in range(len(texts))]
+            )
+
+        return _embeddings.cpu().numpy(), _scores.cpu().numpy()
 
-        return _logits.cpu().numpy(), _scores.cpu().numpy()
+    def _tokenize(self, strings: List[str], padding_side: str):
+        default_padding_side = self.tokenizer.padding_side
+        self.tokenizer.padding_side = padding_side
+        try:
+            return self.tokenizer(strings, return_tensors="pt", padding=True).to(
+                self.generative_model.device
+            )
+        finally:
+            self.tokenizer.padding_side = default_padding_side
 
     def _balance_data(
         self, texts: List[str], contexts: List[str], targets: List[int]
@@ -300,6 +323,8 @@ class HallucinationMulticalibrator:
         idx = self.rng.choice(
             idx0 if len_diff > 0 else idx1, np.abs(len_diff), replace=True
         )
+        # do not modify the lists of the user
+        texts, contexts, targets = list(texts), list(contexts), list(targets)
         for i in idx:
             texts.append(texts[i])
             contexts.append(contexts[i])
diff --git a/fortuna/hallucination/grouping/clustering/base.py b/fortuna/hallucination/grouping/clustering/base.py
index da899e9..9efedbe 100644
--- a/fortuna/hallucination/grouping/clustering/base.py
+++ b/fortuna/hallucination/grouping/clustering/base.py
@@ -11,6 +11,11 @@ class GroupingModel:
     Grouping model based on clustering of embeddings.
     """
 
+    def __init__(self):
+        self._clustering_model = None
+        self._mean = None
+        self._std = None
+
     def fit(
         self,
         embeddings: np.ndarray,
@@ -121,13 +126,17 @@ class GroupingModel:
     def _store_embeddings_stats(self, embeddings):
         self._mean = np.mean(embeddings, axis=0, keepdims=True)
         self._std = np.std(embeddings, axis=0, keepdims=True)
+        # features which are constant carry no information, and should not be divided by zero
+        self._std = np.where(self._std > 0, self._std, 1.0)
 
     def _fit_best_model(self, embeddings: np.ndarray, models: List) -> None:
-        best_bic = np.inf
+        if len(models) == 0:
+            raise ValueError("At least one clustering model must be provided.")
+        best_bic = None
         for model in models:
             model = model.fit(embeddings)
             bic = model.bic(embeddings)
-            if bic < best_bic:
+            if best_bic is None or bic < best_bic:
                 best_bic = bic
                 best_model = model
         self._clustering_model = best_model
diff --git a/fortuna/hallucination/utils/string.py b/fortuna/hallucination/utils/string.py
index 0e7a36e..b954a56 100644
--- a/fortuna/hallucination/utils/string.py
+++ b/fortuna/hallucination/utils/string.py
@@ -17,8 +17,14 @@ def string_cleaner(text: str) -> str:
     text = re.sub(r'\s([?.,%!"](?:\s|$))', r"\1", text)
 
     text = ". ".join(map(lambda s: s.strip().capitalize(), text.split(".")))
-    text = "? ".join(map(lambda s: s.strip().capitalize(), text.split("?")))
-    text = "! ".join(map(lambda s: s.strip().capitalize(), text.split("!")))
+    text = "? ".join(map(_capitalize_first, text.split("?")))
+    text = "! ".join(map(_capitalize_first, text.split("!")))
     text = " ' ".join(map(lambda s: s.strip(), text.split("'")))
     text = text.replace(" ' ", "'")
     return text
+
+
+def _capitalize_first(text: str) -> str:
+    # unlike `str.capitalize`, do not change the case of the sentences that follow
+    text = text.strip()
+    return text[:1].upper() + text[1:]
-- 
2.43.0


From fe52dd1c047428c849825c01e2d1599d04c93a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:21 +0000
Subject: [PATCH 60/61] fix: binary multicalibrators refused targets of one
 class

---
 .../multivalid/mixins/classification/binary_multicalibrator.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/mixins/classification/binary_multicalibrator.py b/fortuna/conformal/multivalid/mixins/classification/binary_multicalibrator.py
index de100ae..63605b2 100644
--- a/fortuna/conformal/multivalid/mixins/classification/binary_multicalibrator.py
+++ b/fortuna/conformal/multivalid/mixins/classification/binary_multicalibrator.py
@@ -35,7 +35,7 @@ class BinaryClassificationMulticalibratorMixin(MulticalibratorMixin):
     def _check_scores(scores: Array):
         if scores.ndim != 1:
             raise ValueError("`targets` must be a 1-dimensional array of integers.")
-        if set(jnp.unique(scores).tolist()) != {0, 1}:
+        if not set(jnp.unique(scores).tolist()) <= {0, 1}:
             raise ValueError("All values in `targets` must be 0 or 1.")
         if scores.dtype not in ["int32", "int64"]:
             raise ValueError("All elements in `targets` must be integers")
-- 
2.43.0


From 024d98c8e362fde46334f4fad3b8ba798275a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:35 +0000
Subject: [PATCH 61/61] fix: saving an ensemble or a Markov chain ignored the
 directory, and a dumped ensemble could not be fitted further

---
 .../deep_ensemble/deep_ensemble_posterior.py  | 41 ++++++++++---------
 .../posterior/sgmcmc/sgmcmc_posterior.py      | 20 ++++++++-
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index 0068e45..2ec94e5 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -162,23 +162,15 @@ class DeepEnsemblePosterior(Posterior):
                 gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
             )
 
-        if isinstance(self.state, PosteriorMultiStateRepository):
-            for i in range(self.posterior_approximator.ensemble_size):
-                self.state.state[i].checkpoint_dir = (
-                    pathlib.Path(fit_config.checkpointer.save_checkpoint_dir) / str(i)
-                    if fit_config.checkpointer.save_checkpoint_dir is not None
-                    and fit_config.checkpointer.dump_state
-                    else None
-                )
-        else:
-            self.state = PosteriorMultiStateRepository(
-                size=self.posterior_approximator.ensemble_size,
-                checkpoint_dir=(
-                    fit_config.checkpointer.save_checkpoint_dir
-                    if fit_config.checkpointer.dump_state is True
-                    else None
-                ),
-            )
+        # members may start from the current state, which must be readable until all are fitted
+        state_repository = PosteriorMultiStateRepository(
+            size=self.posterior_approximator.ensemble_size,
+            checkpoint_dir=(
+                fit_config.checkpointer.save_checkpoint_dir
+                if fit_config.checkpointer.dump_state is True
+                else None
+            ),
+        )
 
         status = []
         for i in range(self.posterior_approximator.ensemble_size):
@@ -186,10 +178,11 @@ class DeepEnsemblePosterior(Posterior):
                 f"Run {i+1} out of {self.posterior_approximator.ensemble_size}."
             )
             state, _status = _fit(i)
-            self.state.put(
+            state_repository.put(
                 state=state, i=i, keep=fit_config.checkpointer.keep_top_n_checkpoints
             )
             status.append(_status)
+        self.state = state_repository
         logging.info("Fit completed.")
         return status
 
@@ -226,8 +219,18 @@ class DeepEnsemblePosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
+        if self.state is None:
+            raise ValueError(
+                """No state available. You must first either fit the posterior distribution, or load a
+            saved checkpoint."""
+            )
         for i in range(self.posterior_approximator.ensemble_size):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            self.state.put(
+                state=self.state.get(i),
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
 
     def _init_map_state(
         self, state: Optional[MAPState], data_loader: DataLoader, fit_config: FitConfig
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index cc2b763..fb4c8ba 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -83,8 +83,26 @@ class SGMCMCPosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
+        if self.state is None:
+            raise ValueError(
+                """No state available. You must first either fit the posterior distribution, or load a
+            saved checkpoint."""
+            )
         for i in range(self.posterior_approximator.n_samples):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            state = self.state.get(i)
+            self.state.put(
+                state=state,
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
+        # the state of the chain, from which it can be continued, is its last sample
+        self.save_checkpoint(
+            state,
+            pathlib.Path(checkpoint_dir) / "c",
+            keep=keep_top_n_checkpoints,
+            force_save=True,
+        )
 
     def _restore_state_from_somewhere(
         self,
-- 
2.43.0

