From 2575305177a10b85f6babd03835c85b6bf90e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 01/41] fix: mask target labels on a copy instead of the
 caller's array

---
 skada/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index b5d1f7e..f3030de 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -351,6 +351,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         if y is not None and routed_params.get('sample_domain') is not None:
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
+            # work on a copy: the array given belongs to the caller
+            y = y.copy()
             if y_type == Y_Type.DISCRETE:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
-- 
2.43.0


From 9dcd6736e34078b16542e503fb21c1ea6300e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 02/41] fix: GradualEstimator fits clones of the supplied
 estimator and OT method

Fitting increased max_iter of the caller's estimator, fitted it in place, and
fitted the OT method shared by every instance built with the default argument,
so fitting again gave another model than a fresh fit.
---
 skada/_gradual_da.py | 61 +++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 81f19be..f6b123d 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -7,6 +7,7 @@ from copy import deepcopy
 
 import numpy as np
 from ot import da
+from sklearn.base import clone
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -108,8 +109,9 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
 
         # Compute the OT mapping between source and target
-        self.ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
-        gamma = self.ot_method.coupling_
+        self.ot_method_ = clone(self.ot_method)
+        self.ot_method_.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
+        gamma = self.ot_method_.coupling_
         if self.advanced_ot_plan_sampling:
             mask_gamma = self._advanced_cut_off_gamma(gamma)
         else:
@@ -125,20 +127,25 @@ class GradualEstimator(DAEstimator):
                 "learning_rate_init": 0.001,
                 "max_iter": 100,
             }
-            self.base_estimator = MLPClassifier(**default_params)
-        self.base_estimator.fit(X[source], y[source])
+            base_estimator = MLPClassifier(**default_params)
+        else:
+            base_estimator = clone(self.base_estimator)
+        # the supplied estimator and OT method are parameters: only their clones
+        # are fitted and have their number of iterations increased
+        self.base_estimator_ = base_estimator
+        self.base_estimator_.fit(X[source], y[source])
         if self.save_estimators:
-            self.estimators_.append(deepcopy(self.base_estimator))
+            self.estimators_.append(deepcopy(self.base_estimator_))
         if self.save_intermediate_data:
             self.intermediate_data_ = []
         for step in range(1, self.n_steps + 1):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator.max_iter += 100
-            self.base_estimator.fit(X_step, y_step)
+            self.base_estimator_.max_iter += 100
+            self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
-                self.estimators_.append(deepcopy(self.base_estimator))
+                self.estimators_.append(deepcopy(self.base_estimator_))
             if self.save_intermediate_data:
                 self.intermediate_data_.append((X_step, y_step))
         return self
@@ -198,7 +205,7 @@ class GradualEstimator(DAEstimator):
                 i
             ] / self.n_steps + step * X_target[j] / self.n_steps
 
-        y_step = self.base_estimator.predict(
+        y_step = self.base_estimator_.predict(
             X_step
         )  # Use the classifier to predict labels
         return X_step, y_step
@@ -226,14 +233,10 @@ class GradualEstimator(DAEstimator):
         y_pred : array-like, shape (n_samples,)
             The predicted labels.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
         # Use the last classifier to predict
-        return self.base_estimator.predict(X, **kwargs)
+        return self.base_estimator_.predict(X, **kwargs)
 
     def predict_proba(self, X, **kwargs):
         """Predict class probabilities for the input data.
@@ -248,16 +251,12 @@ class GradualEstimator(DAEstimator):
         y_proba : array-like, shape (n_samples, n_classes)
             The predicted class probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        if not hasattr(self.base_estimator, "predict_proba"):
+        if not hasattr(self.base_estimator_, "predict_proba"):
             raise ValueError("The underlying estimator does not support predict_proba.")
 
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def predict_log_proba(self, X, **kwargs):
         """Predict class log-probabilities for the input data.
@@ -272,18 +271,14 @@ class GradualEstimator(DAEstimator):
         y_log_proba : array-like, shape (n_samples, n_classes)
             The predicted class log-probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
+        check_is_fitted(self, "base_estimator_")
 
-        else:
-            check_is_fitted(self.base_estimator)
-
-        if not hasattr(self.base_estimator, "predict_log_proba"):
+        if not hasattr(self.base_estimator_, "predict_log_proba"):
             raise ValueError(
                 "The underlying estimator does not support predict_log_proba."
             )
 
-        return self.base_estimator.predict_log_proba(X, **kwargs)
+        return self.base_estimator_.predict_log_proba(X, **kwargs)
 
     def score(self, X, y):
         """Compute the accuracy of the model on the given data.
@@ -300,10 +295,6 @@ class GradualEstimator(DAEstimator):
         score : float
             The accuracy of the model.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        return (self.base_estimator.predict(X) == y).sum() / len(y)
+        return (self.base_estimator_.predict(X) == y).sum() / len(y)
-- 
2.43.0


From e1db54ecc110ad90c98975ffd1604be3817df87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 03/41] fix: DASVMClassifier fits a clone and predicts
 probabilities with the adapted model

---
 skada/_self_labeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 99d6acd..6e6cbed 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -169,7 +169,7 @@ class DASVMClassifier(DAEstimator):
 
         X_train = Xs
         y_train = ys
-        new_estimator = self.base_estimator
+        new_estimator = clone(self.base_estimator)
         new_estimator.fit(X_train, y_train)
 
         if self.save_estimators:
@@ -293,7 +293,7 @@ class DASVMClassifier(DAEstimator):
         `predict_proba` method from the estimator we fitted
         """
         check_is_fitted(self)
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def decision_function(self, X):
         """Return values of the decision function of the
-- 
2.43.0


From 629ba3e223c3620e004c2b9300475249db8a5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 04/41] fix: KLIEPReweightAdapter keeps its gamma parameter
 when fitted

---
 skada/_reweight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 8395d76..3f0d9c0 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -484,9 +484,9 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if isinstance(self.gamma, list):
-            self.gamma = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
+            gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
-                self.gamma, X_source, X_target
+                gammas, X_source, X_target
             )
         else:
             self.best_gamma_ = self._auto_scale_gammas(self.gamma, X)
-- 
2.43.0


From 8fcd0db0b9873fbb06a93015e587a04d58f3dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 05/41] fix: NearestNeighborReweightAdapter honours parameters
 changed after construction

---
 skada/_reweight.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 3f0d9c0..9d90508 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -753,7 +753,10 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.metric_params = metric_params
         self.n_jobs = n_jobs
         self.laplace_smoothing = laplace_smoothing
-        self.base_estimator = KNeighborsClassifier(
+
+    def _make_estimator(self):
+        """Neighbors classifier with the current parameters."""
+        return KNeighborsClassifier(
             n_neighbors=self.n_neighbors,
             weights=self.weights,
             algorithm=self.algorithm,
@@ -786,14 +789,14 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.X_source_fit = X_source
         indices_source = np.arange(X_source.shape[0])
 
-        self.estimator_ = clone(self.base_estimator)
+        self.estimator_ = self._make_estimator()
         self.estimator_.fit(X_source, indices_source)
 
         return self
 
     def _get_weights(self, Xs, Xt):
         indices_source = np.arange(Xs.shape[0])
-        estimator = clone(self.base_estimator)
+        estimator = self._make_estimator()
         estimator.fit(Xs, indices_source)
         predictions = estimator.predict(Xt)
 
@@ -811,7 +814,7 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         if np.array_equal(self.X_source_fit, X[source_idx]):
             estimator = self.estimator_
         else:
-            estimator = clone(self.base_estimator)
+            estimator = self._make_estimator()
             estimator.fit(X[source_idx], indices_source)
         weights = np.ones(X.shape[0])
         weights[source_idx] = self._get_weights(X[source_idx], X[~source_idx])
-- 
2.43.0


From 263218e04550ffa18b7888d7e6cc393f8f6e640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 06/41] fix: NearestNeighborReweightAdapter selects target
 samples by mask

Negating integer positions picked rows counted from the end of the array, so the
weights depended on the order and number of samples.
---
 skada/_reweight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 9d90508..d8807bc 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -807,9 +807,10 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
 
     def compute_weights(self, X, y=None, *, sample_domain=None, **params):
         X, sample_domain = check_X_domain(X, sample_domain, allow_source=True)
-        source_idx = extract_source_indices(sample_domain)
+        source_mask = extract_source_indices(sample_domain)
         # xxx(okachaiev): do we need np.where here?
-        (source_idx,) = np.where(source_idx)
+        (source_idx,) = np.where(source_mask)
+        (target_idx,) = np.where(~source_mask)
         indices_source = np.arange(X[source_idx].shape[0])
         if np.array_equal(self.X_source_fit, X[source_idx]):
             estimator = self.estimator_
@@ -817,7 +818,7 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
             estimator = self._make_estimator()
             estimator.fit(X[source_idx], indices_source)
         weights = np.ones(X.shape[0])
-        weights[source_idx] = self._get_weights(X[source_idx], X[~source_idx])
+        weights[source_idx] = self._get_weights(X[source_idx], X[target_idx])
         return weights
 
 
-- 
2.43.0


From f6b65d03678702339fee9c403b2ffa3fd798d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 07/41] fix: cloning a selector keeps its label masking choice
 and its position

---
 skada/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index f3030de..3ad3f1c 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -279,6 +279,14 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         self.base_estimator.set_params(**kwargs)
         return self
 
+    def __sklearn_clone__(self):
+        # neither of these is a parameter returned by `get_params`
+        cloned = super().__sklearn_clone__()
+        for name in ('mask_target_labels', '_is_final'):
+            if hasattr(self, name):
+                setattr(cloned, name, getattr(self, name))
+        return cloned
+
     def _mark_as_final(self):
         self._is_final = True
         return self
-- 
2.43.0


From 89931651953af9e85573329ae50e4ec7d09b8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 08/41] fix: SelectSourceTarget stores mask_target_labels so
 that it can be copied and reconfigured

---
 skada/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/base.py b/skada/base.py
index 3ad3f1c..7ce049a 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -624,6 +624,7 @@ class SelectSourceTarget(BaseSelector):
         
         self.source_estimator = source_estimator
         self.target_estimator = target_estimator
+        self.mask_target_labels = mask_target_labels
         # xxx(okachaiev): the fact that we need to put those variables
         # here means that the choice of the base class is suboptimal
         self._is_final = False
-- 
2.43.0


From 4f260e03ed79154878494edc7ad4d9cf6cc94894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 09/41] fix: objects built with default arguments no longer
 share one estimator instance

---
 skada/_gradual_da.py | 24 ++++++++++++++----------
 skada/_mapping.py    | 10 +++++++---
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index f6b123d..f01451c 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -28,8 +28,9 @@ class GradualEstimator(DAEstimator):
         Only used when `advanced_ot_plan_sampling=False`.
     n_steps : int, default=10
         The number of adaptation steps.
-    ot_method : ot.da.BaseTransport, default=SinkhornTransport
-        The Optimal Transport method to use.
+    ot_method : ot.da.BaseTransport, default=None
+        The Optimal Transport method to use. If None, a SinkhornTransport with
+        `reg_e=1` is used.
     base_estimator : BaseEstimator, default=None
         The classifier to use. If None, a MLPClassifier with default parameters is
         used. Note that the GOAT algorithm is designed for neural-networks methods.
@@ -67,13 +68,7 @@ class GradualEstimator(DAEstimator):
         self,
         alpha=1,
         n_steps=10,
-        ot_method=da.SinkhornTransport(
-            reg_e=1.0,
-            metric="sqeuclidean",
-            norm=None,
-            max_iter=1000,
-            tol=1e-8,
-        ),
+        ot_method=None,
         base_estimator=None,
         advanced_ot_plan_sampling=False,
         save_estimators=False,
@@ -109,7 +104,16 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
 
         # Compute the OT mapping between source and target
-        self.ot_method_ = clone(self.ot_method)
+        if self.ot_method is None:
+            self.ot_method_ = da.SinkhornTransport(
+                reg_e=1.0,
+                metric="sqeuclidean",
+                norm=None,
+                max_iter=1000,
+                tol=1e-8,
+            )
+        else:
+            self.ot_method_ = clone(self.ot_method)
         self.ot_method_.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
         gamma = self.ot_method_.coupling_
         if self.advanced_ot_plan_sampling:
diff --git a/skada/_mapping.py b/skada/_mapping.py
index cb1caf9..38ce793 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -380,7 +380,7 @@ class ClassRegularizerOTMappingAdapter(BaseOTMappingAdapter):
 
 
 def ClassRegularizerOTMapping(
-    base_estimator=SVC(kernel="rbf"),
+    base_estimator=None,
     metric="sqeuclidean",
     norm="lpl1",
     max_iter=10,
@@ -395,8 +395,9 @@ def ClassRegularizerOTMapping(
 
     Parameters
     ----------
-    base_estimator : object, optional (default=SVC(kernel="rbf"))
-        The base estimator to fit on the target dataset.
+    base_estimator : object, optional (default=None)
+        The base estimator to fit on the target dataset. If None, a new
+        SVC(kernel="rbf") is used.
     reg_e : float, default=1
         Entropic regularization parameter.
     reg_cl : float, default=0.1
@@ -426,6 +427,9 @@ def ClassRegularizerOTMapping(
            Optimal Transport for Domain Adaptation, in IEEE
            Transactions on Pattern Analysis and Machine Intelligence
     """
+    if base_estimator is None:
+        base_estimator = SVC(kernel="rbf")
+
     ot_mapping = make_da_pipeline(
         ClassRegularizerOTMappingAdapter(
             metric=metric,
-- 
2.43.0


From 687ef9bb8b75f2cd065d6875b3e879f155422fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 10/41] fix: scorers keep their per-call estimators local so
 that one scorer can serve concurrent calls

---
 skada/metrics.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 186018a..021fde4 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -150,17 +150,19 @@ class ImportanceWeightedScorer(_BaseDomainAwareScorer):
 
         Returns
         -------
-        self : object
-            Returns self.
+        weight_estimator_source, weight_estimator_target : objects
+            The estimators fitted on the source and on the target data.
         """
         weight_estimator = self.weight_estimator
         if weight_estimator is None:
             weight_estimator = KernelDensity()
-        self.weight_estimator_source_ = clone(weight_estimator)
-        self.weight_estimator_target_ = clone(weight_estimator)
-        self.weight_estimator_source_.fit(X_source)
-        self.weight_estimator_target_.fit(X_target)
-        return self
+        # The scorer may be shared by concurrent calls, hence each call works
+        # with its own estimators and only publishes them as attributes.
+        weight_estimator_source = clone(weight_estimator).fit(X_source)
+        weight_estimator_target = clone(weight_estimator).fit(X_target)
+        self.weight_estimator_source_ = weight_estimator_source
+        self.weight_estimator_target_ = weight_estimator_target
+        return weight_estimator_source, weight_estimator_target
 
     def _score(self, _, estimator, X, y, sample_domain=None, **params):
         scorer = check_scoring(estimator, self.scoring)
@@ -183,9 +185,11 @@ class ImportanceWeightedScorer(_BaseDomainAwareScorer):
         X_source_reshaped = X_source.reshape(X_source.shape[0], -1)
         X_target_reshaped = X_target.reshape(X_target.shape[0], -1)
 
-        self._fit(X_source_reshaped, X_target_reshaped)
-        ws = self.weight_estimator_source_.score_samples(X_source_reshaped)
-        wt = self.weight_estimator_target_.score_samples(X_source_reshaped)
+        weight_estimator_source, weight_estimator_target = self._fit(
+            X_source_reshaped, X_target_reshaped
+        )
+        ws = weight_estimator_source.score_samples(X_source_reshaped)
+        wt = weight_estimator_target.score_samples(X_source_reshaped)
         weights = np.exp(wt - ws)
 
         if weights.sum() != 0:
@@ -389,12 +393,13 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
         domain_classifier = self.domain_classifier
         if domain_classifier is None:
             domain_classifier = LogisticRegression()
-        self.domain_classifier_ = clone(domain_classifier)
+        # The scorer may be shared by concurrent calls, hence each call works
+        # with its own classifier and only publishes it as an attribute.
+        domain_classifier = clone(domain_classifier)
         y_domain = np.concatenate((len(features) * [1], len(features_target) * [0]))
-        self.domain_classifier_.fit(
-            np.concatenate((features, features_target)), y_domain
-        )
-        return self
+        domain_classifier.fit(np.concatenate((features, features_target)), y_domain)
+        self.domain_classifier_ = domain_classifier
+        return domain_classifier
 
     def _score(self, _, estimator, X, y, sample_domain=None, **kwargs):
         if not hasattr(estimator, "predict_proba"):
@@ -456,9 +461,9 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             features_val = features_val.detach().numpy()
             features_target = features_target.detach().numpy()
 
-        self._fit_adapt(features_train, features_target)
+        domain_classifier = self._fit_adapt(features_train, features_target)
         N_train, N_target = len(features_train), len(features_target)
-        domain_pred = self.domain_classifier_.predict_proba(features_val)
+        domain_pred = domain_classifier.predict_proba(features_val)
         weights = (N_train / N_target) * domain_pred[:, :1] / domain_pred[:, 1:]
         y_pred = estimator.predict_proba(
             X_val, sample_domain=sample_domain_val, allow_source=True
-- 
2.43.0


From 96e81138d4b5cbecdea953d20bbcf8270f605dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 11/41] fix: data set loaders install a data set only once it
 is complete

---
 skada/datasets/_amazon_review.py | 10 +++------
 skada/datasets/_base.py          | 36 ++++++++++++++++++++++++++++++++
 skada/datasets/_office.py        | 10 +++------
 skada/datasets/_office_home.py   | 18 +++++-----------
 4 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/skada/datasets/_amazon_review.py b/skada/datasets/_amazon_review.py
index feacd66..96ded91 100644
--- a/skada/datasets/_amazon_review.py
+++ b/skada/datasets/_amazon_review.py
@@ -16,7 +16,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _staged_dataset, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -205,12 +205,8 @@ def _fetch_amazon_review(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_amazon_review(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _staged_dataset(dataset_dir) as staging_dirs:
+            _download_amazon_review(loader_spec.remote, *staging_dirs)
 
     (X, y) = _load_amazon_review(
         dataset_dir,
diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 20974c5..2f19419 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -4,7 +4,10 @@
 # License: BSD 3-Clause
 
 import os
+import shutil
+import tempfile
 import warnings
+from contextlib import contextmanager
 from functools import reduce
 from typing import Dict, Iterable, List, Literal, Mapping, Optional, Tuple, Union
 
@@ -81,6 +84,39 @@ def get_data_home(data_home: Union[str, os.PathLike, None]) -> str:
     return data_home
 
 
+@contextmanager
+def _staged_dataset(dataset_dir: str, extract_root: bool = False):
+    """Fill `dataset_dir` in one step, so that it exists only when complete.
+
+    Yields two private folders located next to `dataset_dir`: one for the downloaded
+    archive and one for the extracted files. When the block succeeds, the extracted
+    files are moved to `dataset_dir`, unless another process got there first.
+
+    Parameters
+    ----------
+    dataset_dir : str
+        Final location of the dataset.
+    extract_root : bool, default=False
+        True when the archive has a root folder with the name of `dataset_dir`.
+    """
+    data_home, name = os.path.split(dataset_dir)
+    staging_dir = tempfile.mkdtemp(prefix=f"{name}.part_", dir=data_home)
+    try:
+        download_dir = os.path.join(staging_dir, "download")
+        extract_dir = os.path.join(staging_dir, "extract")
+        os.mkdir(download_dir)
+        os.mkdir(extract_dir)
+        yield download_dir, extract_dir
+        complete_dir = os.path.join(extract_dir, name) if extract_root else extract_dir
+        try:
+            os.rename(complete_dir, dataset_dir)
+        except OSError:
+            if not os.path.exists(dataset_dir):
+                raise
+    finally:
+        shutil.rmtree(staging_dir, ignore_errors=True)
+
+
 class DomainAwareDataset:
     """
     Container carrying all dataset domains.
diff --git a/skada/datasets/_office.py b/skada/datasets/_office.py
index fb44322..d72700a 100644
--- a/skada/datasets/_office.py
+++ b/skada/datasets/_office.py
@@ -21,7 +21,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _staged_dataset, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -403,14 +403,10 @@ def _fetch_office31(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
         # juggling with `extract_root` is only required because SURF features
         # were archived with root folder and DECAF without it
-        _download_office31(
-            loader_spec.remote,
-            data_home,
-            data_home if loader_spec.extract_root else dataset_dir,
-        )
+        with _staged_dataset(dataset_dir, loader_spec.extract_root) as staging_dirs:
+            _download_office31(loader_spec.remote, *staging_dirs)
     if categories == Office31CategoriesPreset.ALL:
         # reset categories filter
         categories = None
diff --git a/skada/datasets/_office_home.py b/skada/datasets/_office_home.py
index 38f1290..0f3e90f 100644
--- a/skada/datasets/_office_home.py
+++ b/skada/datasets/_office_home.py
@@ -17,7 +17,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _staged_dataset, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -187,12 +187,8 @@ def _fetch_office_home_all(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _staged_dataset(dataset_dir) as staging_dirs:
+            _download_office_home(loader_spec.remote, *staging_dirs)
 
     (X, y, domains) = _load_office_home_all(
         dataset_dir,
@@ -225,12 +221,8 @@ def _fetch_office_home(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _staged_dataset(dataset_dir) as staging_dirs:
+            _download_office_home(loader_spec.remote, *staging_dirs)
 
     (X, y) = _load_office_home(
         dataset_dir,
-- 
2.43.0


From 71e8d8c4175128d68e30bc367d1a3ba18e143542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 12/41] fix: DomainAwareDataset.pack masks target labels of
 every type and independently of the order of targets

---
 skada/datasets/_base.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 2f19419..9bf6668 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -349,8 +349,15 @@ class DomainAwareDataset:
             ys.append(y)
             sample_domains.append(np.ones_like(y, dtype=int) * domain_id)
             domain_labels[domain_name] = domain_id
+        if mask_target_labels and mask is None:
+            # the same mask for all targets, no matter in which order they are given
+            labels = [
+                self.get_domain(domain_name)[1:]
+                for domain_name in [*as_sources, *as_targets]
+            ]
+            is_regression = any("float" in str(y.dtype) for (y,) in filter(len, labels))
+            mask = np.nan if is_regression else -1
         # xxx(okachaiev): code duplication, re-write when API is fixed
-        dtype = None
         for domain_name in as_targets:
             domain_id = self.domain_names_[domain_name]
             target = self.get_domain(domain_name)
@@ -364,16 +371,8 @@ class DomainAwareDataset:
             else:
                 raise ValueError("Invalid definition for domain data")
             if mask_target_labels:
-                if mask is not None:
-                    y = np.array([mask] * X.shape[0], dtype=dtype)
-                elif y.dtype in (np.int32, np.int64):
-                    y = -np.ones(X.shape[0], dtype=y.dtype)
-                    # make sure that the mask is reused on the next iteration
-                    mask, dtype = -1, y.dtype
-                elif y.dtype in (np.float32, np.float64):
-                    y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
-                    # make sure that the  mask is reused on the next iteration
-                    mask, dtype = np.nan, y.dtype
+                dtype = np.result_type(np.asarray(y).dtype, np.min_scalar_type(mask))
+                y = np.full(X.shape[0], mask, dtype=dtype)
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
@@ -405,8 +404,8 @@ class DomainAwareDataset:
                     "torch is required to return data as tensors. "
                     "Please install torch to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
@@ -421,8 +420,8 @@ class DomainAwareDataset:
                     "torch and skorch are required to return data as DeepDADataset. "
                     "Please install them to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
-- 
2.43.0


From 4a2613d8736046a7f8f97f1988109a79fec47b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 13/41] fix: DomainAwareDataset keeps unlabelled domains,
 unique names and its content when merging fails

---
 skada/datasets/_base.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 9bf6668..d1e1991 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -146,9 +146,14 @@ class DomainAwareDataset:
         self.domains_ = []
         self.domain_names_ = {}
         # xxx(okachaiev): there should be a simpler way for adding those
-        if domains is not None:
+        if isinstance(domains, Mapping):
+            for domain_name, d in domains.items():
+                self.add_domain(*d[:2], domain_name=domain_name)
+        elif domains is not None:
             for d in domains:
-                if len(d) == 2:
+                if len(d) == 1:
+                    (X,), y, domain_name = d, None, None
+                elif len(d) == 2:
                     X, y = d
                     domain_name = None
                 elif len(d) == 3:
@@ -180,7 +185,10 @@ class DomainAwareDataset:
             # xxx(okachaiev): ValueError would be more appropriate
             assert domain_name not in self.domain_names_
         else:
-            domain_name = f"_{len(self.domain_names_)+1}"
+            n_domains = len(self.domain_names_)
+            while domain_name is None or domain_name in self.domain_names_:
+                n_domains += 1
+                domain_name = f"_{n_domains}"
         domain_id = len(self.domains_) + 1
         self.domains_.append((X, y) if y is not None else (X,))
         self.domain_names_[domain_name] = domain_id
@@ -204,14 +212,17 @@ class DomainAwareDataset:
         self : DomainAwareDataset
             The updated dataset.
         """
-        for domain_name in dataset.domain_names_:
-            # xxx(okachaiev): this needs to be more flexible
-            # as it should be possible to pass only X with y=None
-            # i guess best way of doing so is to change 'add_domain' API
-            X, y = dataset.get_domain(domain_name)
-            if names_mapping is not None:
-                domain_name = names_mapping.get(domain_name, domain_name)
-            self.add_domain(X, y, domain_name)
+        if names_mapping is None:
+            names_mapping = {}
+        domains = [
+            (*dataset.get_domain(name), names_mapping.get(name, name))
+            for name in dataset.domain_names_
+        ]
+        # check all the names before adding anything
+        names = [*self.domain_names_, *(domain[-1] for domain in domains)]
+        assert len(set(names)) == len(names)
+        for *data, domain_name in domains:
+            self.add_domain(*data, domain_name=domain_name)
         return self
 
     def get_domain(self, domain_name: str) -> Tuple[ArrayLike, Optional[ArrayLike]]:
-- 
2.43.0


From 9a71a008155cc8f12f472c34566cf19729684964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 14/41] fix: DomainAwareDataset.select_domain finds domains
 packed as targets

---
 skada/datasets/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index d1e1991..f0206fe 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -260,7 +260,8 @@ class DomainAwareDataset:
         mask : ArrayLike
             Boolean mask indicating selected samples.
         """
-        return select_domain(self.domain_names_, sample_domain, domains)
+        # domains packed as targets have negative labels
+        return select_domain(self.domain_names_, abs(sample_domain), domains)
 
     # xxx(okachaiev): i guess, if we are using names to pack domains into array,
     # we should not autogenerate them... otherwise it might be not obvious at all
-- 
2.43.0


From 70fce8a4e3e4d2335712e42d5a75bb3e6285bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 15/41] fix: features captured by a deep module belong to the
 thread that computes them

---
 skada/deep/base.py  |  8 ++++++--
 skada/deep/utils.py | 22 ++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 2162556..6415577 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -15,7 +15,11 @@ from sklearn.base import _clone_parametrized
 from sklearn.metrics import accuracy_score
 from skorch import NeuralNetClassifier
 
-from .utils import _register_forwards_hook, _infer_predict_nonlinearity
+from .utils import (
+    _infer_predict_nonlinearity,
+    _IntermediateLayers,
+    _register_forwards_hook,
+)
 
 from skada.base import _DAMetadataRequesterMixin
 from sklearn.utils.validation import check_array
@@ -407,7 +411,7 @@ class DomainAwareModule(torch.nn.Module):
         self.base_module_ = base_module
         self.domain_classifier_ = domain_classifier
         self.layer_name = layer_name
-        self.intermediate_layers = {}
+        self.intermediate_layers = _IntermediateLayers()
         self._setup_hooks()
     
     def _setup_hooks(self):
diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index bc39d66..52be45d 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -4,6 +4,7 @@
 #
 # License: BSD 3-Clause
 import numbers
+import threading
 from functools import partial
 
 from sklearn.base import BaseEstimator
@@ -14,6 +15,27 @@ from torch.nn.functional import cosine_similarity
 from sklearn.utils.validation import check_is_fitted
 
 
+class _IntermediateLayers(threading.local):
+    """Outputs of the hooked layers, by layer name.
+
+    Every thread sees the outputs of its own forward pass only: a module may be
+    evaluated by several threads at the same time.
+    """
+
+    def __init__(self):
+        self._outputs = {}
+
+    def __getitem__(self, layer_name):
+        return self._outputs[layer_name]
+
+    def __setitem__(self, layer_name, output):
+        self._outputs[layer_name] = output
+
+    def __reduce__(self):
+        # The outputs belong to a forward pass, they are neither copied nor saved.
+        return (type(self), ())
+
+
 class IntermediateLayerHook:
     def __init__(self, intermediate_layers, layer_name):
         self.intermediate_layers = intermediate_layers
-- 
2.43.0


From 76938f023269bdcf72bfeb36a764e5e9cf9ad33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 16/41] fix: CAN and SPA leave the list of callbacks they are
 given unchanged

---
 skada/deep/_divergence.py      | 2 +-
 skada/deep/_graph_alignment.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_divergence.py b/skada/deep/_divergence.py
index c2fd04d..4be4306 100644
--- a/skada/deep/_divergence.py
+++ b/skada/deep/_divergence.py
@@ -297,7 +297,7 @@ def CAN(
         callbacks = [ComputeSourceCentroids()]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(ComputeSourceCentroids())
+            callbacks = [*callbacks, ComputeSourceCentroids()]
         else:
             callbacks = [callbacks, ComputeSourceCentroids()]
 
diff --git a/skada/deep/_graph_alignment.py b/skada/deep/_graph_alignment.py
index 1dcd463..437ba06 100644
--- a/skada/deep/_graph_alignment.py
+++ b/skada/deep/_graph_alignment.py
@@ -204,8 +204,7 @@ def SPA(
         ]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(MemoryBank())
-            callbacks.append(CountEpochs())
+            callbacks = [*callbacks, MemoryBank(), CountEpochs()]
         else:
             callbacks = [
                 callbacks,
-- 
2.43.0


From 57f43c0deef1cd5c265fe8266249737a15985be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 17/41] fix: memory bank keeps its moving average and epochs
 are counted anew by every fit

---
 skada/deep/callbacks.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 9fc7e6b..61fabda 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -72,7 +72,7 @@ class ComputeSourceCentroids(Callback):
             )
             target_kmeans.fit(features_t)
 
-        net.criterion__adapt_criterion.target_kmeans = target_kmeans
+        net.criterion_.adapt_criterion.target_kmeans = target_kmeans
 
 
 class MemoryBank(Callback):
@@ -120,7 +120,7 @@ class MemoryBank(Callback):
         memory_features = memory_features / torch.linalg.norm(
             memory_features, dim=1, keepdim=True
         )
-        net.criterion__adapt_criterion.memory_features = memory_features
+        net.criterion_.adapt_criterion.memory_features = memory_features
 
         memory_outputs = (
             torch.ones(
@@ -130,7 +130,7 @@ class MemoryBank(Callback):
             )
             / n_classes
         )
-        net.criterion__adapt_criterion.memory_outputs = memory_outputs
+        net.criterion_.adapt_criterion.memory_outputs = memory_outputs
 
     def on_batch_end(self, net, batch, **kwargs):
         """Compute memory bank at the end of each epoch.
@@ -156,27 +156,30 @@ class MemoryBank(Callback):
             softmax_out = F.softmax(output_t, dim=1)
             outputs_target = softmax_out**2 / ((softmax_out**2).sum(dim=0))
 
+            adapt_criterion = net.criterion_.adapt_criterion
             new_memory_features = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_features[batch_idx]
-            +self.momentum * features_t.clone()
+            ) * adapt_criterion.memory_features[
+                batch_idx
+            ] + self.momentum * features_t.clone()
 
             new_memory_outputs = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_outputs[batch_idx]
-            +self.momentum * outputs_target.clone()
+            ) * adapt_criterion.memory_outputs[
+                batch_idx
+            ] + self.momentum * outputs_target.clone()
 
-        net.criterion__adapt_criterion.memory_features[batch_idx] = new_memory_features
-        net.criterion__adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
+        adapt_criterion.memory_features[batch_idx] = new_memory_features
+        adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
 
 
 class CountEpochs(Callback):
     """Callback to count the number of epochs."""
 
-    def on_train_begin(self, *args, **kwargs):
+    def on_train_begin(self, net, **kwargs):
         """Initialize the epoch counter."""
-        self.n_epochs = 0
+        net.criterion_.adapt_criterion.n_epochs = 0
 
     def on_epoch_begin(self, net, **kwargs):
         """Increment the number of epochs."""
-        net.criterion__adapt_criterion.n_epochs += 1
+        net.criterion_.adapt_criterion.n_epochs += 1
-- 
2.43.0


From ea5dcae61eb84a264dc60551923ba1edfeba2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 18/41] fix: a seeded generator of the deep methods is a new
 one, the global one is left alone

---
 skada/deep/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 52be45d..94c8076 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -74,9 +74,9 @@ def check_generator(seed):
         The generator object based on `seed` parameter.
     """
     if seed is None or seed is torch.random:
-        return torch.random.manual_seed(torch.Generator().seed())
+        return torch.random.default_generator
     if isinstance(seed, numbers.Integral):
-        return torch.random.manual_seed(seed)
+        return torch.Generator().manual_seed(int(seed))
     if isinstance(seed, torch.Generator):
         return seed
     raise ValueError(
-- 
2.43.0


From e6e9d835b3957232717c0353765d19b1f4959aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 19/41] fix: DeepDADataset merges and weights in one step, and
 accepts a single domain

---
 skada/deep/base.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 6415577..17d1a4c 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -7,6 +7,7 @@
 # License: BSD 3-Clause
 
 from abc import abstractmethod
+from copy import copy
 from typing import Dict, Any, Union
 
 import torch
@@ -1045,7 +1046,9 @@ class DeepDADataset(Dataset):
         self._initialize(X, y, sample_domain, sample_weight)
 
     def _initialize(self, X: torch.Tensor, y, sample_domain, sample_weight):
-        if sample_domain is None or len(sample_domain) == 0:
+        if sample_domain is None or (
+            not isinstance(sample_domain, int) and len(sample_domain) == 0
+        ):
             sample_domain = _DEFAULT_SAMPLE_DOMAIN_
         if isinstance(sample_domain, int):
             sample_domain = torch.full((X.shape[0],), sample_domain)
@@ -1134,18 +1137,21 @@ class DeepDADataset(Dataset):
             if out:
                 return DeepDADataset(X, y, sample_domain, sample_weight, str(X.device))
             else:
-                self.X = X
-                self.y = y
-                self.sample_domain = sample_domain
-                self.sample_weight = sample_weight
-                self.has_y = torch.cat((self.has_y, dataset.has_y))
-                self.has_weights = bool(len(self.sample_weight))
-                self.device = str(X.device)
-                assert self._is_correct(), (
+                merged = copy(self)
+                merged.X = X
+                merged.y = y
+                merged.sample_domain = sample_domain
+                merged.sample_weight = sample_weight
+                merged.has_y = torch.cat((self.has_y, dataset.has_y))
+                merged.has_weights = bool(len(sample_weight))
+                merged.device = str(X.device)
+                assert merged._is_correct(), (
                     "Every input data X should have a domain associated, a label (if there is "
                     f"no label, it must be represented by {_NO_LABEL_}) and, "
                     "optionally, a weight."
                 )
+                merged._sample_idx = merged._infer_sample_idx()
+                self.__dict__.update(merged.__dict__)
         else:
             raise TypeError("Can only merge two instances of DeepDADataset")
 
@@ -1472,9 +1478,12 @@ class DeepDADataset(Dataset):
             ensure_min_samples=False,
             dtype=float,
         )
-        self.sample_weight = to_tensor(sample_weight, device=self.device)
-        self.has_weights = bool(len(self.sample_weight))
-        assert self._is_correct(), "There must be a weight for every sample."
+        sample_weight = to_tensor(sample_weight, device=self.device)
+        assert len(sample_weight) == 0 or sample_weight.shape == (
+            len(self),
+        ), "There must be a weight for every sample."
+        self.sample_weight = sample_weight
+        self.has_weights = bool(len(sample_weight))
         return self
 
     def remove_weights(self):
-- 
2.43.0


From 74995fb9ce639a7be2a1c2f7961fb09a8a6dd35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 20/41] fix: metadata routing is enabled in every thread, not
 only in the one importing the library

---
 skada/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/__init__.py b/skada/__init__.py
index 927a8b0..36af722 100644
--- a/skada/__init__.py
+++ b/skada/__init__.py
@@ -70,6 +70,9 @@ from .utils import source_target_split, per_domain_split
 # make sure that the usage of the library is not possible
 # without metadata routing being enabled in the configuration
 sklearn.set_config(enable_metadata_routing=True)
+# the configuration is kept per thread: threads started later begin with the
+# defaults of scikit-learn, where the domain labels would be dropped silently
+sklearn._config._global_config["enable_metadata_routing"] = True
 
 __all__ = [
     "metrics",
-- 
2.43.0


From 62092e20414b2416abd0962498ed83587d08f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 21/41] fix: load_mnist_usps selects samples by integer index
 and only once

---
 skada/datasets/_mnist_usps.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 7d00641..8d80307 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -75,8 +75,7 @@ def load_mnist_usps(
     mnist_target = mnist_target[mnist_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(mnist_data) - 1, len(mnist_data)),
-        int(n_samples * len(mnist_data)),
+        len(mnist_data), int(n_samples * len(mnist_data)), replace=False
     )
     mnist_data = mnist_data[selected_samples]
     mnist_target = mnist_target[selected_samples]
@@ -101,8 +100,7 @@ def load_mnist_usps(
     usps_target = usps_target[usps_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(usps_data) - 1, len(usps_data)),
-        int(n_samples * len(usps_data)),
+        len(usps_data), int(n_samples * len(usps_data)), replace=False
     )
     usps_data = usps_data[selected_samples]
     usps_target = usps_target[selected_samples]
-- 
2.43.0


From 849b78b23a455567cd8c0e6863a76783d7d384c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 22/41] fix: SphericalKMeans draws from the generator given by
 random_state

---
 skada/deep/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 94c8076..15c1a6b 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -182,12 +182,12 @@ class SphericalKMeans(BaseEstimator):
         self.random_state = random_state
         self.device = device
 
-    def _init_centroids(self, X):
+    def _init_centroids(self, X, generator):
         with torch.no_grad():
             # Randomly initialize centroids
             n_samples = X.shape[0]
-            indices = torch.randperm(n_samples, device=self.device)[:self.n_clusters]
-            centroids = X[indices]
+            indices = torch.randperm(n_samples, generator=generator)[:self.n_clusters]
+            centroids = X[indices.to(self.device)]
             return centroids / torch.norm(centroids, dim=1, keepdim=True)
 
     def fit(self, X, y=None):
@@ -220,8 +220,9 @@ class SphericalKMeans(BaseEstimator):
             best_n_iter = None
 
             if self.initial_centroids is None:
+                generator = check_generator(self.random_state)
                 for _ in range(self.n_init):
-                    initial_centroids = self._init_centroids(X)
+                    initial_centroids = self._init_centroids(X, generator)
                     inertia, centroids, n_iter = self._run_single_kmean(X, initial_centroids)
 
                     if best_inertia is None or inertia < best_inertia:
-- 
2.43.0


From 6df0604b28009df7919a7f16ca5185312c28a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 23/41] fix: predict_nonlinearity=None means no nonlinearity
 instead of a NameError

---
 skada/deep/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 17d1a4c..de655f8 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -26,7 +26,7 @@ from skada.base import _DAMetadataRequesterMixin
 from sklearn.utils.validation import check_array
 
 import numpy as np
-from skorch.utils import to_device
+from skorch.utils import _identity, to_device
 from skorch.utils import to_numpy, to_tensor
 from skorch.dataset import unpack_data, Dataset
 from collections.abc import Mapping
-- 
2.43.0


From 9278d3b0daba754b2f6a12aeca35e53703d35e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 24/41] fix: JDOT estimators keep their fit arguments when
 cloned

---
 skada/_ot.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index cec768d..33287fb 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -497,7 +497,26 @@ def solve_jdot_classification(
     return estimator, lst_loss_ot, lst_loss_tgt_labels, sol
 
 
-class JDOTRegressor(DAEstimator):
+class _FitParamsMixin:
+    """Expose the arguments given in ``kwargs`` as parameters of the estimator.
+
+    Without it they would silently be lost when the estimator is cloned.
+    """
+
+    def get_params(self, deep=True):
+        """Get the parameters, including those passed to the base estimator fit."""
+        return {**super().get_params(deep=deep), **self.kwargs}
+
+    def set_params(self, **params):
+        """Set the parameters, including those passed to the base estimator fit."""
+        fit_params = {k: v for k, v in params.items() if k in self.kwargs}
+        params = {k: v for k, v in params.items() if k not in self.kwargs}
+        super().set_params(**params)
+        self.kwargs = {**self.kwargs, **fit_params}
+        return self
+
+
+class JDOTRegressor(_FitParamsMixin, DAEstimator):
     """Joint Distribution Optimal Transport Regressor proposed in [10]
 
     .. warning::
@@ -613,7 +632,7 @@ class JDOTRegressor(DAEstimator):
         return self.estimator_.score(X, y, sample_weight=sample_weight)
 
 
-class JDOTClassifier(DAEstimator):
+class JDOTClassifier(_FitParamsMixin, DAEstimator):
     """Joint Distribution Optimal Transport Classifier proposed in [10]
 
     .. warning::
-- 
2.43.0


From ead1480e6b14c5c960069453a0b712db04537fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 25/41] fix: MaNoScorer evaluates deep models in evaluation
 mode

---
 skada/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 021fde4..38ef371 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -873,7 +873,9 @@ class MaNoScorer(_BaseDomainAwareScorer):
             if estimator.module_.layer_name is None:
                 raise ValueError("The layer_name of the estimator is not set.")
 
-            # 1) Recover logits on target
+            # 1) Recover logits on target, in evaluation mode as for any other
+            # prediction: scoring must neither change nor depend on the mode
+            estimator._set_training(False)
             logits = estimator.infer(X[~source_idx], **params).cpu().detach().numpy()
 
             # 2) Normalize logits to obtain probabilities
-- 
2.43.0


From c18116e56ab2b6a2a4fc64206a272a7150801b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:01 +0000
Subject: [PATCH 26/41] fix: JCPOTLabelProp gives each target sample its own
 propagated label

---
 skada/_ot.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 33287fb..15e88bf 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -971,15 +971,17 @@ class JCPOTLabelPropAdapter(BaseAdapter):
         sources, targets = per_domain_split(X, y, sample_domain=sample_domain)
 
         Xs = [X for X, y in sources.values()]
-        ys = [y for X, y in sources.values()]
+        # class labels are handled as indices into the sorted labels
+        self.classes_ = classes = np.unique(
+            np.concatenate([y for X, y in sources.values()])
+        )
+        ys = [np.searchsorted(classes, y) for X, y in sources.values()]
 
         if len(ys) == 1:
             Xs = Xs * 2
             ys = ys * 2
 
-        Xt = [X for X, y in targets.values()]
-
-        Xt = np.concatenate(Xt, axis=0)
+        Xt = X[sample_domain < 0]
 
         self.ot_adapter_ = ot.da.JCPOTTransport(
             reg_e=self.reg,
@@ -998,7 +1000,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
         yh = np.argmax(yh, axis=1)
 
         yout = -np.ones_like(y)
-        yout[sample_domain < 0] = yh
+        yout[sample_domain < 0] = classes[yh]
 
         return X, yout, {}
 
-- 
2.43.0


From e889e06dc8318a2c4deee7c88c1edebc4d4a1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:26 +0000
Subject: [PATCH 27/41] fix: PerDomain fits plain estimators when target labels
 are masked

---
 skada/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 7ce049a..451fe7f 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -482,7 +482,11 @@ class PerDomain(BaseSelector):
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
-        X, y, routed_params = self._remove_masked(X, y, routed_params)
+        # the domain labels follow their samples when masked ones are removed
+        X, y, routed_params = self._remove_masked(
+            X, y, dict(routed_params, _domains=sample_domain)
+        )
+        sample_domain = routed_params.pop('_domains')
         estimators, outputs = {}, {}
         for domain_label in np.unique(sample_domain):
             idx, = np.where(sample_domain == domain_label)
-- 
2.43.0


From 9a02ef7609dd1f325280d9f5a9f528277d8a332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 28/41] fix: PerDomain and SelectSourceTarget accept
 transformers without fit_transform

---
 skada/base.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 451fe7f..dca3dce 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -508,12 +508,10 @@ class PerDomain(BaseSelector):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
-            if self.mask_target_labels:
-                y = self._auto_mask_target_labels(y, params)
-
-            self._fit(X_container, y, **params)
+            self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
             transform_params = _route_params(self.routing_.transform, method_params, self)
+            transform_params['sample_domain'] = method_params['sample_domain']
             # the output of the transform call is already merged into a single ndarray
             output = self.transform(X, **transform_params)
         return X_container.merge_in(output)
@@ -746,10 +744,10 @@ class SelectSourceTarget(BaseSelector):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
-            self.fit(X_container, y, **params)
+            self._fit('fit', X_container, y=y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
-            output = self.transform(X, **transform_params)
+            # `transform` routes the parameters to the estimator of each side
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
-- 
2.43.0


From 8801162825539760f1b1a3bf1de718a7bb3cc203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 29/41] fix: SelectSourceTarget of classifiers or regressors
 can predict

---
 skada/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index dca3dce..02d7547 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -783,6 +783,10 @@ class SelectSourceTarget(BaseSelector):
     # xxx(okachaiev): i guess this should return 'True' only if both
     # estimators have the same method. though practical advantage is,
     # surely, questionable
+    @available_if(_estimator_has('predict', base_attr_name='source_estimator'))
+    def predict(self, X, **params):
+        return self._route_to_estimator('predict', X, **params)
+
     @available_if(_estimator_has('predict_proba', base_attr_name='source_estimator'))
     def predict_proba(self, X, **params):
         return self._route_to_estimator('predict_proba', X, **params)
-- 
2.43.0


From dfc83f910f4ed559433593d8a538b028866ea39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 30/41] fix: DeepEmbeddedValidation weighs each sample's own
 error

---
 skada/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index 38ef371..4548e6c 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -471,6 +471,8 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
 
         error = self._loss_func(y_val, y_pred)
         assert weights.shape[0] == error.shape[0]
+        # one column, as the weights: every weight goes with its own error
+        error = np.reshape(error, weights.shape)
 
         weighted_error = weights * error
         weights_m = np.concatenate((weighted_error, weights), axis=1)
-- 
2.43.0


From 7d4202ee0ab2352468bb1b2fac6927b6e8f67c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 31/41] fix: DeepEmbeddedValidation's default loss takes any
 class labels

---
 skada/metrics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index 4548e6c..d86d9a3 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -469,6 +469,12 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             X_val, sample_domain=sample_domain_val, allow_source=True
         )
 
+        default_loss = DeepEmbeddedValidation._no_reduc_log_loss
+        if getattr(self._loss_func, "__func__", None) is default_loss:
+            # the default loss needs the index of the class
+            classes = np.unique(y[source_idx])
+            if len(classes) == y_pred.shape[1]:
+                y_val = np.searchsorted(classes, y_val)
         error = self._loss_func(y_val, y_pred)
         assert weights.shape[0] == error.shape[0]
         # one column, as the weights: every weight goes with its own error
-- 
2.43.0


From 6ac5756ebde676233a1f8b34cd7cfbb2fdb3584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:16 +0000
Subject: [PATCH 32/41] fix: source_target_merge keeps target values that the
 source's type cannot hold

---
 skada/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 12b285d..2f4a12f 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -526,9 +526,11 @@ def source_target_merge(
                 elif y_type == Y_Type.CONTINUOUS:
                     default_masked_label = _DEFAULT_MASKED_TARGET_REGRESSION_LABEL
 
-                arrays[index_is_empty] = (
-                    default_masked_label *
-                    np.ones(shape_to_complete)
+                dtype = arrays[pair_index].dtype
+                arrays[index_is_empty] = np.full(
+                    shape_to_complete,
+                    default_masked_label,
+                    dtype=dtype if np.can_cast(np.int8, dtype) else None
                 )
 
         # Check consistent number of samples in source-target arrays
@@ -581,9 +583,8 @@ def _merge_arrays(
         (n_samples_source + n_samples_target, n_features)
     """
     if array_source.shape[0] > 0 and array_target.shape[0] > 0:
-        output = np.zeros_like(
-            np.concatenate((array_source, array_target)), dtype=array_source.dtype
-        )
+        # of a type that holds the values of both
+        output = np.zeros_like(np.concatenate((array_source, array_target)))
         output[sample_domain >= 0] = array_source
         output[sample_domain < 0] = array_target
 
-- 
2.43.0


From 57d39c047a61b8fdf1061f0bf2856620e160908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 33/41] fix: merging per-domain outputs keeps values that the
 first domain's type cannot hold

---
 skada/_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 5c4178b..706d004 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -207,9 +207,9 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
         output = X_output, y_output, params_output
     else:
         assert isinstance(first_output, np.ndarray)
-        output = np.zeros(
-            (n_samples, *first_output.shape[1:]), dtype=first_output.dtype
-        )
+        # of a type that holds the outputs of all domains
+        dtype = np.result_type(*(output for _, output in domain_outputs.values()))
+        output = np.zeros((n_samples, *first_output.shape[1:]), dtype=dtype)
         for idx, domain_output in domain_outputs.values():
             output[idx] = domain_output
     return output
-- 
2.43.0


From dbcc1922f3cb1fcc612cea2c4e40a51d16d97b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:50 +0000
Subject: [PATCH 34/41] fix: masking target labels works for boolean and
 unsigned labels

---
 skada/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 02d7547..7fc9455 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -359,8 +359,9 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         if y is not None and routed_params.get('sample_domain') is not None:
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
-            # work on a copy: the array given belongs to the caller
-            y = y.copy()
+            # work on a copy: the array given belongs to the caller,
+            # and a boolean or unsigned one cannot hold the mask
+            y = y.astype(np.result_type(y.dtype, np.int8))
             if y_type == Y_Type.DISCRETE:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
-- 
2.43.0


From 4d5969622739130b3d9a7772e7b9b579a5885ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 35/41] fix: label propagation leaves out source samples
 whatever the label type

The source samples are marked with -1, which wraps around to a class of its
own in unsigned label arrays and cannot be written for boolean ones.
---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 15e88bf..c693cf4 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -854,7 +854,7 @@ class OTLabelPropAdapter(BaseAdapter):
             self.yht_continuous_ = yht
             yht = np.argmax(yht, axis=1)
             yht = classes[yht]
-            yout = -np.ones_like(y)
+            yout = np.full(y.shape, -1, dtype=np.result_type(y.dtype, np.int8))
         else:
             Y = ys
             yht = G.T.dot(Y) / wt
@@ -999,7 +999,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         yh = np.argmax(yh, axis=1)
 
-        yout = -np.ones_like(y)
+        yout = np.full(y.shape, -1, dtype=np.result_type(y.dtype, np.int8))
         yout[sample_domain < 0] = classes[yh]
 
         return X, yout, {}
-- 
2.43.0


From 1927435c07a3010dff90c199a9b130f59a2380d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 36/41] fix: deep sample weights follow the samples the base
 loss is computed on

DomainAwareNet.get_loss kept the weights of samples of domain > 0: with a
source domain labelled 0, or with TargetOnly, they did not belong to the
samples the loss is made of (NaN loss, or an error).
---
 skada/deep/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index de655f8..551ac8d 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -891,7 +891,12 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] > 0]
+            # Keep the weights of the samples on which the base loss is computed
+            source_idx = X["sample_domain"] >= 0
+            if getattr(self.criterion_, "train_on_target", False):
+                sample_weight = sample_weight[~source_idx]
+            else:
+                sample_weight = sample_weight[source_idx]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From 53733335cf5a33d2a51a6a364fb5a01f3e9fd845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 37/41] fix: CDAN accepts sample weights

CDANModule.forward had no sample_weight argument, unlike
DomainAwareModule.forward: every fit or evaluation with weights failed.
---
 skada/deep/_adversarial.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 88d462b..cf06c2e 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -248,10 +248,14 @@ class CDANModule(DomainAwareModule):
         sample_idx=None,
         is_fit=False,
         return_features=False,
+        sample_weight=None,
     ):
-        if is_fit:
-            # predict
+        if sample_weight is not None:
+            y_pred = self.base_module_(X, sample_weight=sample_weight)
+        else:
             y_pred = self.base_module_(X)
+
+        if is_fit:
             features = self.intermediate_layers[self.layer_name]
 
             n_classes = y_pred.shape[1]
@@ -284,9 +288,9 @@ class CDANModule(DomainAwareModule):
             )
         else:
             if return_features:
-                return self.base_module_(X), self.intermediate_layers[self.layer_name]
+                return y_pred, self.intermediate_layers[self.layer_name]
             else:
-                return self.base_module_(X)
+                return y_pred
 
 
 def CDAN(
-- 
2.43.0


From 45125f5fee61e0155c53223c04950524cebc2612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 38/41] fix: circular validation of data with a source domain
 labelled 0

-0 is 0: the domain stayed a source domain in the backward fit, with masked
labels.
---
 skada/metrics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index d86d9a3..9b1602f 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -636,7 +636,12 @@ class CircularValidation(_BaseDomainAwareScorer):
                 le.fit(y_pred_target)
                 y_pred_target = le.transform(y_pred_target)
 
+            # Swap the roles of the domains. The opposite of 0, a source domain, is
+            # itself: it needs a negative label that no other domain uses.
             backward_sample_domain = -sample_domain
+            zero_idx = sample_domain == 0
+            if np.any(zero_idx):
+                backward_sample_domain[zero_idx] = backward_sample_domain.min() - 1
 
             backward_y = np.zeros_like(y)
             backward_y[~source_idx] = y_pred_target
-- 
2.43.0


From e6f0c7a806ada14aca0766993b476581b5a8b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:54 +0000
Subject: [PATCH 39/41] fix: the default SupervisedScorer tells the estimator
 the domains

estimator.score was called without sample_domain: pipelines with per-domain
steps and deep models could not be scored.
---
 skada/metrics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 9b1602f..ad7734d 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -33,7 +33,12 @@ from ._utils import (
 from .utils import check_X_y_domain, extract_source_indices, source_target_split
 
 
-def _estimator_score(estimator, X, y=None, **kwargs):
+def _estimator_score(estimator, X, y=None, sample_domain=None, **kwargs):
+    if sample_domain is not None and get_routing_for_object(estimator).consumes(
+        "score", ["sample_domain"]
+    ):
+        # estimators that are not the same for all domains need to know them
+        return estimator.score(X, y, sample_domain=sample_domain)
     return estimator.score(X, y)
 
 
-- 
2.43.0


From aaa03c3fcc7ed7312df6fd58d0bd85182d6e7561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:54 +0000
Subject: [PATCH 40/41] fix: SupervisedScorer requests sample_domain

set_score_request replaces the request made by the base class, so that
cross-validation did not hand the domains on: scoring failed unless the target
labels were masked, and took partly masked ones for source samples.
---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index ad7734d..d920d93 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -76,7 +76,8 @@ class SupervisedScorer(_BaseDomainAwareScorer):
         super().__init__(
             score_func=scoring, sign=1 if greater_is_better else -1, kwargs=kwargs
         )
-        self.set_score_request(target_labels=True)
+        # a request replaces the earlier ones
+        self.set_score_request(sample_domain=True, target_labels=True)
 
     def _score(
         self, _, estimator, X, y=None, sample_domain=None, target_labels=None, **params
-- 
2.43.0


From 3aa58708b3ee1bae7bb18373f7117ade7b5cfbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:45 +0000
Subject: [PATCH 41/41] fix: TCA and TJM return the training samples in the
 order given

---
 skada/_subspace.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 751195f..b5e181d 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -362,7 +362,12 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
         if np.array_equal(X_source, self.X_source_) and np.array_equal(
             X_target, self.X_target_
         ):
-            X_ = (self.K_ @ self.eigvects_)[: X.shape[0]]
+            # the rows of K_ are the source samples followed by the target ones
+            X_ = self.K_ @ self.eigvects_
+            n_source = X_source.shape[0]
+            X_, _ = source_target_merge(
+                X_[:n_source], X_[n_source:], sample_domain=sample_domain
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
@@ -523,7 +528,12 @@ class TransferJointMatchingAdapter(BaseAdapter):
             X_target, self.X_target_
         ):
             K = self._get_kernel_matrix(X_source, X_target)
+            # the rows of K are the source samples followed by the target ones
             X_ = K @ self.A_
+            n_source = X_source.shape[0]
+            X_, _ = source_target_merge(
+                X_[:n_source], X_[n_source:], sample_domain=sample_domain
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
-- 
2.43.0

