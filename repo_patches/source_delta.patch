From ba614d92e4cd35497039fe3f158fc7cf3d73d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 01/42] fix: train copies of the models and transformers passed
 to DoubleML, ApproxBound and NP2SLS

---
 ylearn/estimator_model/approximation_bound.py |  5 +++--
 ylearn/estimator_model/double_ml.py           | 10 +++++++---
 ylearn/estimator_model/iv.py                  |  5 +++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 9001c9c..203c674 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -1,4 +1,5 @@
 import numpy as np
+from sklearn import clone
 from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder
 
 
@@ -79,9 +80,9 @@ class ApproxBound(BaseEstModel):
         categories : str, optional
             _description_, by default 'auto'
         """
-        self.y_model = y_model
+        self.y_model = clone(y_model)
         self.x_prob = x_prob
-        self.x_model = x_model
+        self.x_model = clone(x_model) if x_model is not None else None
 
         super().__init__(
             random_state,
diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index f187985..13abbc0 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -307,10 +307,14 @@ class DoubleML(BaseEstModel):
         if yx_model is None:
             self.yx_model = LinearRegression()
         else:
-            self.yx_model = yx_model
+            self.yx_model = deepcopy(yx_model)
 
-        self.adjustment_transformer = adjustment_transformer
-        self.covariate_transformer = covariate_transformer
+        self.adjustment_transformer = (
+            clone(adjustment_transformer) if adjustment_transformer is not None else None
+        )
+        self.covariate_transformer = (
+            clone(covariate_transformer) if covariate_transformer is not None else None
+        )
 
         self.x_hat_dict = defaultdict(list)
         self.y_hat_dict = defaultdict(list)
diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index ebcf7ff..d386add 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -2,6 +2,7 @@ from copy import deepcopy
 
 import numpy as np
 
+from sklearn import clone
 from sklearn.linear_model import LinearRegression
 from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder, PolynomialFeatures
 
@@ -82,8 +83,8 @@ class NP2SLS(BaseEstModel):
         categories : str, optional
             by default 'auto'
         """
-        self.x_model = LinearRegression() if x_model is None else x_model
-        self.y_model = LinearRegression() if y_model is None else y_model
+        self.x_model = LinearRegression() if x_model is None else clone(x_model)
+        self.y_model = LinearRegression() if y_model is None else clone(y_model)
 
         super().__init__(
             random_state, is_discrete_treatment, is_discrete_outcome, categories
-- 
2.43.0


From 1ecce9158db8572a3c9dcdfe0548de1ab335665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 02/42] fix: a second fit no longer reuses encoders and
 probabilities of the first one

---
 ylearn/estimator_model/approximation_bound.py | 14 ++++++++------
 ylearn/estimator_model/base_models.py         |  3 +++
 ylearn/estimator_model/doubly_robust.py       |  8 ++++++--
 ylearn/estimator_model/effect_score.py        |  1 +
 ylearn/estimator_model/meta_learner.py        | 16 ++++++++++++----
 5 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 203c674..464188b 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -155,19 +155,21 @@ class ApproxBound(BaseEstModel):
 
         self.x_label = np.array(convert4onehot(x_one_hot).astype(int))
 
-        if self.x_prob is None:
+        x_prob = self.x_prob
+        if x_prob is None:
             if v is not None:
                 if self.is_discrete_covariate:
                     v = OneHotEncoder().fit_transform(v)
 
                 self.x_model.fit(v, self.x_label)
-                self.x_prob = self.x_model.predict_proba(v)
+                x_prob = self.x_model.predict_proba(v)
             else:
-                self.x_prob = np.unique(self.x_label, return_counts=True)[1]
-                self.x_prob = (self.x_prob / self._n).reshape(1, -1)
+                x_prob = np.unique(self.x_label, return_counts=True)[1]
+                x_prob = (x_prob / self._n).reshape(1, -1)
         else:
             # TODO: modify the following line for multiple treatment
-            self.x_prob = self.x_prob.reshape(1, -1)
+            x_prob = x_prob.reshape(1, -1)
+        self._x_prob = x_prob
 
         self._v = v
         xv = get_wv(x_one_hot, v)
@@ -313,7 +315,7 @@ class ApproxBound(BaseEstModel):
         y_lower,
     ):
         # x_d = self._x_d
-        x_prob = self.x_prob
+        x_prob = self._x_prob
 
         treat = get_tr_ctrl(
             treat,
diff --git a/ylearn/estimator_model/base_models.py b/ylearn/estimator_model/base_models.py
index 08294c3..4789715 100644
--- a/ylearn/estimator_model/base_models.py
+++ b/ylearn/estimator_model/base_models.py
@@ -57,6 +57,9 @@ class BaseEstModel:
         if isinstance(treatment, str):
             treatment = [treatment]
 
+        # whatever an earlier fit learned is obsolete from here on
+        self._is_fitted = False
+
         self.treatment = treatment
         self.outcome = outcome
 
diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 2761a77..e62fb74 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -260,6 +260,10 @@ class DoublyRobust(BaseEstModel):
             covariate=covariate,
         )
 
+        # refit the treatment encoders on the new data
+        self.ord_transformer = None
+        self.oh_transformer = None
+
         # get numpy data
         n = len(data)
         y, x, w, v = convert2array(
@@ -396,7 +400,7 @@ class DoublyRobust(BaseEstModel):
         """
         if x.shape[1] > 1:
             # if not self._is_fitted:
-            if not hasattr(self, 'ord_transformer'):
+            if self.ord_transformer is None:
                 self.ord_transformer = OrdinalEncoder(categories=categories)
                 self.ord_transformer.fit(x)
 
@@ -415,7 +419,7 @@ class DoublyRobust(BaseEstModel):
                 x[i] = self.label_dict[tuple(x_i)]
 
         # if not self._is_fitted:
-        if not hasattr(self, 'oh_transformer'):
+        if self.oh_transformer is None:
             self.oh_transformer = OneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index d883c4e..d6f1132 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -247,6 +247,7 @@ class RLoss(DoubleML):
         #     adjustment=adjustment,
         #     covariate=covariate,
         # )
+        self._is_fitted = False
         self.outcome = outcome
         self.treatment = treatment
         self.adjustment = adjustment
diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 04544c6..ed35086 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -724,6 +724,10 @@ class TLearner(BaseEstModel):
             covariate=covariate,
         )
 
+        # refit the treatment encoders on the new data
+        self.ord_transformer = None
+        self.oh_transformer = None
+
         self.combined_treat = combined_treatment
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
@@ -920,7 +924,7 @@ class TLearner(BaseEstModel):
         """
         if x.shape[1] > 1:
             # if not self._is_fitted:
-            if not hasattr(self, "ord_transformer"):
+            if self.ord_transformer is None:
                 self.ord_transformer = OrdinalEncoder(categories=categories)
                 self.ord_transformer.fit(x)
 
@@ -938,7 +942,7 @@ class TLearner(BaseEstModel):
             for i, x_i in enumerate(x_transformed):
                 x[i] = self.label_dict[tuple(x_i)]
 
-        if not hasattr(self, "oh_transformer"):
+        if self.oh_transformer is None:
             self.oh_transformer = ArrayOneHotEncoder()
             self.oh_transformer.fit(x)
 
@@ -1229,6 +1233,10 @@ class XLearner(BaseEstModel):
             covariate=covariate,
         )
 
+        # refit the treatment encoders on the new data
+        self.ord_transformer = None
+        self.oh_transformer = None
+
         self.combined_treat = combined_treatment
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
@@ -1434,7 +1442,7 @@ class XLearner(BaseEstModel):
         """
         if x.shape[1] > 1:
             # if not self._is_fitted:
-            if not hasattr(self, "ord_transformer"):
+            if self.ord_transformer is None:
                 self.ord_transformer = OrdinalEncoder(categories=categories)
                 self.ord_transformer.fit(x)
 
@@ -1452,7 +1460,7 @@ class XLearner(BaseEstModel):
             for i, x_i in enumerate(x_transformed):
                 x[i] = self.label_dict[tuple(x_i)]
 
-        if not hasattr(self, "oh_transformer"):
+        if self.oh_transformer is None:
             self.oh_transformer = ArrayOneHotEncoder()
             self.oh_transformer.fit(x)
 
-- 
2.43.0


From fc86d287bb5b8ee386ba54bae1abf99b1b331713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 03/42] fix: SLearner and DoubleML estimates no longer depend
 on earlier estimate calls

---
 ylearn/estimator_model/double_ml.py    |  9 +++++---
 ylearn/estimator_model/meta_learner.py | 32 ++++++++++++--------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 13abbc0..e910d86 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -377,6 +377,9 @@ class DoubleML(BaseEstModel):
             covariate=covariate,
             **kwargs,
         )
+        # defaults for estimate; self.treat records the last estimated treat
+        self._fit_treat = kwargs.get("treat")
+        self.control = kwargs.get("control")
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._v = v
@@ -479,9 +482,9 @@ class DoubleML(BaseEstModel):
             The estimated causal effect with the type of the quantity.
         """
         fij = self._prepare4est(data=data)
-        if hasattr(self, "treat") and treat is None:
-            treat = self.treat
-        if hasattr(self, "control") and control is None:
+        if treat is None:
+            treat = self._fit_treat
+        if control is None:
             control = self.control
 
         dis_tr = self.is_discrete_treatment
diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index ed35086..985af2d 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -352,8 +352,6 @@ class SLearner(BaseEstModel):
         x = self._comp_transformer(x, categories=categories)
 
         self._x_d = x.shape[1]
-        self.treat = treat
-        self.control = control
 
         x = np.concatenate((wv, x), axis=1)
         y = y.squeeze()
@@ -362,6 +360,21 @@ class SLearner(BaseEstModel):
 
         self._is_fitted = True
 
+        self.treat = get_tr_ctrl(
+            treat,
+            self._comp_transformer,
+            treat=True,
+            one_hot=False,
+            discrete_treat=True,
+        )
+        self.control = get_tr_ctrl(
+            control,
+            self._comp_transformer,
+            treat=False,
+            one_hot=False,
+            discrete_treat=True,
+        )
+
         return self
 
     @property
@@ -450,21 +463,6 @@ class SLearner(BaseEstModel):
 
     def _prepare_combined_treat(self, wv, target_outcome=None):
         n = wv.shape[0]
-        self.treat = get_tr_ctrl(
-            self.treat,
-            self._comp_transformer,
-            treat=True,
-            one_hot=False,
-            discrete_treat=True,
-        )
-        self.control = get_tr_ctrl(
-            self.control,
-            self._comp_transformer,
-            treat=False,
-            one_hot=False,
-            discrete_treat=True,
-        )
-
         treat = np.zeros(
             self._x_d,
         )
-- 
2.43.0


From ac0e35e07db5c938f750feb84659958d93f586cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 04/42] fix: fit of the forests and CausalTree returns the
 estimator, CausalTree ATE returns its value

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 +++-
 ylearn/estimator_model/_generalized_forest/_grf.py         | 2 +-
 ylearn/estimator_model/causal_tree.py                      | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 578e7ab..245632d 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -316,7 +316,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
 
-        self._fit_with_array(y, x, w, v, sample_weight=sample_weight, **kwargs)
+        return self._fit_with_array(
+            y, x, w, v, sample_weight=sample_weight, **kwargs
+        )
 
     def estimate(self, data=None, **kwargs):
         """Estimate the causal effect of the treatment on the outcome in data.
diff --git a/ylearn/estimator_model/_generalized_forest/_grf.py b/ylearn/estimator_model/_generalized_forest/_grf.py
index e8c72be..1f0662a 100644
--- a/ylearn/estimator_model/_generalized_forest/_grf.py
+++ b/ylearn/estimator_model/_generalized_forest/_grf.py
@@ -179,7 +179,7 @@ class GRForest(BaseCausalForest):
             An instance of GRForest.
         """
         adjustment = None
-        super().fit(
+        return super().fit(
             data,
             outcome,
             treatment,
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 18947e4..d85933e 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -396,7 +396,7 @@ class CausalTree(BaseEstModel):
         )
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
-        self._fit_with_array(y, x, w, v, treat, control)
+        return self._fit_with_array(y, x, w, v, treat, control)
 
     def estimate(self, data=None, quantity=None):
         """Estimate the causal effect of the treatment on the outcome in the data.
@@ -425,7 +425,7 @@ class CausalTree(BaseEstModel):
         logger.debug(f"Start estimating the causal effect with the type of {quantity}.")
 
         if quantity == "ATE" or quantity == "CATE":
-            np.mean(effect, axis=0)
+            return np.mean(effect, axis=0)
         else:
             return effect
 
-- 
2.43.0


From c5eb257e0e8694354063b56676c5489fcff0890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 05/42] fix: forests accept an integer honest_subsample_num

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 245632d..f06fca2 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -503,9 +503,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num
 
-- 
2.43.0


From ea25aea4bb448f63731d4f42f91c1c9dbfcef019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 06/42] fix: forests use the random_state they are given

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index f06fca2..15d6a74 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -259,6 +259,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         )
         BaseEstModel.__init__(
             self,
+            random_state=random_state,
             is_discrete_outcome=is_discrete_outcome,
             is_discrete_treatment=is_discrete_treatment,
             categories=categories,
-- 
2.43.0


From 687eb8717b9b506aaa9d9aea41bbca21dee02ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 07/42] fix: apply, feature importances and in-sample estimates
 of the forests

---
 .../_generalized_forest/_base_forest.py       |  6 +++---
 ylearn/estimator_model/causal_tree.py         | 20 +++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 15d6a74..a5d0cbc 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -358,7 +358,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return the index of the leaf v ends up in.
         """
         results = Parallel(**self._job_options())(
-            delayed(tree.apply)(v, v, check_input=False) for tree in self.estimators_
+            delayed(tree.apply)(None, v) for tree in self.estimators_
         )
 
         return np.array(results).T
@@ -375,7 +375,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         )
 
         if not all_importances:
-            return np.zeros(self.n_features_in_, dtype=np.float64)
+            return np.zeros(self._v.shape[1], dtype=np.float64)
 
         all_importances = np.mean(all_importances, axis=0, dtype=np.float64)
         return all_importances / np.sum(all_importances)
@@ -387,7 +387,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         if x.ndim == 1:
             x = x.reshape(-1, 1)
 
-        for k, value in {"y": y, "x": x, "v": v}.items():
+        for k, value in {"y": y, "x": x, "w": w, "v": v}.items():
             setattr(self, "_" + k, value)
 
         # Determin treatment settings
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index d85933e..0473af6 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -1094,6 +1094,26 @@ class CTCausalForest(BaseCausalForest):
 
         return t
 
+    def apply(self, v):
+        results = Parallel(**self._job_options())(
+            delayed(tree.apply)(wv=v) for tree in self.estimators_
+        )
+
+        return np.array(results).T
+
+    def feature_importances_(self):
+        all_importances = Parallel(**self._job_options())(
+            delayed(getattr)(tree, "feature_importance")
+            for tree in self.estimators_
+            if tree.tree_.node_count > 1
+        )
+
+        if not all_importances:
+            return np.zeros(get_wv(self._w, self._v).shape[1], dtype=np.float64)
+
+        all_importances = np.mean(all_importances, axis=0, dtype=np.float64)
+        return all_importances / np.sum(all_importances)
+
     def _get_honest_samples_num(self, sub_samples):
         return self.base_estimator._get_honest_samples_num(sub_samples)
 
-- 
2.43.0


From 5df409377385bd81a32da031262728a1336c0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 08/42] fix: NP2SLS averages and effect_nji for continuous
 treatments

---
 ylearn/estimator_model/iv.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index d386add..513ad69 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -87,7 +87,10 @@ class NP2SLS(BaseEstModel):
         self.y_model = LinearRegression() if y_model is None else clone(y_model)
 
         super().__init__(
-            random_state, is_discrete_treatment, is_discrete_outcome, categories
+            random_state,
+            is_discrete_treatment,
+            is_discrete_outcome,
+            categories=categories,
         )
 
     def fit(
@@ -253,9 +256,9 @@ class NP2SLS(BaseEstModel):
             assert (
                 self.covariate is not None
             ), "Need caovariate to compute the CATE in this case."
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         if quantity == "ATE":
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         elif quantity is None:
             return yt - y0
         else:
@@ -282,7 +285,7 @@ class NP2SLS(BaseEstModel):
 
                     y_nji[:, :, treat] = y_pred
 
-                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, aixs=2)
+                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, axis=2)
             else:
                 labels = [
                     np.arange(len(i)) for i in self.treatment_transformer.categories_
@@ -304,14 +307,16 @@ class NP2SLS(BaseEstModel):
                 )
 
         else:
-            yt, y0 = self._prepare4est(data=data, marginal_effect=False)
+            yt, y0 = self._prepare4est(
+                data=data, treat=None, control=None, marginal_effect=False
+            )
             # TODO: the definition of effect_nji may need to be modified in the future verison in this case
             if yt.ndim == 1:
                 yt = yt.reshape(-1, 1)
                 y0 = y0.reshape(-1, 1)
 
             n, y_d = yt.shape
-            y_nji = np.full(n, y_d, 2)
+            y_nji = np.full((n, y_d, 2), np.nan)
 
             y_nji[:, :, 0] = y0
             y_nji[:, :, 1] = yt
-- 
2.43.0


From 3d115be87f4721022d89b64279d3c71393bd1b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 09/42] fix: CausalTree accepts an integer honest_subsample_num

---
 ylearn/estimator_model/causal_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 0473af6..06ff9a4 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -503,9 +503,9 @@ class CausalTree(BaseEstModel):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num / sub_samples
 
-- 
2.43.0


From f22b420f655e659ca9d084a013bdcdc3acbcdb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 10/42] fix: DeepIV accepts a given y_net

---
 ylearn/estimator_model/deepiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 1f51c01..d5474b4 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -958,6 +958,6 @@ class DeepIV(BaseEstModel):
 
         if y_model is None:
             assert any(args), 'Need parameters to define an outcome net.'
-            y_net = Net(*args, **kwargs)
+            y_model = Net(*args, **kwargs)
 
-        return NetWrapper(y_net, is_y_net=True)
+        return NetWrapper(y_model, is_y_net=True)
-- 
2.43.0


From 8059b117b3c5216973f973c4ce46df0e8a9ff7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 11/42] fix: DeepIV contrasts treat with control for every
 sample

---
 ylearn/estimator_model/deepiv.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index d5474b4..0ae5130 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -806,9 +806,9 @@ class DeepIV(BaseEstModel):
         n = w.shape[0]
         ones = torch.eye(n, self._x_d)
 
-        y_nji = torch.full((n, self._y_d, self._x_d))
-
         if self.is_discrete_treatment:
+            y_nji = torch.full((n, self._y_d, self._x_d), float('nan'))
+
             for treat in range(self._x_d):
                 treat_id = (torch.ones(n, ) * treat).int()
 
@@ -818,8 +818,10 @@ class DeepIV(BaseEstModel):
 
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, self._x_d))
         else:
-            xt = ones * 1
-            x0 = ones * 0
+            y_nji = torch.full((n, self._y_d, 2), float('nan'))
+
+            xt = torch.ones(n, self._x_d)
+            x0 = torch.zeros(n, self._x_d)
             y_nji[:, :, 0] = self.y_net.predict(x0, w)
             y_nji[:, :, 1] = self.y_net.predict(xt, w)
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, 2))
@@ -858,10 +860,12 @@ class DeepIV(BaseEstModel):
 
             # build treatment vector xt and control vector x0
             xt = ones.index_select(dim=0, index=treat_id)
-            x0 = ones.index_select(dim=0, index=torch.zeros(n, ).int())
+            control_id = (torch.ones(n, ) * control).int()
+            x0 = ones.index_select(dim=0, index=control_id)
 
             return (self.y_net.predict(xt, w), self.y_net.predict(x0, w))
         else:
+            ones = torch.ones(n, self._x_d)
             xt = ones * treat
             x0 = ones * control
             xt.requires_grad = True
@@ -869,7 +873,7 @@ class DeepIV(BaseEstModel):
             yt = self.y_net.predict(xt, w)
 
             if marginal_effect:
-                return (xt.grad.detach(), )
+                return torch.autograd.grad(yt.sum(), xt)
             else:
                 y0 = self.y_net.predict(x0, w)
                 return (yt, y0)
@@ -929,7 +933,7 @@ class DeepIV(BaseEstModel):
             return (yt - y0).mean(dim=0) if y0 is not None else yt.mean(dim=0)
         # elif quantity == 'Counterfactual prediction':
         else:
-            return yt
+            return yt - y0 if y0 is not None else yt
 
     def _gen_x_model(self, x_model, *args, **kwargs):
         hidden_d_list = kwargs.pop('hidden_d', [64, 128, 64])
-- 
2.43.0


From 76144328b0452ffece44f35c095d463aa0fffe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 12/42] fix: DoublyRobust predicts the outcome under each
 treatment

---
 ylearn/estimator_model/doubly_robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index e62fb74..3d1fb4e 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -32,7 +32,7 @@ class _YModelWrapper:
 
         for i in range(self.x_d):
             x = np.zeros((n, self.x_d))
-            x[:, i] == 1
+            x[:, i] = 1
             x = np.concatenate((wv, x), axis=1)
             y_nji[:, :, i] = self.model.predict(x).reshape(n, self.y_d)
 
-- 
2.43.0


From d2039ca6278fc8d6988b3d4b75992b0954498ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 13/42] fix: detected errors are raised

---
 ylearn/api/_identifier.py             | 4 ++--
 ylearn/api/_why.py                    | 2 +-
 ylearn/causal_discovery/_discovery.py | 2 +-
 ylearn/causal_model/model.py          | 6 ++++--
 ylearn/effect_interpreter/_export.py  | 2 +-
 ylearn/estimator_model/_factory.py    | 2 +-
 ylearn/estimator_model/_permuted.py   | 2 +-
 ylearn/policy/policy_model.py         | 2 +-
 8 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index ea4256c..ea3d35f 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -15,10 +15,10 @@ logger = logging.get_logger(__name__)
 
 class Identifier:
     def identify_treatment(self, data, outcome, discrete_treatment, count_limit, excludes=None):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def identify_aci(self, data, outcome, treatment):
-        raise NotImplemented()
+        raise NotImplementedError()
 
 
 class DefaultIdentifier(Identifier):
diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 896ca40..c628ea9 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -1040,7 +1040,7 @@ class Why:
                 if target_outcome is not None:
                     nz = np.nonzero(self.y_encoder_.classes_ == target_outcome)[0]
                     if len(nz) == 0:
-                        assert ValueError(f'Invalid target_outcome: "{target_outcome}"')
+                        raise ValueError(f'Invalid target_outcome: "{target_outcome}"')
                     effect = effect[:, nz[0]:nz[0] + 1, :]
                 else:
                     effect = effect[:, -1:, :]
diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index 9d53144..5f18824 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -522,7 +522,7 @@ class DagmaDiscovery(BaseDiscovery):
         elif type(self.s) in [int, float]:
             self.s = self.T * [self.s]
         else:
-            ValueError("s should be a list, int, or float.")
+            raise ValueError("s should be a list, int, or float.")
         for i in range(int(self.T)):
             lr_adam, success = self.lr, False
             inner_iters = int(self.max_iter) if i == self.T - 1 else int(self.warm_iter)
diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index f1018b1..b10630a 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -412,8 +412,10 @@ class CausalModel:
 
             assert self.is_valid_backdoor_set(
                 temp_set, self.treatment, self.outcome
-            ), "The adjustment set should be a valid backdoor adjustment set,"
-            f"but was given {temp_set}."
+            ), (
+                "The adjustment set should be a valid backdoor adjustment set,"
+                f"but was given {temp_set}."
+            )
 
         # fit the estimator_model if it is not fitted
         if not estimator_model._is_fitted:
diff --git a/ylearn/effect_interpreter/_export.py b/ylearn/effect_interpreter/_export.py
index 3244232..ce2d5bc 100644
--- a/ylearn/effect_interpreter/_export.py
+++ b/ylearn/effect_interpreter/_export.py
@@ -287,7 +287,7 @@ class _TreeExporter(_BaseTreeExporter):
 
     @abc.abstractmethod
     def node_replacement_text(self, tree, node_id, criterion):
-        raise NotImplemented
+        raise NotImplementedError()
 
     def node_to_str(self, tree, node_id, criterion):
         text = super().node_to_str(tree, node_id, criterion)
diff --git a/ylearn/estimator_model/_factory.py b/ylearn/estimator_model/_factory.py
index df8717e..5c060a7 100644
--- a/ylearn/estimator_model/_factory.py
+++ b/ylearn/estimator_model/_factory.py
@@ -31,7 +31,7 @@ def register(name=None):
 class BaseEstimatorFactory:
     def __call__(self, data, outcome, treatment, y_task, x_task,
                  adjustment=None, covariate=None, instrument=None, random_state=None):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     @staticmethod
     def _model(data, estimator, task, random_state=None, **kwargs):
diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index c438ea0..185e81e 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -62,7 +62,7 @@ def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, targ
                 assert isinstance(classes, (list, tuple, np.ndarray))
                 nz = np.nonzero(np.array(classes) == target_outcome)[0]
                 if len(nz) == 0:
-                    assert ValueError(f'Invalid target_outcome: "{target_outcome}"')
+                    raise ValueError(f'Invalid target_outcome: "{target_outcome}"')
                 outcome_idx = nz[0]
             else:
                 outcome_idx = len(classes) - 1
diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index cee3c0b..f7ceda2 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -560,7 +560,7 @@ class PolicyTree:
             raise ValueError(f"The type of criterion {self.criterion} is not supported")
 
     def _prune_tree(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def _check_ce(self, ce):
         if ce.ndim == 1:
-- 
2.43.0


From 96bd00a6b7b3460169c7c99179fb377ca3533221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 14/42] fix: MCNWrapper passes its network to the base class

---
 ylearn/estimator_model/_nn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_nn.py b/ylearn/estimator_model/_nn.py
index 6ffdc4b..138fd61 100644
--- a/ylearn/estimator_model/_nn.py
+++ b/ylearn/estimator_model/_nn.py
@@ -295,8 +295,7 @@ class MultiClassNet(nn.Module):
 
 class MCNWrapper(MLModel):
     def __init__(self, treatment_net):
-        super().__init__()
-        self.model = treatment_net
+        super().__init__(treatment_net)
 
     def fit(self, X, y, **optim_config):
         loss = nn.CrossEntropyLoss()
-- 
2.43.0


From 7db3817e771c5dbb9d7d274d8a0ad5b328db0386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 15/42] fix: T/X learners report the outcome classes of the
 current fit

XLearner in separate mode stored no outcome classes and could not answer with
a discrete outcome, and both learners could report classes left over from an
earlier fit in combined mode.
---
 ylearn/estimator_model/meta_learner.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 985af2d..e687c4c 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -793,9 +793,9 @@ class TLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = self.xt_model.classes_
-            except:
+            else:
                 classes_ = self._fitted_dict_separa["models"][0].classes_
         else:
             classes_ = None
@@ -1265,14 +1265,12 @@ class XLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = (
                     self.ft_model.classes_
                 )  # TODO: note that, in some extreme case when the treat group only has one class of outcome, then this will render an error, but currently we ignore such case
-            except:
-                classes_ = self._fitted_dict_separa["models"][0].classes_
-            # else:
-            #     classes_ = None
+            else:
+                classes_ = self._fitted_dict_separa["classes"]
         else:
             classes_ = None
 
@@ -1508,6 +1506,9 @@ class XLearner(BaseEstModel):
         _y_control = _y_control.squeeze()
         f0_model.fit(_wv_control, _y_control)
 
+        if self.is_discrete_outcome:
+            self._fitted_dict_separa["classes"] = f0_model.classes_
+
         if self.proba_output:
             self._outcome_oh = ArrayOneHotEncoder(categories=[f0_model.classes_])
             _y_control = self._outcome_oh.fit_transform(_y_control.reshape(-1, 1))
@@ -1579,7 +1580,7 @@ class XLearner(BaseEstModel):
         for i, (kt_model, k0_model) in enumerate(model_list):
             pred_t = kt_model.predict(wv)
             pred_0 = k0_model.predict(wv)
-            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, self._y_d)
+            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, y_d)
             f_nji[:, :, i] = fnji
 
         if target_outcome is None:
-- 
2.43.0


From 83a89353de8623ad617234510fc2ab3fc9bd6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 16/42] fix: PolicyTree forgets the covariate transformer of an
 earlier fit

---
 ylearn/policy/policy_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index f7ceda2..4a75aa7 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -274,6 +274,7 @@ class PolicyTree:
         """
         ce, v = convert2array(data, effect, covariate)
         self.covariate = covariate
+        self.cov_transformer = None
 
         if effect_array is not None:
             ce = effect_array
@@ -598,7 +599,7 @@ class PolicyTree:
             assert isinstance(data, pandas.DataFrame)
 
             v = convert2array(data, self.covariate)[0]
-            if hasattr(self, "cov_transformer"):
+            if self.cov_transformer is not None:
                 v = self.cov_transformer.transform(v)
 
             assert v.shape[1] == self.tree_.n_features
-- 
2.43.0


From 8fbe6bcf6e2baae071610980a25d5daee62bc7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 17/42] fix: DoublyRobust.estimate refuses treat values for
 more treatments than fitted

It used to fit and store an ordinal encoder on the queried values.
---
 ylearn/estimator_model/doubly_robust.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 3d1fb4e..f135763 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -401,6 +401,10 @@ class DoublyRobust(BaseEstModel):
         if x.shape[1] > 1:
             # if not self._is_fitted:
             if self.ord_transformer is None:
+                if self.oh_transformer is not None:
+                    raise ValueError(
+                        f'The estimator was fitted on a single treatment, but {x.shape[1]} were given.'
+                    )
                 self.ord_transformer = OrdinalEncoder(categories=categories)
                 self.ord_transformer.fit(x)
 
-- 
2.43.0


From 25d28e81857ec526836e3b3ec93b6df67ad15946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 18/42] fix: networkx has no to_numpy_matrix any more, use
 to_numpy_array

---
 ylearn/causal_model/graph.py | 6 +++---
 ylearn/exp_dataset/gen.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 00e6820..6052ee0 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -150,8 +150,8 @@ class CausalGraph:
         list
 
         """
-        W = nx.to_numpy_matrix(self.dag)
-        a, w_t = np.where(W >= 1), W.T.A
+        W = nx.to_numpy_array(self.dag)
+        a, w_t = np.where(W >= 1), W.T
         arcs, nodes = [], list(self.dag.nodes)
         for row, col in zip(a[0], a[1]):
             if w_t[row][col] >= 1 and (nodes[col], nodes[row]) not in arcs:
@@ -168,7 +168,7 @@ class CausalGraph:
     def to_adj_matrix(self):
         """Return the adjacency matrix.
         """
-        W = nx.to_numpy_matrix(self.dag)
+        W = nx.to_numpy_array(self.dag)
         return W
 
     # def to_adj_list(self):
diff --git a/ylearn/exp_dataset/gen.py b/ylearn/exp_dataset/gen.py
index b4e185a..f690e58 100644
--- a/ylearn/exp_dataset/gen.py
+++ b/ylearn/exp_dataset/gen.py
@@ -232,7 +232,7 @@ def simulate_er_dag(degree, nodes_dim, Bernoulli_trial, is_acyclic):
         return np.tril(A_und, k=is_acyclic)
 
     def _graph_to_adjmat(G):
-        return nx.to_numpy_matrix(G)
+        return nx.to_numpy_array(G)
 
     p = float(degree) / (nodes_dim - Bernoulli_trial)
     G_und = nx.generators.erdos_renyi_graph(n=nodes_dim, p=p)
-- 
2.43.0


From 2f38b39d0aa3dabe6b62bdd2c6181f7a90186a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 19/42] fix: CausalGraph works on its own copy of the given
 causation and dag

---
 ylearn/causal_model/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 6052ee0..8620879 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -119,9 +119,11 @@ class CausalGraph:
             where U is an unobserved confounder of X and Y, can be converted
             equivalently to X <-->Y where <--> is a latent confounding arc.
         """
-        self.causation = defaultdict(list, causation)
+        self.causation = defaultdict(
+            list, {k: list(v) for k, v in causation.items()}
+        )
         self.ava_nodes = self.causation.keys()
-        self.dag = self.observed_dag.copy() if dag is None else dag
+        self.dag = self.observed_dag.copy() if dag is None else dag.copy()
 
         # add unobserved bidirected confounding arcs to the graph, with the
         # letter 'n' representing that the edge is unobserved
-- 
2.43.0


From 37cf1e54fd78951f95b667b9c4b669c46c652712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 20/42] fix: get_frontdoor_set keeps the given treatment and
 outcome sets

---
 ylearn/causal_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index b10630a..5b7056c 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -859,7 +859,7 @@ class CausalModel:
                 len(treatment) == 1 and len(outcome) == 1
             ), "Treatment and outcome should be sets which contain one"
             "element for frontdoor adjustment."
-            treatment, outcome = treatment.pop(), outcome.pop()
+            treatment, outcome = next(iter(treatment)), next(iter(outcome))
 
         # Find the initial set which will then be used to generate all
         # possible frontdoor sets with the method powerset()
-- 
2.43.0


From 67859258b09ca6aa19e03c004f4294acc30c2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 21/42] fix: id does not change the given prob

---
 ylearn/causal_model/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 5b7056c..db2c688 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -169,6 +169,7 @@ class CausalModel:
 
         # 1
         if not x:
+            prob = deepcopy(prob)
             if prob.divisor or prob.product:
                 prob.marginal = v.difference(y).union(prob.marginal)
             else:
-- 
2.43.0


From a15e38ec05d0a7b56b99cd578b9b9e41fc5aa1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 22/42] fix: estimate_hidden_cofounder does not add columns to
 the given data

---
 ylearn/causal_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index db2c688..e852d40 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -1014,7 +1014,7 @@ class CausalModel:
 
             key_ = "estimate_" + hidden_ancestors[0].lower()
             nodes_ = nx.descendants(full_dag, hidden_ancestors[0])
-            self.data[key_] = target - predict
+            self.data = self.data.assign(**{key_: target - predict})
             modified_nodes = list(nodes_)
 
             edge_list_del = []
-- 
2.43.0


From 4758d5638fea175c834768beca262568251a7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 23/42] fix: a DagmaDiscovery call does not shift the log-det
 weights of later calls

---
 ylearn/causal_discovery/_discovery.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index 5f18824..37c4895 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -517,10 +517,9 @@ class DagmaDiscovery(BaseDiscovery):
         self.cov = model(X)
         mu = self.mu_init
         if type(self.s) == list:
-            if len(self.s) < self.T:
-                self.s = self.s + (self.T - len(self.s)) * [self.s[-1]]
+            s = self.s + (self.T - len(self.s)) * [self.s[-1]]
         elif type(self.s) in [int, float]:
-            self.s = self.T * [self.s]
+            s = self.T * [self.s]
         else:
             raise ValueError("s should be a list, int, or float.")
         for i in range(int(self.T)):
@@ -529,13 +528,13 @@ class DagmaDiscovery(BaseDiscovery):
 
             while success is False:
                 W_temp, success = model.minimize(self.cov, mu, inner_iters,
-                                                 lr=lr_adam, s=self.s[i], pbar=pbar)
+                                                 lr=lr_adam, s=s[i], pbar=pbar)
                 if success is False:
                     lr_adam *= 0.5
-                    self.s[i] += 0.1
-            self.w_est = W_temp
+                    s[i] += 0.1
+            w_est = W_temp
             mu *= self.mu_factor
-        return self.w_est
+        return w_est
 
     def __call__(self, data, *, return_dict=False, threshold=0.01,
                  lr=0.0003, verbose=False, T=5, warm_iter=3e4,
-- 
2.43.0


From 25084a7d5d83cf3c37aace34fcea089559cead5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 24/42] fix: Why encodes the given target_outcome instead of
 decoding it

---
 ylearn/api/_why.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index c628ea9..2fa4271 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -518,9 +518,9 @@ class Why:
         assert self._is_fitted
         return utils.safe_treat_control_list(treatment, t_or_c, name)
 
-    def _inverse_transform_outcome(self, v):
+    def _transform_outcome(self, v):
         if self.y_encoder_ is not None and v is not None:
-            return self.y_encoder_.inverse_transform([v])[0]
+            return self.y_encoder_.transform([v]).tolist()[0]
         else:
             return v
 
@@ -801,7 +801,7 @@ class Why:
         if control is None:
             control = [self.x_encoders_[x].classes_.tolist()[0] for x in self.treatment_]
         if target_outcome is not None:
-            target_outcome = self._inverse_transform_outcome(target_outcome)
+            target_outcome = self._transform_outcome(target_outcome)
 
         dfs = []
         for ri in test_data_preprocessed.index:
@@ -1030,7 +1030,7 @@ class Why:
             options = drop_none(control=control, )
             if target_outcome is not None \
                     and 'target_outcome' in inspect.signature(estimator.effect_nji).parameters.keys():
-                options['target_outcome'] = self._inverse_transform_outcome(target_outcome)
+                options['target_outcome'] = self._transform_outcome(target_outcome)
             effect = estimator.effect_nji(preprocessed_data, **options)
             assert isinstance(effect, np.ndarray)
             assert effect.ndim == 3
@@ -1297,7 +1297,7 @@ class Why:
         test_data_preprocessed = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(treatment, treat, 'treat')
         control = self._safe_treat_control(treatment, control, 'control')
-        target_outcome = self._inverse_transform_outcome(target_outcome)
+        target_outcome = self._transform_outcome(target_outcome)
 
         encoders = [self.x_encoders_[x] for x in treatment]
         estimator = self._get_estimator(treatment)
-- 
2.43.0


From 3dc4b0af822d1f1cbcaf475f5452098681d3f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:02 +0000
Subject: [PATCH 25/42] fix: an unfitted Why refuses queries

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 2fa4271..ea3dce0 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -168,7 +168,7 @@ class Why:
         self.random_state = random_state
 
         # fitted
-        self._is_fitted = False,
+        self._is_fitted = False
         self.feature_names_in_ = None
         self.treatment_ = None
         self.outcome_ = None
-- 
2.43.0


From 514976d75e09e0b883ff48487ff037b4b1ff84f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 26/42] fix: Why.identify does not remove names from the given
 lists

---
 ylearn/api/_why.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index ea3dce0..8642ef4 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -399,9 +399,9 @@ class Why:
         covariate = utils.to_list(covariate, name='covariate')
         instrument = utils.to_list(instrument, name='instrument')
 
-        utils.safe_remove(adjustment, treatment)
-        utils.safe_remove(covariate, treatment)
-        utils.safe_remove(instrument, treatment)
+        adjustment = utils.safe_remove(adjustment, treatment, copy=True)
+        covariate = utils.safe_remove(covariate, treatment, copy=True)
+        instrument = utils.safe_remove(instrument, treatment, copy=True)
 
         if all(map(utils.is_empty, (adjustment, covariate, instrument))):
             if identifier is None:
-- 
2.43.0


From 40c73b0dc3a487372215312194aafacad6bd9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 27/42] fix: Why infers the kind of outcome and treatment anew
 in every fit

---
 ylearn/api/_why.py | 62 ++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 8642ef4..7d9a49f 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -170,6 +170,8 @@ class Why:
         # fitted
         self._is_fitted = False
         self.feature_names_in_ = None
+        self.discrete_outcome_ = None
+        self.discrete_treatment_ = None
         self.treatment_ = None
         self.outcome_ = None
         self.adjustment_ = None
@@ -242,12 +244,13 @@ class Why:
             data = data.copy()
 
         y = data[outcome]
-        if self.discrete_outcome is None:
-            self.discrete_outcome = utils.is_discrete(y)
-            logger.info(f'infer outcome as {utils.task_tag(self.discrete_outcome)}')
+        self.discrete_outcome_ = self.discrete_outcome
+        if self.discrete_outcome_ is None:
+            self.discrete_outcome_ = utils.is_discrete(y)
+            logger.info(f'infer outcome as {utils.task_tag(self.discrete_outcome_)}')
 
         # if not _is_number(y.dtype):
-        if self.discrete_outcome:
+        if self.discrete_outcome_:
             logger.info('encode outcome with LabelEncoder')
             y_encoder = LabelEncoder()
             y = y_encoder.fit_transform(y)
@@ -263,7 +266,7 @@ class Why:
         )
 
         # encode treatment
-        if self.discrete_treatment:
+        if self.discrete_treatment_:
             logger.info(f'encode treatment ...')
             x_encoders = {}
             for x in treatment:
@@ -284,7 +287,7 @@ class Why:
 
         # fit estimator
         estimator_keys = treatment.copy()
-        if self.discrete_treatment and len(treatment) > 1:
+        if self.discrete_treatment_ and len(treatment) > 1:
             estimator_keys.extend(list(filter(lambda _: _[0] != _[1], product(treatment, treatment))))
         estimators = {}
         for x in estimator_keys:
@@ -335,7 +338,7 @@ class Why:
         if instrument is not None and len(instrument) > 0:
             estimator = 'iv'
         # elif x_task in {const.TASK_BINARY, const.TASK_MULTICLASS}:
-        elif self.discrete_treatment or self.discrete_outcome:
+        elif self.discrete_treatment_ or self.discrete_outcome_:
             estimator = 'tlearner'
         else:
             estimator = 'dml'
@@ -372,13 +375,14 @@ class Why:
         """
 
         identifier = None
+        self.discrete_treatment_ = self.discrete_treatment
 
         treatment = utils.to_list(treatment, name='treatment')
         if utils.is_empty(treatment):
             identifier = self._create_identifier()
             if treatment_count_limit is None:
                 treatment_count_limit = self._get_default_treatment_count_limit(data, outcome)
-            treatment = identifier.identify_treatment(data, outcome, self.discrete_treatment, treatment_count_limit)
+            treatment = identifier.identify_treatment(data, outcome, self.discrete_treatment_, treatment_count_limit)
             if logger.is_info_enabled():
                 tag = 'classification' if utils.is_discrete(data[treatment[0]]) else 'regression'
                 logger.info(f'identified treatment[{tag}]: {treatment}')
@@ -390,10 +394,10 @@ class Why:
                             'something maybe unexpected.'
                             f'\n{x_tasks}')
 
-        if self.discrete_treatment is None:
-            self.discrete_treatment = utils.is_discrete(data[treatment[0]])
+        if self.discrete_treatment_ is None:
+            self.discrete_treatment_ = utils.is_discrete(data[treatment[0]])
             if logger.is_info_enabled():
-                logger.info(f'infer discrete_treatment={self.discrete_treatment}')
+                logger.info(f'infer discrete_treatment={self.discrete_treatment_}')
 
         adjustment = utils.to_list(adjustment, name='adjustment')
         covariate = utils.to_list(covariate, name='covariate')
@@ -458,7 +462,7 @@ class Why:
 
         factory = ESTIMATOR_FACTORIES[estimator](**options)
 
-        estimator = factory(data, outcome, y_task=self.discrete_outcome, x_task=self.discrete_treatment,
+        estimator = factory(data, outcome, y_task=self.discrete_outcome_, x_task=self.discrete_treatment_,
                             treatment=treatment,
                             adjustment=adjustment,
                             covariate=covariate,
@@ -478,8 +482,8 @@ class Why:
         for x in self.treatment_:
             # x_task, _ = infer_task_type(data[x])
             scorer = factory(data, self.outcome_,
-                             y_task=self.discrete_outcome,
-                             x_task=self.discrete_treatment,
+                             y_task=self.discrete_outcome_,
+                             x_task=self.discrete_treatment_,
                              treatment=x,
                              adjustment=self.adjustment_,
                              covariate=self.covariate_,
@@ -612,12 +616,12 @@ class Why:
         """
         assert test_data is None or isinstance(test_data, pd.DataFrame)
 
-        if self.discrete_treatment:
+        if self.discrete_treatment_:
             fn = self._causal_effect_discrete
         else:
             fn = self._causal_effect_continuous
 
-        if self.discrete_outcome and target_outcome is None:
+        if self.discrete_outcome_ and target_outcome is None:
             target_outcome = self.y_encoder_.classes_[-1]
 
         options = dict(treatment=treatment, treat=treat, control=control,
@@ -789,7 +793,7 @@ class Why:
         assert test_data is not None
         assert all(t in test_data.columns.tolist() for t in self.treatment_)
 
-        if self.discrete_treatment:
+        if self.discrete_treatment_:
             return self._individual_causal_effect_discrete(test_data, control, target_outcome)
         else:
             return self._individual_causal_effect_continuous(test_data, control, target_outcome)
@@ -817,7 +821,7 @@ class Why:
                     row_df[x] = xe.transform(row_df[x])
                     t, c = xe.transform([treat_i, control_i]).tolist()
                     est = self.estimators_[x]
-                    if self.discrete_outcome:
+                    if self.discrete_outcome_:
                         effect = est.estimate(data=row_df, treat=t, control=c, target_outcome=target_outcome)
                     else:
                         effect = est.estimate(data=row_df, treat=t, control=c)
@@ -860,7 +864,7 @@ class Why:
         pd.Series
             The counterfactual prediction
         """
-        assert not self.discrete_outcome, 'whatif only support continuous outcome'
+        assert not self.discrete_outcome_, 'whatif only support continuous outcome'
         assert test_data is not None and new_value is not None
         assert treatment is None or isinstance(treatment, str)
         if isinstance(treatment, str):
@@ -995,7 +999,7 @@ class Why:
         sa = []
         for i, (x, scorer) in enumerate(scorers.items()):
             logger.info(f'fit scorer for {x} with {scorer}')
-            if self.discrete_treatment:
+            if self.discrete_treatment_:
                 xe = self.x_encoders_[x]
                 treat_i = xe.transform([treat[i], ]).tolist()[0] if treat is not None else None
                 control_i = xe.transform([control[i], ]).tolist()[0] if control is not None else None
@@ -1021,7 +1025,7 @@ class Why:
 
         control = self._safe_treat_control(treatment, control, 'control')
 
-        if self.discrete_treatment:
+        if self.discrete_treatment_:
             estimator = self._get_estimator(treatment)
             if control is not None:
                 control = [self.x_encoders_[x].transform([control[i]]).tolist()[0] for i, x in enumerate(treatment)]
@@ -1035,7 +1039,7 @@ class Why:
             assert isinstance(effect, np.ndarray)
             assert effect.ndim == 3
 
-            if self.discrete_outcome and effect.shape[1] > 1:
+            if self.discrete_outcome_ and effect.shape[1] > 1:
                 assert effect.shape[1] == len(self.y_encoder_.classes_)
                 if target_outcome is not None:
                     nz = np.nonzero(self.y_encoder_.classes_ == target_outcome)[0]
@@ -1121,7 +1125,7 @@ class Why:
                          ):
 
         if check_discrete_treatment:
-            assert self.discrete_treatment, f'[{reason}] Only discrete treatment is supported.'
+            assert self.discrete_treatment_, f'[{reason}] Only discrete treatment is supported.'
 
         if test_data is None:
             assert allow_data_none, f'[{reason}] test_data is required.'
@@ -1149,7 +1153,7 @@ class Why:
 
     def _map_effect(self, handler, test_data, treatment=None, treat=None, control=None,
                     target_outcome=None, combined=False):
-        assert self.discrete_treatment, 'Only discrete treatment is supported'
+        assert self.discrete_treatment_, 'Only discrete treatment is supported'
 
         test_data_preprocessed = self._preprocess(test_data, encode_outcome=True, encode_treatment=True)
         treatment = utils.to_list(treatment, 'treatment') if treatment is not None else self.treatment_
@@ -1171,7 +1175,7 @@ class Why:
         result = []
         for x, t, c in itr:
             est = self._get_estimator(x)
-            if self.discrete_outcome:
+            if self.discrete_outcome_:
                 effect = est.estimate(data=test_data_preprocessed, treat=t, control=c, target_outcome=target_outcome)
             else:
                 effect = est.estimate(data=test_data_preprocessed, treat=t, control=c)
@@ -1182,7 +1186,7 @@ class Why:
         return result
 
     def _permute_treat_control_combined(self, treatment, treats, control, encode=False):
-        assert self.discrete_treatment, 'Only discrete treatment is supported'
+        assert self.discrete_treatment_, 'Only discrete treatment is supported'
 
         if treatment is None:
             treatment = self.treatment_
@@ -1222,7 +1226,7 @@ class Why:
                 yield treatment, tuple(t), tuple(control)
 
     def _permute_treat_control_sequential(self, treatment, treats, control, encode=False):
-        assert self.discrete_treatment, 'Only discrete treatment is supported'
+        assert self.discrete_treatment_, 'Only discrete treatment is supported'
 
         if treatment is None:
             treatment = self.treatment_
@@ -1284,7 +1288,7 @@ class Why:
         pd.Series
             The counterfactual prediction
         """
-        assert self.discrete_treatment, 'Uplift_model support discrete treatment only.'
+        assert self.discrete_treatment_, 'Uplift_model support discrete treatment only.'
 
         treatment = utils.to_list(treatment, 'treatment') if treatment is not None else self.treatment_
         self._check_test_data('uplift_model', test_data,
@@ -1312,7 +1316,7 @@ class Why:
         t_encoded, c_encoded = utils.transform_treat_control(encoders, treat=treat, control=control)
         data_tc = utils.select_by_treat_control(test_data_preprocessed, treatment, t_encoded, c_encoded)
 
-        if self.discrete_outcome:
+        if self.discrete_outcome_:
             effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded, target_outcome=target_outcome)
         else:
             effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded)
-- 
2.43.0


From 163f5f23c19249cad200c5ab4ff70f6a4115ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 28/42] fix: DataCleaner.fit_transform finds the columns to
 drop anew

---
 ylearn/sklearn_ex/_data_cleaner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index a102852..6f889d5 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -285,6 +285,9 @@ class DataCleaner:
         if copy_data:
             X, y = self._copy(X, y)
 
+        self.dropped_constant_columns_ = None
+        self.dropped_idness_columns_ = None
+        self.dropped_duplicated_columns_ = None
         X, y = self.clean_data(X, y, reduce_mem_usage=self.reduce_mem_usage)
 
         logger.debug('collect meta info from data')
-- 
2.43.0


From fbdaeddf4695b5232a6917df1a89d690bb660cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 29/42] fix: FeatureImportancesSelectionTransformer infers the
 task anew in every fit

---
 ylearn/sklearn_ex/_transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index a1a9c00..93edd07 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -139,8 +139,9 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         self.selected_features_ = None
 
     def fit(self, X, y):
-        if self.task is None:
-            self.task, _ = infer_task_type(y)
+        task = self.task
+        if task is None:
+            task, _ = infer_task_type(y)
 
         columns_in = X.columns.to_list()
         # logger.info(f'all columns: {columns}')
@@ -158,7 +159,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
 
         preprocessor = general_preprocessor()
 
-        if self.task != 'regression' and y.dtype != 'int':
+        if task != 'regression' and y.dtype != 'int':
             logger.info('label encoding')
             le = LabelEncoder()
             y = le.fit_transform(y)
@@ -166,7 +167,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         logger.info('preprocessing')
         X = preprocessor.fit_transform(X, y)
 
-        estimator = general_estimator(X, y, task=self.task)
+        estimator = general_estimator(X, y, task=task)
         logger.info(f'scoring feature_importances with {estimator} ')
         estimator.fit(X, y)
         importances = estimator.feature_importances_
-- 
2.43.0


From 7a7f9197f987ef186c9905b1390d87da14ee0d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 30/42] fix: the random state 0 seeds the bayesian network like
 any other

---
 ylearn/bayesian/_network.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index c285c5d..4518688 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -254,7 +254,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         interventions = self.interventions
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if data is not None:
@@ -287,7 +287,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         model = self.model_
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         test_data = DataLoader(states).spread(data)
@@ -334,7 +334,7 @@ class BayesianNetwork(BObject):
                     num_samples=_DEFAULT_SAMPLE_NUMBER, proba=False, random_state=None):
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if self.infer_ is not None:
@@ -369,7 +369,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -455,7 +455,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -590,7 +590,7 @@ class SviBayesianNetwork(BayesianNetwork):
         nodes = self.graph.get_nodes()
         assert set(columns) >= set(nodes)
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         loader = DataLoader(data=data)
@@ -648,7 +648,7 @@ class SviBayesianNetwork(BayesianNetwork):
            blanket='markov', epochs=100, lr=0.005, ce_loss=False,
            inplace=True, random_state=None, verbose=1):
         assert isinstance(intervention, dict) and len(intervention) > 0
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         obj = self._get_stub(inplace)
-- 
2.43.0


From 9daaa0eb6cb59ce9e237a2e53ff55d9bd2c692af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:54 +0000
Subject: [PATCH 31/42] fix: importing ylearn does not seed numpy's global
 random generator

---
 ylearn/causal_model/model.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index e852d40..b21e3f2 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -2,7 +2,6 @@ from copy import deepcopy
 from collections import defaultdict
 
 import networkx as nx
-import numpy as np
 
 from sklearn.linear_model import LinearRegression as LR
 
@@ -18,8 +17,6 @@ from .utils import (
 )
 from .prob import Prob
 
-np.random.seed(2022)
-
 
 class CausalModel:
     """
-- 
2.43.0


From 4ee80c97623def1b25297f68f7f5b9543ad13378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:54 +0000
Subject: [PATCH 32/42] fix: binary_data draws its coefficients after seeding
 and takes the seed as argument

---
 ylearn/exp_dataset/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/exp_dataset/exp_data.py b/ylearn/exp_dataset/exp_data.py
index 94773b8..5827696 100644
--- a/ylearn/exp_dataset/exp_data.py
+++ b/ylearn/exp_dataset/exp_data.py
@@ -97,9 +97,10 @@ def generate_controls_outcome(d):
     beta = uniform(-3, 3, d)
     return lambda x: np.dot(x, beta) + normal(0, 1)
 
-def binary_data(n=2000, d=5, n_test=250):
+def binary_data(n=2000, d=5, n_test=250, random_seed=2022):
+    np.random.seed(random_seed)
+
     def _binary_data(n, d, ctrl, ce, propensity):
-        np.random.seed(2022)
         # Generate covariates
         v = multivariate_normal(np.zeros(d), np.diag(np.ones(d)), n)
         # Generate treatment
-- 
2.43.0


From da736b9883fd5ef289ce2c8686f33eeb4cedc11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:54 +0000
Subject: [PATCH 33/42] fix: DeepIV.fit follows its random_state

---
 ylearn/estimator_model/deepiv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 0ae5130..aea2ac4 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -20,6 +20,7 @@ from torch.utils.data import DataLoader
 from torch.distributions import Categorical, Normal, MixtureSameFamily,\
     Independent
 
+from ylearn.utils import set_random_state
 from .utils import convert2array, convert2tensor, shapes
 from ._nn import BatchData, DiscreteOBatchData, DiscreteIOBatchData, DiscreteIBatchData
 from .base_models import BaseEstModel
@@ -749,6 +750,9 @@ class DeepIV(BaseEstModel):
             y, x, w, z, all_dim=False
         )
 
+        # the initial weights and all samples below come from torch's generator
+        set_random_state(self.random_state)
+
         # build networks
         self.x_net = self._gen_x_model(
             self._x_net_init,
-- 
2.43.0


From 6873d4424a57f5224b1f8b79ef4e1f184e83163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:54 +0000
Subject: [PATCH 34/42] fix: the random baseline of Why.uplift_model follows
 random_state

---
 ylearn/api/_why.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 7d9a49f..15cc225 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -1325,6 +1325,7 @@ class Why:
             '_x_': utils.encode_treat_control(data_tc, treatment=treatment, treat=t_encoded, control=c_encoded),
             '_y_': data_tc[self.outcome_]
         }, index=data_tc.index)
+        set_random_state(self.random_state)
         um = L.UpliftModel()
         um.fit(df_lift, treatment='_x_', outcome='_y_', random=random)
         return um
-- 
2.43.0


From c72e3ed2db3c09b20f0fc4d3854f36aba4f4f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:39 +0000
Subject: [PATCH 35/42] fix: Why.score scores the target outcome it is given

---
 ylearn/api/_why.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 15cc225..c3bd11f 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -953,7 +953,8 @@ class Why:
         assert test_data is not None
 
         if scorer in ['auuc', 'qini']:
-            return self._score_auuc_qini(test_data, treat=treat, control=control, scorer=scorer)
+            return self._score_auuc_qini(test_data, treat=treat, control=control,
+                                         target_outcome=target_outcome, scorer=scorer)
         else:
             return self._score_rloss(test_data, treat=treat, control=control)
 
-- 
2.43.0


From cd5f51dab3b5b08a069a90111aebc548fe6c3e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:39 +0000
Subject: [PATCH 36/42] fix: GolemDiscovery follows equal_variances

---
 ylearn/causal_discovery/_discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index 37c4895..f1c797a 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -300,6 +300,7 @@ class GolemDiscovery(BaseDiscovery):
                  device=None, dtype=None, random_state=None):
         super(GolemDiscovery, self).__init__()
         self.scale = scale
+        self.equal_variances = equal_variances
         self.dtype = dtype
         self.device = device
         self.lambdaa = lambdaa
@@ -361,7 +362,7 @@ class GolemDiscovery(BaseDiscovery):
 
         logger.info(f'learning data{data.shape} with device={device}, dtype={dtype}, dims={dims}')
 
-        model = Golem(dims=dims, equal_variances=True, lambdaa=self.lambdaa,
+        model = Golem(dims=dims, equal_variances=self.equal_variances, lambdaa=self.lambdaa,
                       lambdab=self.lambdab, dtype=dtype, device=device)
 
         data_t = torch.tensor(data, dtype=dtype, device=device)
-- 
2.43.0


From 3aae586b233e6d4eead2d20d6b08a1d2510d965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:39 +0000
Subject: [PATCH 37/42] fix: DagmaDiscovery follows lambdaa and the options
 given to a call

---
 ylearn/causal_discovery/_discovery.py | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index f1c797a..7282d4c 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -514,18 +514,18 @@ class DagmaDiscovery(BaseDiscovery):
         self.s = [1.0, .9, .8, .7, .6]
         self.warm_iter, self.max_iter = warm_iter, max_iter
 
-    def train(self, model, X, pbar):
+    def train(self, model, X, pbar, lr, T, warm_iter, s, max_iter):
         self.cov = model(X)
         mu = self.mu_init
-        if type(self.s) == list:
-            s = self.s + (self.T - len(self.s)) * [self.s[-1]]
-        elif type(self.s) in [int, float]:
-            s = self.T * [self.s]
+        if type(s) == list:
+            s = s + (T - len(s)) * [s[-1]]
+        elif type(s) in [int, float]:
+            s = T * [s]
         else:
             raise ValueError("s should be a list, int, or float.")
-        for i in range(int(self.T)):
-            lr_adam, success = self.lr, False
-            inner_iters = int(self.max_iter) if i == self.T - 1 else int(self.warm_iter)
+        for i in range(int(T)):
+            lr_adam, success = lr, False
+            inner_iters = int(max_iter) if i == T - 1 else int(warm_iter)
 
             while success is False:
                 W_temp, success = model.minimize(self.cov, mu, inner_iters,
@@ -538,10 +538,16 @@ class DagmaDiscovery(BaseDiscovery):
         return w_est
 
     def __call__(self, data, *, return_dict=False, threshold=0.01,
-                 lr=0.0003, verbose=False, T=5, warm_iter=3e4,
-                 s=[1.0, .9, .8, .7, .6], max_iter=6e4, **kwargs):
+                 lr=None, verbose=False, T=None, warm_iter=None,
+                 s=None, max_iter=None, **kwargs):
         assert isinstance(data, (np.ndarray, pd.DataFrame))
 
+        lr = self.lr if lr is None else lr
+        T = self.T if T is None else T
+        warm_iter = self.warm_iter if warm_iter is None else warm_iter
+        s = self.s if s is None else s
+        max_iter = self.max_iter if max_iter is None else max_iter
+
         set_random_state(self.random_state)
 
         if isinstance(data, pd.DataFrame):
@@ -562,12 +568,12 @@ class DagmaDiscovery(BaseDiscovery):
 
         logger.info(f'learning data{data.shape} with device={device}, dtype={dtype}, dims={dims}')
 
-        model = Dagma(dims, dtype=dtype, device=device)
+        model = Dagma(dims, lambdaa=self.lambdaa, dtype=dtype, device=device)
         data_t = torch.tensor(data, dtype=dtype, device=device)
 
         epoch = (T - 1) * warm_iter + max_iter
         pbar = tqdm(total=epoch, leave=False, desc='learning..') if verbose else None
-        w_est = self.train(model, data_t, pbar)
+        w_est = self.train(model, data_t, pbar, lr, T, warm_iter, s, max_iter)
         matrix = w_est.detach().numpy()
 
         logger.info(f'trim causal matrix to DAG, threshold={threshold}.')
-- 
2.43.0


From fe800d8504c0185cf4d3a2a5922598a997bbf656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:39 +0000
Subject: [PATCH 38/42] fix: gen follows the number of edges it is given

---
 ylearn/exp_dataset/gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/exp_dataset/gen.py b/ylearn/exp_dataset/gen.py
index f690e58..cb3c6ea 100644
--- a/ylearn/exp_dataset/gen.py
+++ b/ylearn/exp_dataset/gen.py
@@ -377,8 +377,8 @@ def count_accuracy(B_true, B_est):
     return {'fdr': fdr, 'tpr': tpr, 'fpr': fpr, 'shd': shd, 'nnz': pred_size}
 
 
-def gen(n=100, d=5, s0=5, noise_scale=None):
-    s0 = 1 * d
+def gen(n=100, d=5, s0=None, noise_scale=None):
+    s0 = 1 * d if s0 is None else s0
     graph_type, sem_type = 'ER', 'gauss'
     B_true = simulate_dag(d, s0, graph_type)
     W_true = simulate_parameter(B_true)
-- 
2.43.0


From c2abc3fa39d9a0e2ac89fa6d622a7bf8ef6791cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:07 +0000
Subject: [PATCH 39/42] fix: PolicyInterpreter.plot follows the options it is
 given

---
 ylearn/effect_interpreter/policy_interpreter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/effect_interpreter/policy_interpreter.py b/ylearn/effect_interpreter/policy_interpreter.py
index ceec2cf..5b3aa30 100644
--- a/ylearn/effect_interpreter/policy_interpreter.py
+++ b/ylearn/effect_interpreter/policy_interpreter.py
@@ -372,8 +372,12 @@ class PolicyInterpreter:
         exporter = _PolicyTreeMPLExporter(feature_names=feature_names,
                                           treatment_names=self.treatment_names_,
                                           max_depth=max_depth,
+                                          class_names=class_names,
+                                          label=label,
                                           filled=filled,
                                           impurity=False,
+                                          node_ids=node_ids,
+                                          proportion=proportion,
                                           rounded=rounded,
                                           precision=precision,
                                           fontsize=fontsize)
-- 
2.43.0


From 119218cf87e7c19525fc09050481738ec536e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 40/42] fix: backdoor and frontdoor sets are enumerated in the
 order of the nodes

---
 ylearn/causal_model/model.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index b21e3f2..f120f37 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -644,18 +644,21 @@ class CausalModel:
             des_set, backdoor_set_list = set(), []
             for t in treatment:
                 des_set.update(nx.descendants(self.causal_graph.observed_dag, t))
-            initial_set = set(list(ava_nodes)) - treatment - outcome - des_set
+            excluded = treatment | outcome | des_set
+            # in the order of the nodes, such that the choice and the order of the
+            # sets do not depend on the hash seed
+            candidates = [node for node in ava_nodes if node not in excluded]
 
             if adjust == "minimal":
                 # return the backdoor set which has the fewest number of elements
-                for i in powerset(initial_set):
+                for i in powerset(candidates):
                     if nx.d_separated(modified_dag, treatment, outcome, i):
                         backdoor_set_list.append(i)
                         break
             else:
                 backdoor_set_list = [
                     i
-                    for i in powerset(initial_set)
+                    for i in powerset(candidates)
                     if nx.d_separated(modified_dag, treatment, outcome, i)
                 ]
 
@@ -861,13 +864,18 @@ class CausalModel:
 
         # Find the initial set which will then be used to generate all
         # possible frontdoor sets with the method powerset()
+        # in the order of the nodes, such that the choice and the order of the sets
+        # do not depend on the hash seed
         initial_set = set()
         for path in nx.all_simple_paths(
             self.causal_graph.observed_dag, treatment, outcome
         ):
             initial_set.update(set(path))
         initial_set = initial_set - {treatment} - {outcome}
-        potential_set = powerset(initial_set)
+        candidates = [
+            node for node in self.causal_graph.observed_dag.nodes if node in initial_set
+        ]
+        potential_set = powerset(candidates)
 
         # Different frontdoor set styles.
         if adjust == "simple" or adjust == "minimal":
@@ -880,7 +888,7 @@ class CausalModel:
         elif adjust == "all":
             adjustment = [
                 i
-                for i in powerset(initial_set)
+                for i in powerset(candidates)
                 if self.is_frontdoor_set(i, treatment, outcome)
             ]
             adset = adjustment[0] if adjustment else set()
-- 
2.43.0


From 5381eb5052c45c16674e20f12716d6dd373f2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 41/42] fix: identified covariates and instruments keep the
 order of the data

---
 ylearn/api/_identifier.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index ea3d35f..5d2af1c 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -142,26 +142,20 @@ class IdentifierWithDiscovery(DefaultIdentifier):
         cg = CausalGraph(causal_dict)
         cm = CausalModel(cg)
         try:
-            instrument = cm.get_iv(treatment[0], outcome)
-            if non_empty(instrument):
-                instrument = [c for c in instrument if c != outcome and c not in treatment]
+            common = set(cm.get_iv(treatment[0], outcome) or ())
             for x in treatment[1:]:
-                if is_empty(instrument):
-                    break
-                iv = cm.get_iv(x, outcome)
-                if is_empty(iv):
-                    instrument = None
-                    break
-                else:
-                    iv = [c for c in iv if c != outcome and c not in treatment]
-                    instrument = list(set(instrument).intersection(set(iv)))
+                common &= set(cm.get_iv(x, outcome) or ())
+            # keep the order of the data, the sets have none
+            instrument = [c for c in data.columns.tolist()
+                          if c in common and c != outcome and c not in treatment]
         except Exception as e:
             logger.warn(e)
             instrument = []
 
         ids = cm.identify(treatment, outcome, identify_method=method)
-        covariate = list(set(ids['backdoor'][0]))
-        covariate = [c for c in covariate if c != outcome and c not in treatment]
+        adjustment = set(ids['backdoor'][0])
+        covariate = [c for c in data.columns.tolist()
+                     if c in adjustment and c != outcome and c not in treatment]
         if not is_empty(instrument):
             covariate = [c for c in covariate if c not in instrument]
 
-- 
2.43.0


From 895e47223c26b63ad874e5c349f97d300cd9e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:51 +0000
Subject: [PATCH 42/42] fix: the simple backdoor set follows the order of the
 nodes

---
 ylearn/causal_model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index f120f37..9b66f95 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -634,7 +634,8 @@ class CausalModel:
         if adjust == "simple":
             # TODO: if the parent of x_i is the descendent of another x_j
             backdoor_list = []
-            for t in treatment:
+            # in the order of the nodes, treatment is a set
+            for t in [node for node in ava_nodes if node in treatment]:
                 backdoor_list += self.causal_graph.causation[t]
             adset = set(backdoor_list)
         # use other methods
-- 
2.43.0

