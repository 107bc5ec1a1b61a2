From 4b203ff61861695520c698f3325173572ff43c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 01/38] fix: edge_list_to_features gives each direction its own
 indicator column

With the eight-neighbourhood there are four edge lists but only two columns
were produced, so DirectionalGridCRF(neighborhood=8) failed on every input.
---
 pystruct/utils/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystruct/utils/graph.py b/pystruct/utils/graph.py
index affd1d5..d8e5198 100644
--- a/pystruct/utils/graph.py
+++ b/pystruct/utils/graph.py
@@ -21,7 +21,9 @@ def make_grid_edges(x, neighborhood=4, return_lists=False):
 
 def edge_list_to_features(edge_list):
     edges = np.vstack(edge_list)
-    edge_features = np.zeros((edges.shape[0], 2))
-    edge_features[:len(edge_list[0]), 0] = 1
-    edge_features[len(edge_list[0]):, 1] = 1
+    edge_features = np.zeros((edges.shape[0], len(edge_list)))
+    start = 0
+    for i, direction in enumerate(edge_list):
+        edge_features[start:start + len(direction), i] = 1
+        start += len(direction)
     return edge_features
-- 
2.43.0


From 77dc29c3cb76f7a5bc7969cc0a783043d65f35de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 02/38] fix: LatentDirectionalGridCRF keeps the configured
 neighborhood

LatentGridCRF.__init__ reset it to 4 while four edge features were advertised.
---
 pystruct/models/latent_grid_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index ed312b1..41e8d52 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -66,7 +66,8 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
         self.antisymmetric_edge_features = []
         self.n_edge_features = 2 if neighborhood == 4 else 4
         LatentGridCRF.__init__(self, n_labels, n_features, n_states_per_label,
-                               inference_method=inference_method)
+                               inference_method=inference_method,
+                               neighborhood=neighborhood)
 
     def _set_size_joint_feature(self):
         LatentGridCRF._set_size_joint_feature(self)
-- 
2.43.0


From f7e16d0cfff51b85a1fb5531499c023ffdde243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 03/38] fix: MultiLabelClf weights the two states of a label,
 not the labels

class_weight had length n_labels but is indexed by the binary states, so a
model with a single label failed (or read out of bounds) in loss and
loss-augmented inference.
---
 pystruct/models/multilabel_svm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index ed305a8..9cb6f19 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -48,6 +48,14 @@ class MultiLabelClf(CRF):
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
                                        self.edges.shape[0])
 
+    def _set_class_weight(self):
+        if not hasattr(self, 'size_joint_feature'):
+            # we are not initialized yet
+            return
+        # each label is a binary variable: one weight per state, not per label
+        self.class_weight = np.ones(self.n_states)
+        self.uniform_class_weight = True
+
     def initialize(self, X, Y):
         n_features = X.shape[1]
         if self.n_features is None:
-- 
2.43.0


From 07292b0f9960eadd1906975fe241f08147c305f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:35 +0000
Subject: [PATCH 04/38] fix: BinaryClf loss-augmented inference returns a label
 on ties

np.sign gives 0 when the loss-augmented scores of both labels agree, which is not a label.
---
 pystruct/models/unstructured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index d3c1451..35fbd94 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -121,10 +121,10 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
-        return np.sign(np.dot(x, w) - y)
+        return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
-        return np.sign(np.dot(X, w) - Y)
+        return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
         return Y != Y_hat
-- 
2.43.0


From d4040bd5ab4322563ddf86e3a4e2a59e918957f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 05/38] fix: BinaryClf.batch_joint_feature accepts the true
 labels like every other model

Frank-Wolfe batch training passes them and failed with a TypeError.
---
 pystruct/models/unstructured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 35fbd94..e740b33 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -64,7 +64,7 @@ class BinaryClf(StructuredModel):
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
         return y * x / 2.
 
-    def batch_joint_feature(self, X, Y):
+    def batch_joint_feature(self, X, Y, Y_true=None):
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
-- 
2.43.0


From 684ca4bd7776916c1aa18426a2ce085189660d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 06/38] fix: grid models check the number of features of the
 grid, not of the reshaped nodes

---
 pystruct/models/grid_crf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pystruct/models/grid_crf.py b/pystruct/models/grid_crf.py
index de0f3e1..526e713 100644
--- a/pystruct/models/grid_crf.py
+++ b/pystruct/models/grid_crf.py
@@ -45,6 +45,13 @@ class GridCRF(GraphCRF):
     def _get_edges(self, x):
         return make_grid_edges(x, neighborhood=self.neighborhood)
 
+    def _check_size_x(self, x):
+        # reshaping to nodes below would hide a wrong number of features
+        if x.shape[-1] != self.n_features:
+            raise ValueError("Unary evidence should have %d feature per node,"
+                             " got %s instead."
+                             % (self.n_features, x.shape[-1]))
+
     def _get_features(self, x):
         return x.reshape(-1, self.n_features)
 
-- 
2.43.0


From 65add5194689b34b3118a45b67309ed0659de928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 07/38] fix: MultiLabelClf rejects inputs with the wrong number
 of features

---
 pystruct/models/multilabel_svm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 9cb6f19..1ecfcd5 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -74,10 +74,16 @@ class MultiLabelClf(CRF):
         self._set_size_joint_feature()
         self._set_class_weight()
 
+    def _check_size_x(self, x):
+        if x.shape != (self.n_features,):
+            raise ValueError("Expected input of shape %s, got %s."
+                             % ((self.n_features,), x.shape))
+
     def _get_edges(self, x):
         return self.edges
 
     def _get_unary_potentials(self, x, w):
+        self._check_size_x(x)
         unary_params = w[:self.n_labels * self.n_features].reshape(
             self.n_labels, self.n_features)
         unary_potentials = np.dot(x, unary_params.T)
@@ -89,6 +95,7 @@ class MultiLabelClf(CRF):
         return pairwise_params
 
     def joint_feature(self, x, y):
+        self._check_size_x(x)
         if isinstance(y, tuple):
             # continuous pairwise marginals
             y_cont, pairwise_marginals = y
-- 
2.43.0


From e83123b883307a2c5ccf557f883cdd4ddc8318b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 08/38] fix: the unstructured models reject inputs and weights
 of the wrong size

---
 pystruct/models/unstructured_svm.py | 32 +++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index e740b33..4b0f379 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -41,6 +41,12 @@ class BinaryClf(StructuredModel):
         return ("%s, n_features: %d"
                 % (type(self).__name__, self.size_joint_feature))
 
+    def _check_size_x(self, x):
+        # x is a single sample or an array of samples
+        if np.shape(x)[-1] != self.size_joint_feature:
+            raise ValueError("Expected %d features, got %d"
+                             % (self.size_joint_feature, np.shape(x)[-1]))
+
     def joint_feature(self, x, y):
         """Compute joint feature vector of x and y.
 
@@ -60,11 +66,13 @@ class BinaryClf(StructuredModel):
         p : ndarray, shape (size_joint_feature,)
             Feature vector associated with state (x, y).
         """
+        self._check_size_x(x)
         if y not in [-1, 1]:
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
         return y * x / 2.
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        self._check_size_x(X)
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
@@ -90,9 +98,13 @@ class BinaryClf(StructuredModel):
             Predicted class label.
         """
         self.inference_calls += 1
+        self._check_size_w(np.asarray(w))
+        self._check_size_x(x)
         return 2 * (np.dot(x, w) >= 0) - 1
 
     def batch_inference(self, X, w):
+        self._check_size_w(np.asarray(w))
+        self._check_size_x(X)
         return 2 * (np.dot(X, w) >= 0) - 1
 
     def loss_augmented_inference(self, x, y, w, relaxed=None):
@@ -121,9 +133,13 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
+        self._check_size_w(np.asarray(w))
+        self._check_size_x(x)
         return 2 * (np.dot(x, w) - y >= 0) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
+        self._check_size_w(np.asarray(w))
+        self._check_size_x(X)
         return 2 * (np.dot(X, w) - Y >= 0) - 1
 
     def batch_loss(self, Y, Y_hat):
@@ -198,6 +214,12 @@ class MultiClassClf(StructuredModel):
         return ("%s(n_features=%d, n_classes=%d)"
                 % (type(self).__name__, self.n_features, self.n_states))
 
+    def _check_size_x(self, x):
+        # x is a single sample or an array of samples
+        if np.shape(x)[-1] != self.n_features:
+            raise ValueError("Expected %d features, got %d"
+                             % (self.n_features, np.shape(x)[-1]))
+
     def joint_feature(self, x, y, y_true=None):
         """Compute joint feature vector of x and y.
 
@@ -221,6 +243,7 @@ class MultiClassClf(StructuredModel):
         p : ndarray, shape (size_joint_feature,)
             Feature vector associated with state (x, y).
         """
+        self._check_size_x(x)
         # put feature vector in the place of the weights corresponding to y
         result = np.zeros((self.n_states, self.n_features))
         result[y, :] = x
@@ -233,6 +256,7 @@ class MultiClassClf(StructuredModel):
         return result.ravel()
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        self._check_size_x(X)
         result = np.zeros((self.n_states, self.n_features))
         if self.rescale_C:
             if Y_true is None:
@@ -274,6 +298,8 @@ class MultiClassClf(StructuredModel):
             Predicted class label.
         """
         self.inference_calls += 1
+        self._check_size_w(w)
+        self._check_size_x(x)
         scores = np.dot(w.reshape(self.n_states, -1), x)
         if return_energy:
             return np.argmax(scores), np.max(scores)
@@ -304,6 +330,8 @@ class MultiClassClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
+        self._check_size_w(w)
+        self._check_size_x(x)
         scores = np.dot(w.reshape(self.n_states, -1), x)
         other_classes = np.arange(self.n_states) != y
         if self.rescale_C:
@@ -315,6 +343,8 @@ class MultiClassClf(StructuredModel):
         return np.argmax(scores)
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
+        self._check_size_w(w)
+        self._check_size_x(X)
         scores = np.dot(X, w.reshape(self.n_states, -1).T)
         other_classes = (np.arange(self.n_states) != Y[:, np.newaxis])
         if self.rescale_C or self.uniform_class_weight:
@@ -325,6 +355,8 @@ class MultiClassClf(StructuredModel):
         return np.argmax(scores, axis=1)
 
     def batch_inference(self, X, w, relaxed=None):
+        self._check_size_w(w)
+        self._check_size_x(X)
         scores = np.dot(X, w.reshape(self.n_states, -1).T)
         return np.argmax(scores, axis=1)
 
-- 
2.43.0


From 43c40dda047a39ed9c9bfeac53dfcdf5c7e172a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 09/38] fix: MultiLabelClf can infer the number of labels when
 only the number of features is given

---
 pystruct/models/multilabel_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 1ecfcd5..c84cf88 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -42,7 +42,7 @@ class MultiLabelClf(CRF):
 
     def _set_size_joint_feature(self):
         # try to set the size of joint_feature if possible
-        if self.n_features is not None and self.n_states is not None:
+        if self.n_features is not None and self.n_labels is not None:
             if self.edges is None:
                 self.edges = np.zeros(shape=(0, 2), dtype=np.int)
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
-- 
2.43.0


From 0d94be46d7d1b6436f2a642ffa725d20862ad111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 10/38] fix: latent node completion never leaves a hidden node
 in a visible state

---
 pystruct/models/latent_node_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 14cbd84..e28505e 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -238,7 +238,7 @@ class LatentNodeCRF(GraphCRF):
         edges = self._get_edges(x)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
-        if (h[:len(y)] != y).any():
+        if (h[:len(y)] != y).any() or (h[len(y):] < self.n_labels).any():
             raise ValueError("Inconsistent h and y in latent node CRF!")
             h[:len(y)] = y
         return h
@@ -538,9 +538,11 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
         edges = self._get_edges(x)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
-        if (h[:len(y)] != y).any():
+        if (h[:len(y)] != y).any() or (h[len(y):] < self.n_labels).any():
             print("inconsistent h and y")
             h[:len(y)] = y
+            # hidden nodes can only have hidden states
+            h[len(y):] = np.maximum(h[len(y):], self.n_labels)
         return h
 
     def label_from_latent(self, h):
-- 
2.43.0


From 3e50e2f5d8aa405b13627ae92c9396939e8862ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 11/38] fix: find_constraint_latent compares hidden states with
 hidden states

---
 pystruct/utils/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/inference.py b/pystruct/utils/inference.py
index 9265d99..f30eee5 100644
--- a/pystruct/utils/inference.py
+++ b/pystruct/utils/inference.py
@@ -95,7 +95,7 @@ def find_constraint_latent(model, x, y, w, relaxed=True):
     joint_feature = model.joint_feature
     delta_joint_feature = joint_feature(x, h) - joint_feature(x, h_hat)
 
-    loss = model.loss(y, h_hat)
+    loss = model.loss(h, h_hat)
     slack = max(loss - np.dot(w, delta_joint_feature), 0)
     return h_hat, delta_joint_feature, slack, loss
 
-- 
2.43.0


From 91295bc1ffdd3d2250e90e48d47a40119cacb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 12/38] fix: SubgradientLatentSSVM with more than one job

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 1522e76..55b7e9b 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -176,7 +176,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     if self.n_jobs == -1:
                         n_jobs = cpu_count()
                     else:
-                        n_jobs = self.j_jobs
+                        n_jobs = self.n_jobs
 
                     n_batches = int(np.ceil(float(len(X)) / n_jobs))
                     slices = gen_even_slices(n_samples, n_batches)
-- 
2.43.0


From 3fa6455834c717bb89044b4a8f166f93e1d4841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 13/38] fix: SubgradientLatentSSVM.score compares labels with
 predicted labels

---
 pystruct/learners/subgradient_latent_ssvm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 55b7e9b..d8a09f0 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -262,12 +262,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         score : float
             Average of 1 - loss over training examples.
         """
-        if hasattr(self.model, 'batch_loss'):
-            losses = self.model.batch_loss(
-                Y, self.model.batch_inference(X, self.w))
-        else:
-            losses = [self.model.loss(y, self.model.inference(y, self.w))
-                      for y, y_pred in zip(Y, self.predict(X))]
+        losses = [self.model.base_loss(y, y_pred)
+                  for y, y_pred in zip(Y, self.predict(X))]
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
-- 
2.43.0


From 662d439b5646bbaccb852d949239c0f4da969112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 14/38] fix: cutting-plane training that needs no constraint
 fails with UnboundLocalError

---
 pystruct/learners/n_slack_ssvm.py   | 2 ++
 pystruct/learners/one_slack_ssvm.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 675ca70..a766297 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -270,6 +270,8 @@ class NSlackSSVM(BaseSSVM):
         self.w = np.zeros(self.model.size_joint_feature)
         n_samples = len(X)
         stopping_criterion = False
+        # dual objective while no constraint was found
+        objective = 0.
         if constraints is None:
             # fresh start
             constraints = [[] for i in range(n_samples)]
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4944b28..ce2fb6c 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -429,6 +429,8 @@ class OneSlackSSVM(BaseSSVM):
         else:
             self.cache_tol_ = self.cache_tol
 
+        # dual objective while no constraint was found
+        objective = 0.
         if not warm_start:
             self.w = np.zeros(self.model.size_joint_feature)
             constraints = []
@@ -450,6 +452,7 @@ class OneSlackSSVM(BaseSSVM):
 
         else:
             constraints = self.constraints_
+            objective = self.objective_curve_[-1]
 
         self.last_slack_ = -1
 
-- 
2.43.0


From 758b514456d035b16111686599bf37fcbe9c693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 15/38] fix: warm-starting n-slack training with known
 constraints

---
 pystruct/learners/n_slack_ssvm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index a766297..6f52add 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -281,7 +281,17 @@ class NSlackSSVM(BaseSSVM):
             self.timestamps_ = [time()]
         else:
             # warm start
-            objective = self._solve_n_slack_qp(constraints, n_samples)
+            if not hasattr(self, 'objective_curve_'):
+                self.objective_curve_ = []
+                self.primal_objective_curve_ = []
+                self.timestamps_ = [time()]
+            if ([len(active) for active in getattr(self, 'last_active', [])]
+                    != [len(sample) for sample in constraints]):
+                # these are not the constraints of the last fit
+                self.last_active = [np.zeros(len(sample))
+                                    for sample in constraints]
+            if any(len(sample) for sample in constraints):
+                objective = self._solve_n_slack_qp(constraints, n_samples)
         try:
             # catch ctrl+c to stop training
             # we have to update at least once after going through the dataset
-- 
2.43.0


From 0d9eb646825b602bd354b24e303ebb17f19c58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 16/38] fix: Frank-Wolfe training of models with rescale_C

---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a74375e..045ef23 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -132,7 +132,7 @@ class FrankWolfeSSVM(BaseSSVM):
         joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
         Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                           relaxed=True)
-        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
         ls = np.sum(self.model.batch_loss(Y, Y_hat))
         ws = djoint_feature * self.C
         l_rescaled = self.l * n_samples * self.C
@@ -158,7 +158,7 @@ class FrankWolfeSSVM(BaseSSVM):
         for iteration in range(self.max_iter):
             Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                               relaxed=True)
-            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
             ls = np.mean(self.model.batch_loss(Y, Y_hat))
             ws = djoint_feature * self.C
 
-- 
2.43.0


From b813dd469ace23243d6fc82aaed78b4a4d120355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 17/38] fix: mini-batch subgradient training of models with
 rescale_C

---
 pystruct/learners/subgradient_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index ed4ce46..efe59c2 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -301,8 +301,8 @@ class SubgradientSSVM(BaseSSVM):
                 Y_b = Y[batch]
                 Y_hat = self.model.batch_loss_augmented_inference(
                     X_b, Y_b, w, relaxed=True)
-                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b)
-                                       - self.model.batch_joint_feature(X_b, Y_hat))
+                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b, Y_b)
+                                       - self.model.batch_joint_feature(X_b, Y_hat, Y_b))
                 loss = np.sum(self.model.batch_loss(Y_b, Y_hat))
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
-- 
2.43.0


From 5cdc2b4b6bdee0a352f32b8120eb59ea08a7241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 18/38] fix: Frank-Wolfe training starts from weights that
 match its dual variables

---
 pystruct/learners/frankwolfe_ssvm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 045ef23..949c9a6 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -290,8 +290,9 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        self.l = getattr(self, "l", 0)
+        # the dual variables start at zero, so do the weights they stand for
+        self.w = np.zeros(self.model.size_joint_feature)
+        self.l = 0.0
         try:
             if self.batch_mode:
                 self._frank_wolfe_batch(X, Y)
-- 
2.43.0


From 0f47e1f206a695619d111c69ddfb6addcdaa6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 19/38] fix: Frank-Wolfe training without dual checks, final
 dual value of the final weights

---
 pystruct/learners/frankwolfe_ssvm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 949c9a6..334c17b 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -187,6 +187,7 @@ class FrankWolfeSSVM(BaseSSVM):
             # update w and l
             self.w = (1.0 - gamma) * self.w + gamma * ws
             l = (1.0 - gamma) * l + gamma * ls
+            self.l = l
 
             if self.logger is not None:
                 self.logger(self, iteration)
@@ -252,6 +253,7 @@ class FrankWolfeSSVM(BaseSSVM):
                     self.l = l
                 k += 1
 
+            dual_gap = np.inf
             if (self.check_dual_every != 0) and (iteration % self.check_dual_every == 0):
                 dual_val, dual_gap, primal_val = self._calc_dual_gap(X, Y)
                 self.primal_objective_curve_.append(primal_val)
@@ -304,7 +306,8 @@ class FrankWolfeSSVM(BaseSSVM):
             print("Calculating final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-        self.objective_curve_.append(self.objective_curve_[-1])
+        self.objective_curve_.append(-0.5 * np.sum(self.w ** 2)
+                                     + self.l * len(X) * self.C)
         if self.logger is not None:
             self.logger(self, 'final')
         return self
-- 
2.43.0


From 6d07c2354463ad2af15759ee44dbb182b5e96c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 20/38] fix: comparison of relaxed solutions in the one-slack
 inference cache

---
 pystruct/learners/one_slack_ssvm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index ce2fb6c..c43f973 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -298,12 +298,14 @@ class OneSlackSSVM(BaseSSVM):
                         and all(np.all(_pw1 == _pw2) for _pw1, _pw2
                                 in zip(pw_m_1, pw_m_2))
                 else:
-                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1, pw_m_2)
+                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1 == pw_m_2)
             else:
                 # NOTE original code was possibly comparing array and scalar
                 # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
                 return False
-        # might compare array and tuple... :-/  Was like that, I keep
+        if isinstance(y_2, tuple):
+            # an integral and a relaxed solution
+            return False
         return np.all(y_1 == y_2)
 
     def _update_cache(self, X, Y, Y_hat):
-- 
2.43.0


From 71a02d779411b10a79d5c2278a723cf46a9747b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 21/38] fix: one-slack inference cache keeps no more results
 than configured

---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index c43f973..a3de50d 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -321,7 +321,7 @@ class OneSlackSSVM(BaseSSVM):
                              for cache in sample]
             if np.any(already_there):
                 continue
-            if len(sample) > self.inference_cache:
+            if len(sample) >= self.inference_cache:
                 sample.pop(0)
             # we computed both of these before, but summed them up immediately
             # this makes it a little less efficient in the caching case.
-- 
2.43.0


From 2d6ab13a808f723ee9105ab51d06e24fc514f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 22/38] fix: one-slack inference cache for models with
 rescale_C

---
 pystruct/learners/one_slack_ssvm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index a3de50d..43c9332 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -327,8 +327,11 @@ class OneSlackSSVM(BaseSSVM):
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            sample.append((self.model.joint_feature(x, y_hat),
-                           self.model.loss(y, y_hat), y_hat))
+            if getattr(self.model, 'rescale_C', False):
+                joint_feature = self.model.joint_feature(x, y_hat, y)
+            else:
+                joint_feature = self.model.joint_feature(x, y_hat)
+            sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
-- 
2.43.0


From 9e2d4b92180ade64e707aa572485ca9235315482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 23/38] fix: one-slack learner rejects cached constraints by
 the given cache_tol

---
 pystruct/learners/one_slack_ssvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 43c9332..7948e68 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -364,8 +364,10 @@ class OneSlackSSVM(BaseSSVM):
         loss_mean = loss_mean / len(X)
 
         violation = loss_mean - np.dot(self.w, djoint_feature)
+        # 'auto' adapts cache_tol_ to the duality gap, which was checked above
+        tol = self.tol if self.cache_tol == 'auto' else self.cache_tol_
         if self._check_bad_constraint(violation, djoint_feature, loss_mean, constraints,
-                                      break_on_bad=False):
+                                      break_on_bad=False, tol=tol):
             if self.verbose > 1:
                 print("No constraint from cache.")
             raise NoConstraint
-- 
2.43.0


From adc39745aa98a666042e5302d5b74f1f28034ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 24/38] fix: saving the final model to a file name with the
 iteration

---
 pystruct/utils/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 2ab5a95..fdcfc2c 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -47,7 +47,8 @@ class SaveLogger(object):
         if iteration == 'final' or not iteration % self.save_every:
             file_name = self.file_name
             if "%d" in file_name:
-                file_name = file_name % iteration
+                # iteration may be 'final'
+                file_name = file_name.replace("%d", "%s") % iteration
             if self.verbose > 0:
                 print("saving %s to file %s" % (learner, file_name))
             self.save(learner, file_name)
-- 
2.43.0


From 616bf7a2b33a86bf95a3eb06b1ef0a30e1455483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 25/38] fix: SaveLogger gives the inference cache back when
 saving fails

---
 pystruct/utils/logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index fdcfc2c..db65546 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -60,8 +60,10 @@ class SaveLogger(object):
                 # don't store the large inference cache!
                 learner.inference_cache_, tmp = (None,
                                                  learner.inference_cache_)
-                pickle.dump(learner, f, -1)
-                learner.inference_cache_ = tmp
+                try:
+                    pickle.dump(learner, f, -1)
+                finally:
+                    learner.inference_cache_ = tmp
             else:
                 pickle.dump(learner, f, -1)
 
-- 
2.43.0


From b7c5a22efff67e0e454c7ff30d86533227becb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 26/38] fix: multi-type models check the data in initialize on
 Python 3

---
 pystruct/models/typed_crf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1c0d940..3603c4f 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -155,9 +155,12 @@ class TypedCRF(CRF):
         It is optional to call it. Does data checking only!
         """
         if isinstance(X, list):
-            map(self._check_size_x, X)
+            # map is lazy in Python 3
+            for x in X:
+                self._check_size_x(x)
             if not (Y is None):
-                map(self._check_size_xy, X, Y)
+                for x, y in zip(X, Y):
+                    self._check_size_xy(x, y)
         else:
             self._check_size_x(X)
             self._check_size_xy(X, Y)
-- 
2.43.0


From 10d389b027ab23afffade04f64e6d6acc06d567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 27/38] fix: multi-type instances and labels with too many
 types are rejected

---
 pystruct/models/node_type_edge_feature_graph_crf.py | 2 +-
 pystruct/models/typed_crf.py                        | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index de1e770..6ca8c59 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -174,7 +174,7 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
             raise ValueError("Expected %d edge arrays "
                              "or None" % (self.n_types**2))
         l_edge_features = self._get_edge_features(x)
-        if len(l_edge_features) != self.n_types**2:
+        if len(x[2]) != self.n_types**2:
             raise ValueError("Expected %d edge feature arrays "
                              "or None" % (self.n_types**2))
 
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 3603c4f..0a4e4c1 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -125,6 +125,8 @@ class TypedCRF(CRF):
         This method does the job. It returns a flat Y array, with unique code
         per class label, which can be passed to 'fit'
         """
+        if len(lY_by_typ) != self.n_types:
+            raise ValueError("Expected 1 label array per node type.")
         lY = list()
         for n_start_state, Y_typ in zip(self._l_type_startindex, lY_by_typ):
             lY.append(np.asarray(Y_typ) + n_start_state)
@@ -189,11 +191,11 @@ class TypedCRF(CRF):
                    self.inference_method))
 
     def _check_size_x(self, x):
-        # node_features are [  i_in_typ -> features ]
-        l_node_features = self._get_node_features(x)
-        if len(l_node_features) != self.n_types:
+        if len(x[0]) != self.n_types:
             raise ValueError("Expected one node feature array per node type.")
 
+        # node_features are [  i_in_typ -> features ]
+        l_node_features = self._get_node_features(x)
         for typ, typ_features in enumerate(l_node_features):
             if typ_features.shape[1] != self.l_n_features[typ]:
                 raise ValueError("Expected %d features for type"
-- 
2.43.0


From 0d67ed3ff825359627daf2fa147bd38eaea5acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 28/38] fix: flattening and unflattening labels when a type has
 no nodes

---
 pystruct/models/typed_crf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 0a4e4c1..86a03d5 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -129,7 +129,8 @@ class TypedCRF(CRF):
             raise ValueError("Expected 1 label array per node type.")
         lY = list()
         for n_start_state, Y_typ in zip(self._l_type_startindex, lY_by_typ):
-            lY.append(np.asarray(Y_typ) + n_start_state)
+            # an empty list would give an array of floats
+            lY.append(np.asarray(Y_typ, dtype=int) + n_start_state)
         return np.hstack(lY)
 
     def unflattenY(self, X, flatY):
@@ -140,7 +141,7 @@ class TypedCRF(CRF):
         """
         lY = list()
         i_start_node = 0
-        (l_node_features, l_edges, l_edge_features) = X
+        l_node_features = self._get_node_features(X)
         for n_start_state, nf in zip(self._l_type_startindex, l_node_features):
             n_nodes = nf.shape[0]
             Y = flatY[i_start_node: i_start_node+n_nodes] - n_start_state
-- 
2.43.0


From f4199a3e87b9389028b6c853284f5f30426678b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 29/38] fix: integer class weights in loss-augmented inference
 of CRFs

---
 pystruct/models/base.py      | 2 +-
 pystruct/models/typed_crf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index 8e3fa44..7c8ffd4 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -112,7 +112,7 @@ class StructuredModel(object):
             if len(self.class_weight) != n_things:
                 raise ValueError("class_weight must have length n_states or"
                                  " be None")
-            self.class_weight = np.array(self.class_weight)
+            self.class_weight = np.array(self.class_weight, dtype=float)
             self.uniform_class_weight = False
         else:
             self.class_weight = np.ones(n_things)
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 86a03d5..7faf7d4 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -86,7 +86,7 @@ class TypedCRF(CRF):
                                      " per node type. Wrong for type %d" % i)
 
             # class weights are computed by type and simply concatenated
-            self.l_class_weight = [np.asarray(class_weight)
+            self.l_class_weight = [np.asarray(class_weight, dtype=float)
                                    for class_weight in l_class_weight]
         else:
             self.l_class_weight = [np.ones(n) for n in self.l_n_states]
-- 
2.43.0


From 657892e1a1031075d1f73d7e08d8a2670ca391a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 30/38] fix: joint feature of EdgeFeatureLatentNodeCRF without
 edges or with integer edge features

The stack of no pairwise indicators raised, and halving the (anti)symmetric
integer features in place truncated them.
---
 pystruct/models/latent_node_crf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index e28505e..62349ff 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -608,10 +608,10 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             unary_marginals[gx, y] = 1
 
             # pairwise
-            pw = [np.outer(unary_marginals[edge[0]].T,
-                           unary_marginals[edge[1]]).ravel()
-                  for edge in edges]
-            pw = np.vstack(pw)
+            pw = np.zeros((len(edges), self.n_states ** 2))
+            for i, edge in enumerate(edges):
+                pw[i] = np.outer(unary_marginals[edge[0]].T,
+                                 unary_marginals[edge[1]]).ravel()
 
         pw = np.dot(edge_features.T, pw)
         for i in self.symmetric_edge_features:
-- 
2.43.0


From 0588d34bba668fdbc3f87decbe87e0839d095fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 31/38] fix: relaxed joint feature of MultiLabelClf for integer
 features

---
 pystruct/models/multilabel_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index c84cf88..a766114 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -101,12 +101,12 @@ class MultiLabelClf(CRF):
             y_cont, pairwise_marginals = y
             y_signs = 2 * y_cont[:, 1] - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = unary_marginals * y_signs[:, np.newaxis]
         else:
             # discrete y
             y_signs = 2 * y - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = unary_marginals * y_signs[:, np.newaxis]
             pairwise_marginals = []
             for edge in self.edges:
                 # indicator of one of four possible states of the edge
-- 
2.43.0


From f37c6502163bb93cbe7858a89b0106048735b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 32/38] fix: batch joint feature of MultiClassClf for features
 that are no doubles

---
 pystruct/models/unstructured_svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 4b0f379..657205e 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -271,7 +271,8 @@ class MultiClassClf(StructuredModel):
             # implementation
             assert(X.shape[0] == Y.shape[0])
             assert(X.shape[1] == self.n_features)
-            crammer_singer_joint_feature(X, Y, result)
+            crammer_singer_joint_feature(np.asarray(X, dtype=float), Y,
+                                         result)
         return result.ravel()
 
     def inference(self, x, w, relaxed=None, return_energy=False):
-- 
2.43.0


From 23d58f88353310d5f984dd16fdd8a4c319567710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 33/38] fix: base_loss of latent models for relaxed labels

---
 pystruct/models/latent_graph_crf.py | 2 +-
 pystruct/models/latent_node_crf.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index c77e5b6..500e9fa 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -202,5 +202,5 @@ class LatentGraphCRF(GraphCRF):
 
     def base_loss(self, y, y_hat):
         if isinstance(y_hat, tuple):
-            return GraphCRF.continuous_loss(self, y, y_hat)
+            return GraphCRF.continuous_loss(self, y, y_hat[0])
         return GraphCRF.loss(self, y, y_hat)
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 62349ff..1bde320 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -254,7 +254,7 @@ class LatentNodeCRF(GraphCRF):
 
     def base_loss(self, y, y_hat):
         if isinstance(y_hat, tuple):
-            return GraphCRF.continuous_loss(self, y, y_hat)
+            return GraphCRF.continuous_loss(self, y, y_hat[0])
         return GraphCRF.loss(self, y, y_hat)
 
     def continuous_loss(self, y, y_hat):
@@ -556,7 +556,7 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
 
     def base_loss(self, y, y_hat):
         if isinstance(y_hat, tuple):
-            return GraphCRF.continuous_loss(self, y, y_hat)
+            return GraphCRF.continuous_loss(self, y, y_hat[0])
         return GraphCRF.loss(self, y, y_hat)
 
     def continuous_loss(self, y, y_hat):
-- 
2.43.0


From 44793e9e250314c0f1be97d692e35fc5f248ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 34/38] fix: joint features for labels of small integer types

---
 pystruct/models/edge_feature_graph_crf.py           | 3 ++-
 pystruct/models/multilabel_svm.py                   | 2 +-
 pystruct/models/node_type_edge_feature_graph_crf.py | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index 72cd6d4..d6b7359 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -177,7 +177,8 @@ class EdgeFeatureGraphCRF(GraphCRF):
             unary_marginals = unary_marginals.reshape(n_nodes, self.n_states)
 
         else:
-            y = y.reshape(n_nodes)
+            # small integer types would overflow in class_pair_ind
+            y = np.asarray(y, dtype=int).reshape(n_nodes)
             gx = np.ogrid[:n_nodes]
 
             #make one hot encoding
diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index a766114..fcc77bd 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -104,7 +104,7 @@ class MultiLabelClf(CRF):
             unary_marginals = unary_marginals * y_signs[:, np.newaxis]
         else:
             # discrete y
-            y_signs = 2 * y - 1
+            y_signs = 2 * np.asarray(y, dtype=int) - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
             unary_marginals = unary_marginals * y_signs[:, np.newaxis]
             pairwise_marginals = []
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index 6ca8c59..acd00e0 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -366,6 +366,8 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                     i_start = i_stop
                     l_pw.append(_edge_marginals)
         else:
+            # small integer types would overflow in class_pair_ind
+            y = np.asarray(y, dtype=int)
             self._check_size_xy(x, y)
             # make one hot encoding per type
             l_unary_marginals = []
-- 
2.43.0


From 94b6f91276ff34a74e8e3aa816581598e89c4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 35/38] fix: is_chain compares the number of edges

Broadcasting accepted two nodes without edges (viterbi then read outside of
the pairwise potentials), parallel edges between two nodes and loops.
---
 pystruct/inference/maxprod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index b08900e..ec1ac61 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -15,7 +15,8 @@ def edges_to_graph(edges, n_vertices=None):
 
 def is_chain(edges, n_vertices):
     """Check if edges specify a chain and are in order."""
-    return (np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
+    return (len(edges) == n_vertices - 1
+            and np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
             and np.all(edges[:, 1] == np.arange(1, n_vertices)))
 
 
-- 
2.43.0


From 460ed993ba7f2884480a5f3cc886e0dde96f1f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 36/38] fix: is_forest for graphs without edges and with
 parallel edges

---
 pystruct/utils/graph_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystruct/utils/graph_functions.py b/pystruct/utils/graph_functions.py
index c7004c2..777d5c5 100644
--- a/pystruct/utils/graph_functions.py
+++ b/pystruct/utils/graph_functions.py
@@ -4,7 +4,8 @@ import numpy as np
 def is_forest(edges, n_vertices=None):
     if n_vertices is not None and len(edges) > n_vertices - 1:
         return False
-    n_vertices = np.max(edges) + 1
+    if n_vertices is None:
+        n_vertices = np.max(edges) + 1
     parents = -np.ones(n_vertices)
     visited = np.zeros(n_vertices, dtype=np.bool)
     neighbors = [[] for i in range(n_vertices)]
@@ -12,10 +13,12 @@ def is_forest(edges, n_vertices=None):
         neighbors[edge[0]].append(edge[1])
         neighbors[edge[1]].append(edge[0])
     lonely = 0
+    n_components = 0
     while lonely < n_vertices:
         for i in range(lonely, n_vertices):
             if not visited[i]:
                 queue = [i]
+                n_components += 1
                 lonely = i + 1
                 visited[i] = True
                 break
@@ -30,4 +33,5 @@ def is_forest(edges, n_vertices=None):
                     visited[neighbor] = True
                 elif not parents[node] == neighbor:
                     return False
-    return True
+    # parallel edges are cycles, too
+    return len(edges) == n_vertices - n_components
-- 
2.43.0


From 6548bfa212fe858bb88a8fbb8d716d33761d260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 37/38] fix: max-product on trees decodes consistently when
 labellings tie

Maximising the max-marginal of each node on its own gave labellings that are
not maximal; labels are now chosen from the root on, given the parent's label.
---
 pystruct/inference/maxprod.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index ec1ac61..876d10a 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -75,7 +75,6 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
         neighbors[edge[1]].append(edge[0])
         pairwise_weights[edge[1]].append(pw.T)
 
-    messages_forward = np.zeros((n_vertices, n_states))
     messages_backward = np.zeros((n_vertices, n_states))
     pw_forward = np.zeros((n_vertices, n_states, n_states))
     # build a breadth first search of the tree
@@ -110,20 +109,16 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
                              pw_forward[node], axis=1)
             message -= message.max()
             messages_backward[parent] += message
-    # messages from root back to leaves
+    # decode from root to leaves, given the label of the parent: maximising
+    # each node on its own is inconsistent if there are ties
+    y = np.zeros(n_vertices, dtype=int)
     for node in traversal:
+        belief = messages_backward[node] + unary_potentials[node]
         parent = parents[node]
         if parent != -1:
-            message = messages_forward[parent] + unary_potentials[parent] + pw_forward[node].T
-            # leaves to root messages from other children
-            message += messages_backward[parent] - np.max(messages_backward[node]
-                                                          + unary_potentials[node]
-                                                          + pw_forward[node], axis=1)
-            message = message.max(axis=1)
-            message -= message.max()
-            messages_forward[node] += message
-
-    return np.argmax(unary_potentials + messages_forward + messages_backward, axis=1)
+            belief = belief + pw_forward[node][y[parent]]
+        y[node] = np.argmax(belief)
+    return y
 
 
 def iterative_max_product(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 549fd1434905065f19d179e360062366037065fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 38/38] fix: max-product passes its tolerance on to the
 iterative algorithm

---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index 876d10a..c4c713d 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -59,7 +59,7 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
         y = tree_max_product(unary_potentials, pairwise_potentials, edges)
     else:
         y = iterative_max_product(unary_potentials, pairwise_potentials, edges,
-                                  max_iter=max_iter, damping=damping)
+                                  max_iter=max_iter, damping=damping, tol=tol)
     return y
 
 
-- 
2.43.0

