From d0892199213bac9354e0b148647bbb1f69b71d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:33 +0000
Subject: [PATCH 1/7] fix: cSIL streaming distance of a new cluster to old
 centroids drops a factor 2

For a new singleton cluster the mean squared distance to centroid v is
|x|^2 + |v|^2 - 2<x, v>; the cross term was counted once.
---
 src/cvi/modules/cSIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 93c0911..0935251 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -85,7 +85,7 @@ class cSIL(_base.CVI):
                     C = (
                         CP_new
                         + np.inner(self._v[cl, :], self._v[cl, :])
-                        - np.inner(G_new, self._v[cl, :])
+                        - 2 * np.inner(G_new, self._v[cl, :])
                     )
                     S_col_new[cl] = C
                     C = (
-- 
2.43.0


From f9b3ccb6b899709f34ce79ff2f3028960ddc9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:33 +0000
Subject: [PATCH 2/7] fix: cSIL streaming update counts the new sample's cross
 term twice

|x - v|^2 already contains -2<x, v>, so the remaining cross term must use the
sum of the samples before this one, as the own-cluster entry below does.
---
 src/cvi/modules/cSIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 0935251..21d1dd3 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -140,7 +140,7 @@ class cSIL(_base.CVI):
                     self._CP[i_label]
                     + np.inner(diff_x_v, diff_x_v)
                     + self._n[i_label] * np.inner(self._v[cl, :], self._v[cl, :])
-                    - 2 * np.inner(G_new, self._v[cl, :])
+                    - 2 * np.inner(self._G[i_label, :], self._v[cl, :])
                 )
                 S_col_new[cl] = C / n_new
                 # Row "bmu_temp" - E
-- 
2.43.0


From 901e6e237f8ced45f2c984506458dc6d6c15c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:33 +0000
Subject: [PATCH 3/7] fix: batch mode assumed the labels to be exactly 0..k-1

The clusters were looked up by position instead of by the label found in the
data, so any other set of integer labels produced nan (or ZeroDivisionError in
PS) while streaming the same labels works.
---
 src/cvi/modules/CH.py   | 2 +-
 src/cvi/modules/DB.py   | 2 +-
 src/cvi/modules/GD43.py | 2 +-
 src/cvi/modules/GD53.py | 2 +-
 src/cvi/modules/PS.py   | 2 +-
 src/cvi/modules/WB.py   | 2 +-
 src/cvi/modules/XB.py   | 2 +-
 src/cvi/modules/cSIL.py | 4 ++--
 src/cvi/modules/rCIP.py | 2 +-
 9 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 8a26113..47ee935 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -148,7 +148,7 @@ class CH(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/DB.py b/src/cvi/modules/DB.py
index 56275cd..a350aba 100644
--- a/src/cvi/modules/DB.py
+++ b/src/cvi/modules/DB.py
@@ -175,7 +175,7 @@ class DB(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD43.py b/src/cvi/modules/GD43.py
index 388780a..0ef6fba 100644
--- a/src/cvi/modules/GD43.py
+++ b/src/cvi/modules/GD43.py
@@ -169,7 +169,7 @@ class GD43(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD53.py b/src/cvi/modules/GD53.py
index 4134a40..640cece 100644
--- a/src/cvi/modules/GD53.py
+++ b/src/cvi/modules/GD53.py
@@ -170,7 +170,7 @@ class GD53(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/PS.py b/src/cvi/modules/PS.py
index 83b9101..4bd53b3 100644
--- a/src/cvi/modules/PS.py
+++ b/src/cvi/modules/PS.py
@@ -139,7 +139,7 @@ class PS(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index d1694eb..32998cc 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -150,7 +150,7 @@ class WB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/XB.py b/src/cvi/modules/XB.py
index 53dea02..d5b1e1c 100644
--- a/src/cvi/modules/XB.py
+++ b/src/cvi/modules/XB.py
@@ -166,7 +166,7 @@ class XB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 21d1dd3..7bb9512 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -195,7 +195,7 @@ class cSIL(_base.CVI):
         D = np.zeros((self._n_samples, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
@@ -211,7 +211,7 @@ class cSIL(_base.CVI):
 
         for ix in range(self._n_clusters):
             for jx in range(self._n_clusters):
-                subset_ind = [x for x in range(len(labels)) if labels[x] == jx]
+                subset_ind = [x for x in range(len(labels)) if labels[x] == u[jx]]
                 self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]
 
     @_base._add_docs(_base._evaluate_doc)
diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index e9bf5a4..5b3b419 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -175,7 +175,7 @@ class rCIP(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
-- 
2.43.0


From e669f84b11d96ef6ce8df08bd356716d93718f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:33 +0000
Subject: [PATCH 4/7] fix: CH and WB keep a reference to the caller's first
 sample

The running mean was the caller's own array until the second sample, so
reusing the buffer for the next sample silently changed the result.
---
 src/cvi/modules/CH.py | 2 +-
 src/cvi/modules/WB.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 47ee935..b28efd7 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -54,7 +54,7 @@ class CH(_base.CVI):
 
         # CH-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = sample.copy()
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index 32998cc..00766b0 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -56,7 +56,7 @@ class WB(_base.CVI):
 
         # WB-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = sample.copy()
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
-- 
2.43.0


From 017c82131a243929d68a70a6f8efbe3cdfe5f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:33 +0000
Subject: [PATCH 5/7] fix: a sample after a batch update was accepted and
 produced garbage

Switching from batch to incremental mode is documented as unsupported, but
only the opposite direction was refused: depending on the index the call
raised IndexError or returned a value for an unrelated partition.
---
 src/cvi/modules/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e931411..b611fa8 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -68,6 +68,7 @@ class CVI():
         self._n_clusters = 0
         self.criterion_value = 0.0
         self._is_setup = False
+        self._is_batch = False
 
     def _setup(self, sample: np.ndarray):
         """
@@ -102,6 +103,7 @@ class CVI():
         # Infer the data dimension and number of samples
         self._n_samples, self._dim = data.shape
         self._is_setup = True
+        self._is_batch = True
 
     @abstractmethod
     def _param_inc(self, sample: np.ndarray, label: int):
@@ -136,6 +138,13 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
+
+            # Error until batch to incremental is supported
+            if self._is_batch:
+                raise ValueError(
+                    "Switching from batch to incremental not supported"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
-- 
2.43.0


From 110eec8a81d648ffd39a12b909bd274b34247f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:49 +0000
Subject: [PATCH 6/7] fix: promote integer samples before forming products
 (cSIL stream, rCIP batch)

np.inner(sample, sample) and subset.T @ subset were computed in the integer
type of the samples, so uint8, int8, int16, int32 and large int64 samples
overflowed silently.
---
 src/cvi/modules/cSIL.py | 3 +++
 src/cvi/modules/rCIP.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 7bb9512..14bedbc 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -54,6 +54,9 @@ class cSIL(_base.CVI):
         Incremental parameter update for the Centroid-based Silhouette (cSIL) CVI.
         """
 
+        # Integer samples are promoted so that their inner products can not overflow
+        sample = np.asarray(sample, dtype=float)
+
         # Get the internal label corresponding to the provided label
         i_label = self._label_map.get_internal_label(label)
 
diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index 5b3b419..9f32b38 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -177,7 +177,8 @@ class rCIP(_base.CVI):
             subset_indices = (
                 [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
-            subset = data[subset_indices, :]
+            # Integer samples are promoted so that their products can not overflow
+            subset = data[subset_indices, :].astype(float)
             self._n[ix] = subset.shape[0]
             self._v[ix, :] = np.mean(subset, axis=0)
             if self._n[ix] > 1:
-- 
2.43.0


From d8ec8e25254a3dc56ddf0086d836e9081f6e5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:05 +0000
Subject: [PATCH 7/7] fix: compute in double precision whatever the numeric
 type of the samples

float16 and float32 samples were accumulated in their own type, so means and
scatter lost the digits the indices are made of (XB of a float32 batch around
1e6 came out as 129.7 instead of 0.0632), and the integer type of a first
sample stayed in the running mean.
---
 src/cvi/modules/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index b611fa8..fc2d4af 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -136,6 +136,9 @@ class CVI():
             The CVI's criterion value.
         """
 
+        # Work in double precision whatever the numeric type of the samples
+        data = np.asarray(data, dtype=float)
+
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
 
-- 
2.43.0

