From c3c10d73a5dd6b0857d214e7427e8c9bb6ede4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 01/30] fix: adapt keeps a copy of the input, filters with
 memory do not alias the caller's array

---
 padasip/filters/base_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 53a55cc..6142786 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -161,6 +161,8 @@ class AdaptiveFilter():
 
         * `x` : input array (1-dimensional array)
         """
+        # keep own copy of x, the caller can reuse the array for next sample
+        x = np.array(x)
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
-- 
2.43.0


From 6bbc38678d99d39fdc5c3cbd74f3e51ba4192aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 02/30] fix: filters process the data as float64, integer input
 does not overflow in the learning rules

---
 padasip/filters/base_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 6142786..c31bc8a 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -162,7 +162,7 @@ class AdaptiveFilter():
         * `x` : input array (1-dimensional array)
         """
         # keep own copy of x, the caller can reuse the array for next sample
-        x = np.array(x)
+        x = np.array(x, dtype="float64")
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -196,8 +196,8 @@ class AdaptiveFilter():
         self.n = len(x[0])
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
-- 
2.43.0


From 889a08e51c789b77335ef03acc8398c418ab3961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 03/30] fix: filters without own default learning rate (AP,
 LMF, LMS, SSLMS) can be created from the size only

---
 padasip/filters/base_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index c31bc8a..609e1f9 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -11,7 +11,7 @@ class AdaptiveFilter():
     Base class for adaptive filter classes. It puts together some functions
     used by all adaptive filters.
     """
-    def __init__(self, n, mu, w="random"):
+    def __init__(self, n, mu=0.01, w="random"):
         """
         This class represents an generic adaptive filter.
 
-- 
2.43.0


From 4d3a13a0ddf3100d5d2341cca809a181d15bd745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 04/30] fix: run refuses input matrix of wrong width without
 changing the filter

---
 padasip/filters/base_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 609e1f9..9ab2501 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -193,7 +193,8 @@ class AdaptiveFilter():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
+        if not len(x[0]) == self.n:
+            raise ValueError('The number of columns of x and the filter size must agree.')
         # prepare data
         try:
             x = np.array(x, dtype="float64")
@@ -305,7 +306,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
+        if not len(x[0]) == self.n:
+            raise ValueError('The number of columns of x and the filter size must agree.')
         # prepare data
         try:
             x = np.array(x)
-- 
2.43.0


From 24d1a764bfd1dfb3bb9d5ebe45222585b2ada24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 05/30] fix: adapt refuses input of wrong size before the
 filter memory is changed

---
 padasip/filters/base_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 9ab2501..b5bb2a3 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -163,6 +163,8 @@ class AdaptiveFilter():
         """
         # keep own copy of x, the caller can reuse the array for next sample
         x = np.array(x, dtype="float64")
+        if not x.shape == (self.n,):
+            raise ValueError('The length of vector x and the filter size must agree.')
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -265,6 +267,9 @@ class AdaptiveFilterAP(AdaptiveFilter):
 
         * `x` : input array (1-dimensional array)
         """
+        x = np.array(x, dtype="float64")
+        if not x.shape == (self.n,):
+            raise ValueError('The length of vector x and the filter size must agree.')
         # create input matrix and target vector
         self.x_mem[:, 1:] = self.x_mem[:, :-1]
         self.x_mem[:, 0] = x
-- 
2.43.0


From b1db819e003f8278fa90f93b08562a0bb743d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 06/30] fix: learning_entropy accepts array of sensitivities

---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 725e438..72a65a0 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -167,7 +167,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     dw[order:] = np.abs(np.diff(dw, n=order, axis=0))
     # average floting window - window is k-m ... k-1
     awd = np.zeros(w.shape)
-    if not alpha:
+    if np.size(alpha) == 0 or (np.ndim(alpha) == 0 and not alpha):
         # estimate the ALPHA with multiscale approach
         swd = np.zeros(w.shape)
         for k in range(m, N):
-- 
2.43.0


From 84081e6869178cd590461c9da99c371a15c87826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 07/30] fix: ESE passes the threshold to genpareto.fit as a
 scalar

---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index cc5ad45..bae8d95 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -133,7 +133,7 @@ def ESE(w, window=1000, pot_method="10%"):
         for j in range(filter_len):
             poted_values = pot(dw[i - window:i, j], pot_method)
             if dw[i, j] > poted_values[-1]:
-                fit = genpareto.fit(poted_values, floc=[poted_values[-1]])
+                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-- 
2.43.0


From 897c35817597e36883e27c2493ba1338c6d732f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 08/30] fix: ESE supports the documented 30%
 peak-over-threshold method

---
 padasip/detection/ese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index bae8d95..9f22d92 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -96,6 +96,8 @@ def pot(data, method):
         k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
+    elif method == "30%":
+        k = max(int(0.3 * n), 1)
     elif method == "35%":
         k = max(int(0.35 * n), 1)
     return sorted_data[:k]
-- 
2.43.0


From 890b50ff2093c78d22e08365227c551c5e2b920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 09/30] fix: ESE stays finite for filters with many weights

---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 9f22d92..67013c5 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -139,5 +139,5 @@ def ESE(w, window=1000, pot_method="10%"):
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-    ese_value = -np.log10(np.prod(hpp, axis=1))
+    ese_value = -np.sum(np.log10(hpp), axis=1)
     return np.append(np.zeros(window), ese_value)
-- 
2.43.0


From 578267fae4f66ca6c6f3bbcc9f1febefee149ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 10/30] fix: ESE does not use the initial weights as an
 increment

---
 padasip/detection/ese.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 67013c5..99c557c 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -124,8 +124,8 @@ def ESE(w, window=1000, pot_method="10%"):
 
     """
     filter_len = w.shape[1]
-    dw = np.copy(w)
-    dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
+    dw = np.zeros(w.shape)
+    dw[1:] = np.abs(np.diff(w, n=1, axis=0))
     dw_count = int(dw.shape[0])
 
     hpp = np.ones((dw_count - window, filter_len))
-- 
2.43.0


From 1f0b28d64d13a015720507b95210ed6c7ca64ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 11/30] fix: ESE method log10log10 works for window of 10
 samples

---
 padasip/detection/ese.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 99c557c..627b217 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -93,7 +93,8 @@ def pot(data, method):
     elif method == "sqrt":
         k = max(int(np.sqrt(n)), 1)
     elif method == "log10log10":
-        k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
+        # the double logarithm is positive only for more than 10 samples
+        k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1) if n > 10 else 1
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
     elif method == "30%":
-- 
2.43.0


From 58397747b24ba8383a37423a7aa645078f57c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 12/30] fix: LDA accepts labels given as a list

---
 padasip/preprocess/lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 6ec1b02..8fd81b1 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,6 +113,7 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
+    labels = np.array(labels)
     classes = np.array(tuple(set(labels)))
     cols = x.shape[1]
     # mean values for every class
-- 
2.43.0


From 63319d71e8f7f51ab50947249d56bc59738d94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 13/30] fix: LDA returns real data

---
 padasip/preprocess/lda.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 8fd81b1..f295fb9 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -137,7 +137,8 @@ def LDA_base(x, labels):
     # eigenvalues and eigenvectors from scatter matrices
     scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
     eigen_values, eigen_vectors = np.linalg.eig(scatter_product)
-    return eigen_values, eigen_vectors
+    # the problem has real solution, imaginary parts are only numeric residues
+    return np.real(eigen_values), np.real(eigen_vectors)
 
 def LDA(x, labels, n=False):
     """
-- 
2.43.0


From a769b546141e481bab8ff6c53ac6e676897f4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 14/30] fix: PCA returns real and orthogonal components, the
 covariance matrix is symmetric

---
 padasip/preprocess/pca.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index cc0b304..f9e9822 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -91,7 +91,7 @@ def PCA_components(x):
     except:
         raise ValueError('Impossible to convert x to a numpy array.')
     # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - order the eigenvalues
@@ -119,7 +119,9 @@ def PCA(x, n=False):
     assert x.shape[1] > n, "The requested n is bigger than \
         number of features in x."
     # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    eigen_values, eigen_vectors = np.linalg.eigh(np.cov(x.T))
+    # sign of an eigen vector is arbitrary, use the one with non-negative sum
+    eigen_vectors = np.where(eigen_vectors.sum(axis=0) < 0, -1, 1) * eigen_vectors
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - reduced x matrix
-- 
2.43.0


From 9f014cbdaf07770a395439213c36ef52982e6202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 15/30] fix: standardize estimates offset and scale from
 float64 data

---
 padasip/preprocess/standardize.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/preprocess/standardize.py b/padasip/preprocess/standardize.py
index f402b32..d6cad0b 100644
--- a/padasip/preprocess/standardize.py
+++ b/padasip/preprocess/standardize.py
@@ -78,22 +78,22 @@ def standardize(x, offset=None, scale=None):
 
     * `xs` : standardized series
     """
+    try:
+        x = np.array(x, dtype="float64")
+    except:
+        raise ValueError('The argument x is not numpy array or similar.')
     if offset is None:
-        offset = np.array(x).mean()
+        offset = x.mean()
     else:
         try:
             offset = float(offset)
         except:
             raise ValueError('The argument offset is not None or float')
     if scale is None:
-        scale = np.array(x).std()
+        scale = x.std()
     else:
         try:
             scale = float(scale)
         except:
             raise ValueError('The argument scale is not None or float')
-    try:
-        x = np.array(x, dtype="float64")
-    except:
-        raise ValueError('The argument x is not numpy array or similar.')
     return (x - offset) / scale
-- 
2.43.0


From 2ce24b8fcdb0b8f9bb37c1e3a778be314af2ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 16/30] fix: error evaluation does not overflow for integer
 series

---
 padasip/misc/error_evaluation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/padasip/misc/error_evaluation.py b/padasip/misc/error_evaluation.py
index d2896f1..02354fd 100644
--- a/padasip/misc/error_evaluation.py
+++ b/padasip/misc/error_evaluation.py
@@ -96,6 +96,14 @@ Code Explanation
 """
 import numpy as np
 
+def to_float(x):
+    """
+    Convert series to numpy array with at least float64 precision,
+    integer arithmetics could overflow.
+    """
+    x = np.array(x)
+    return x.astype(np.result_type(x, np.float64))
+
 def get_valid_error(x1, x2=-1):
     """
     Function that validates:
@@ -109,14 +117,14 @@ def get_valid_error(x1, x2=-1):
     # just error
     if isinstance(x2, int) and x2 == -1:
         try:
-            e = np.array(x1)
+            e = to_float(x1)
         except:
             raise ValueError('Impossible to convert series to a numpy array')
     # two series
     else:
         try:
-            x1 = np.array(x1)
-            x2 = np.array(x2)
+            x1 = to_float(x1)
+            x2 = to_float(x2)
         except:
             raise ValueError('Impossible to convert one of series to a numpy array')
         if not len(x1) == len(x2):
-- 
2.43.0


From 191e7d95bf33c41c0d76304ea60f03cf1e990c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 17/30] fix: MSE of MLP training epoch includes the last sample

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0fa4fa..3613ea8 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -324,7 +324,7 @@ class NetworkMLP():
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N-1]**2) / N
+            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
         return e, MSE
 
     def run(self, x):
-- 
2.43.0


From f3848c3c1a52f376c020faac710539594f91f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 18/30] fix: MLP training shuffles the data in every epoch

---
 padasip/ann/mlp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 3613ea8..e09ab79 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -313,14 +313,14 @@ class NetworkMLP():
         else:
             e = np.zeros((epochs*N, self.outputs))
         MSE = np.zeros(epochs)
-        # shuffle data if demanded
-        if shuffle:
-            randomize = np.arange(len(x))
-            np.random.shuffle(randomize)
-            x = x[randomize]
-            d = d[randomize]
         # adaptation loop
         for epoch in range(epochs):
+            # shuffle data if demanded
+            if shuffle:
+                randomize = np.arange(len(x))
+                np.random.shuffle(randomize)
+                x = x[randomize]
+                d = d[randomize]
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-- 
2.43.0


From fc53bb7519b44223b353c12caec35576a08bf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 19/30] fix: MLP error is propagated through hidden layers with
 weights before the update

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index e09ab79..1ae2680 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -185,7 +185,7 @@ class Layer():
         else:
             e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
-        w = self.w[:, 1:]
+        w = np.copy(self.w[:, 1:])
         self.w += dw
         return w, e
 
-- 
2.43.0


From 881e212add1b285181b1b6642de94f1fbf1ffd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 20/30] fix: MLP hidden layer update uses the derivative of the
 activation function

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 1ae2680..0754410 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -183,7 +183,7 @@ class Layer():
             e = self.activation(self.y, f=self.f, der=True) * e * w
             dw = self.mu * np.outer(e, self.x)
         else:
-            e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
+            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
         w = np.copy(self.w[:, 1:])
         self.w += dw
-- 
2.43.0


From 955db7d7855d14b44d072f35121bf76ef6f4c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 21/30] fix: MLP refuses unknown activation function

---
 padasip/ann/mlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 0754410..f0abfb8 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -226,6 +226,8 @@ class NetworkMLP():
             "MLP is deprecated, use different Python library instead",
             DeprecationWarning
         )
+        if activation not in ["sigmoid", "tanh"]:
+            raise ValueError('Unknown activation function')
         sigma = layers[-1]**(-0.5)
         # set learning rate
         if mu == "auto":
-- 
2.43.0


From f1c4b832a1c88d956d70212f5fa350cb7072b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 22/30] fix: AP refuses data which are not numeric before the
 filter memory is changed

---
 padasip/filters/base_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index b5bb2a3..60379b2 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -315,8 +315,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
             raise ValueError('The number of columns of x and the filter size must agree.')
         # prepare data
         try:
-            x = np.array(x)
-            d = np.array(d)
+            x = np.array(x, dtype="float64")
+            d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
         # create empty arrays
-- 
2.43.0


From 4974ea12ab79519b58be33d5b25c826395a7dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 23/30] fix: LDA directions are right also when class means of
 a feature agree

---
 padasip/preprocess/lda.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index f295fb9..0c388c3 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -134,11 +134,15 @@ def LDA_base(x, labels):
         dif = mean - total_mean
         dif_product = np.dot(dif.reshape(cols, 1), dif.reshape(1, cols))
         scatter_between += x[labels == cl, :].shape[0] * dif_product
-    # eigenvalues and eigenvectors from scatter matrices
-    scatter_product = np.dot(np.linalg.inv(scatter_within), scatter_between)
-    eigen_values, eigen_vectors = np.linalg.eig(scatter_product)
-    # the problem has real solution, imaginary parts are only numeric residues
-    return np.real(eigen_values), np.real(eigen_vectors)
+    # the eigenproblem is symmetric in whitened data (identity scatter within)
+    whitening = np.linalg.inv(np.linalg.cholesky(scatter_within)).T
+    eigen_values, eigen_vectors = np.linalg.eigh(
+        np.dot(whitening.T, np.dot(scatter_between, whitening)))
+    eigen_vectors = np.dot(whitening, eigen_vectors)
+    # length and sign are arbitrary, use unit length and non-positive sum
+    eigen_vectors = eigen_vectors / np.linalg.norm(eigen_vectors, axis=0)
+    eigen_vectors = np.where(eigen_vectors.sum(axis=0) > 0, -1, 1) * eigen_vectors
+    return eigen_values, eigen_vectors
 
 def LDA(x, labels, n=False):
     """
-- 
2.43.0


From 8048951ed8d8ae2693bbd8f258d1dd2e35180b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 24/30] fix: network with more outputs refuses one-dimensional
 targets with ValueError

---
 padasip/ann/mlp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0abfb8..58b933a 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -302,7 +302,7 @@ class NetworkMLP():
             if not len(d.shape) == 1:
                 raise ValueError('For one output MLP the d must have one dimension')
         else:
-            if not d.shape[1] == self.outputs:
+            if not d.shape[1:] == (self.outputs,):
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
             x = np.array(x)
@@ -389,7 +389,7 @@ class NetworkMLP():
             if not len(d.shape) == 1:
                 raise ValueError('For one output MLP the d must have one dimension')
         else:
-            if not d.shape[1] == self.outputs:
+            if not d.shape[1:] == (self.outputs,):
                 raise ValueError('The number of outputs must agree with number of columns in d')
         try:
             x = np.array(x)
-- 
2.43.0


From 819650c2eca832985c7d75908f0b6eb5c60a27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 25/30] fix: adapt of AP based filters uses the learning rule
 of the class

---
 padasip/filters/base_filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 60379b2..fdcc097 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -279,10 +279,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         self.y_mem = np.dot(self.x_mem.T, self.w)
         self.e_mem = self.d_mem - self.y_mem
         # update
-        dw_part1 = np.dot(self.x_mem.T, self.x_mem) + self.ide_ifc
-        dw_part2 = np.linalg.solve(dw_part1, self.ide)
-        dw = np.dot(self.x_mem, np.dot(dw_part2, self.e_mem))
-        self.w += self.mu * dw
+        self.w += self.learning_rule(self.e_mem, self.x_mem)
 
     def run(self, d, x):
         """
-- 
2.43.0


From c241749ff92dc1a9ae08b0a549988f8a131ef34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:21 +0000
Subject: [PATCH 26/30] fix: refuse initial weights which are a matrix (or a
 scalar) with ValueError

---
 padasip/filters/base_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index fdcc097..36a2a4c 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -89,7 +89,7 @@ class AdaptiveFilter():
                 w = np.zeros(n)
             else:
                 raise ValueError('Impossible to understand the w')
-        elif len(w) == n:
+        elif np.shape(w) == (n,):
             try:
                 w = np.array(w, dtype="float64")
             except:
-- 
2.43.0


From f79867362e31c2d586862d1fa31fb3216b49bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 27/30] fix: run refuses d which is not a vector and x which is
 not a matrix before the filter memory is changed

---
 padasip/filters/base_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 36a2a4c..7bbf481 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -203,6 +203,8 @@ class AdaptiveFilter():
             d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if not (x.shape == (N, self.n) and d.shape == (N,)):
+            raise ValueError('The d must be a vector and x a matrix.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
@@ -316,6 +318,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
             d = np.array(d, dtype="float64")
         except:
             raise ValueError('Impossible to convert x or d to a numpy array')
+        if not (x.shape == (N, self.n) and d.shape == (N,)):
+            raise ValueError('The d must be a vector and x a matrix.')
         # create empty arrays
         y = np.zeros(N)
         e = np.zeros(N)
-- 
2.43.0


From e001819b4e4586f121f1022335ebb95106327f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 28/30] fix: adapt refuses target which is not one number,
 before the filter memory is changed

---
 padasip/filters/base_filter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 7bbf481..f4a4d70 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -165,6 +165,10 @@ class AdaptiveFilter():
         x = np.array(x, dtype="float64")
         if not x.shape == (self.n,):
             raise ValueError('The length of vector x and the filter size must agree.')
+        try:
+            d = float(np.reshape(d, ()))
+        except (TypeError, ValueError):
+            raise ValueError('The d must be a number.')
         y = self.predict(x)
         e = d - y
         self.w += self.learning_rule(e, x)
@@ -272,6 +276,10 @@ class AdaptiveFilterAP(AdaptiveFilter):
         x = np.array(x, dtype="float64")
         if not x.shape == (self.n,):
             raise ValueError('The length of vector x and the filter size must agree.')
+        try:
+            d = float(np.reshape(d, ()))
+        except (TypeError, ValueError):
+            raise ValueError('The d must be a number.')
         # create input matrix and target vector
         self.x_mem[:, 1:] = self.x_mem[:, :-1]
         self.x_mem[:, 0] = x
-- 
2.43.0


From d7e9e11cfbd87c5ed3a70450b9e51a1f89d8d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 29/30] fix: novelty detectors compute increments in float64,
 weights of small integer or low precision types do not wrap

---
 padasip/detection/elbnd.py | 2 +-
 padasip/detection/ese.py   | 2 +-
 padasip/detection/le.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/padasip/detection/elbnd.py b/padasip/detection/elbnd.py
index 491f14e..c112aed 100644
--- a/padasip/detection/elbnd.py
+++ b/padasip/detection/elbnd.py
@@ -115,7 +115,7 @@ def ELBND(w, e, function="max"):
         raise ValueError('Unknown output function')
     # get abs dw from w
     dw = np.zeros(w.shape)
-    dw[:-1] = np.abs(np.diff(w, axis=0))
+    dw[:-1] = np.abs(np.diff(np.asarray(w, dtype="float64"), axis=0))
     # absolute values of product of increments and error
     elbnd = np.abs((dw.T*e).T)
     # apply output function
diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 627b217..8a86379 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -126,7 +126,7 @@ def ESE(w, window=1000, pot_method="10%"):
     """
     filter_len = w.shape[1]
     dw = np.zeros(w.shape)
-    dw[1:] = np.abs(np.diff(w, n=1, axis=0))
+    dw[1:] = np.abs(np.diff(np.asarray(w, dtype="float64"), n=1, axis=0))
     dw_count = int(dw.shape[0])
 
     hpp = np.ones((dw_count - window, filter_len))
diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 72a65a0..2dc74e1 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -159,7 +159,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     * Learning Entropy of data (1 d array) - one value for every sample
 
     """
-    w = np.array(w)
+    w = np.array(w, dtype="float64")
     # get length of data and number of parameters
     N, n = w.shape
     # get abs dw from w
-- 
2.43.0


From 0b71077a10b1881004f00582dd1a7ad3937ec197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 30/30] fix: LDA computes means and scatter in float64

---
 padasip/preprocess/lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 0c388c3..1ef3cf9 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,6 +113,7 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
+    x = np.asarray(x, dtype="float64")
     labels = np.array(labels)
     classes = np.array(tuple(set(labels)))
     cols = x.shape[1]
-- 
2.43.0

