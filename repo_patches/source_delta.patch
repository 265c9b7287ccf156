From e60e255b5bae8ea1afbfd7b4e3f523db85077aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 01/15] fix: keep copies of the last input in GNGD and VSLMS
 filters

The filters stored the caller's array itself, so a caller re-using one input
buffer for adapt() changed the remembered previous input.
---
 padasip/filters/gngd.py             | 2 +-
 padasip/filters/vslms_ang.py        | 2 +-
 padasip/filters/vslms_benveniste.py | 2 +-
 padasip/filters/vslms_mathews.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/padasip/filters/gngd.py b/padasip/filters/gngd.py
index 3cad233..478e945 100644
--- a/padasip/filters/gngd.py
+++ b/padasip/filters/gngd.py
@@ -90,5 +90,5 @@ class FilterGNGD(AdaptiveFilter):
                    np.dot(x, self.last_x) / \
                    (np.dot(self.last_x, self.last_x) + self.eps) ** 2
         nu = self.mu / (self.eps + np.dot(x, x))
-        self.last_e, self.last_x = e, x
+        self.last_e, self.last_x = e, np.array(x)
         return nu * e * x
diff --git a/padasip/filters/vslms_ang.py b/padasip/filters/vslms_ang.py
index 7281328..cc04b50 100644
--- a/padasip/filters/vslms_ang.py
+++ b/padasip/filters/vslms_ang.py
@@ -99,5 +99,5 @@ class FilterVSLMS_Ang(AdaptiveFilter):
         """
         fi = (self.a * self.last_fi) + (self.last_e * self.last_x)
         mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))
-        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
+        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, np.array(x), fi
         return mu * e * x
diff --git a/padasip/filters/vslms_benveniste.py b/padasip/filters/vslms_benveniste.py
index 97a8242..7c69ef3 100644
--- a/padasip/filters/vslms_benveniste.py
+++ b/padasip/filters/vslms_benveniste.py
@@ -96,5 +96,5 @@ class FilterVSLMS_Benveniste(AdaptiveFilter):
         fi_part = np.eye(self.n) - (self.last_mu * np.outer(self.last_x, self.last_x))
         fi = np.dot(fi_part, self.last_fi) + (self.last_e * self.last_x)
         mu = self.last_mu + (self.ro * e * np.dot(self.last_x, fi))
-        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, x, fi
+        self.last_e, self.last_mu, self.last_x, self.last_fi = e, mu, np.array(x), fi
         return mu * e * x
diff --git a/padasip/filters/vslms_mathews.py b/padasip/filters/vslms_mathews.py
index a7e9630..6f766f4 100644
--- a/padasip/filters/vslms_mathews.py
+++ b/padasip/filters/vslms_mathews.py
@@ -93,5 +93,5 @@ class FilterVSLMS_Mathews(AdaptiveFilter):
         Override the parent class.
         """
         mu = self.last_mu + (self.ro * e * self.last_e * np.dot(self.last_x, x))
-        self.last_e, self.last_mu, self.last_x = e, mu, x
+        self.last_e, self.last_mu, self.last_x = e, mu, np.array(x)
         return mu * e * x
-- 
2.43.0


From 9e9fc2254380dbe42f1a7574d4f13e22f897194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 02/15] fix: refuse data of the wrong width in run() before
 touching the filter

run() overwrote the filter's size with the width of the data and failed only
later, which left the filter with a wrong size after the refused call.
---
 padasip/filters/base_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 53a55cc..2fd4116 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -191,7 +191,8 @@ class AdaptiveFilter():
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
+        if not len(x[0]) == self.n:
+            raise ValueError('The width of matrix x must agree with the filter size.')
         # prepare data
         try:
             x = np.array(x)
@@ -303,7 +304,8 @@ class AdaptiveFilterAP(AdaptiveFilter):
         N = len(x)
         if not len(d) == N:
             raise ValueError('The length of vector d and matrix x must agree.')
-        self.n = len(x[0])
+        if not len(x[0]) == self.n:
+            raise ValueError('The width of matrix x must agree with the filter size.')
         # prepare data
         try:
             x = np.array(x)
-- 
2.43.0


From 909bb6a90405de489af77a16daca453a2b5f4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 03/15] fix: AdaptiveFilterAP.adapt uses the filter's learning
 rule

adapt() hard-coded the AP update, so a subclass with another learning rule was
adapted differently by adapt() and run().
---
 padasip/filters/base_filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/padasip/filters/base_filter.py b/padasip/filters/base_filter.py
index 2fd4116..8d453b5 100644
--- a/padasip/filters/base_filter.py
+++ b/padasip/filters/base_filter.py
@@ -272,10 +272,7 @@ class AdaptiveFilterAP(AdaptiveFilter):
         self.y_mem = np.dot(self.x_mem.T, self.w)
         self.e_mem = self.d_mem - self.y_mem
         # update
-        dw_part1 = np.dot(self.x_mem.T, self.x_mem) + self.ide_ifc
-        dw_part2 = np.linalg.solve(dw_part1, self.ide)
-        dw = np.dot(self.x_mem, np.dot(dw_part2, self.e_mem))
-        self.w += self.mu * dw
+        self.w += self.learning_rule(self.e_mem, self.x_mem)
 
     def run(self, d, x):
         """
-- 
2.43.0


From f5d6718176a45bd2928f3305c8eeb562a51bef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 04/15] fix: ESE treats the first row as having no increment

The first row of the increment matrix held the raw initial weights, so the
first windows depended on the offset of the weights.
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index cc5ad45..baf9c29 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -122,7 +122,7 @@ def ESE(w, window=1000, pot_method="10%"):
 
     """
     filter_len = w.shape[1]
-    dw = np.copy(w)
+    dw = np.zeros(w.shape)
     dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
     dw_count = int(dw.shape[0])
 
-- 
2.43.0


From 94aca4e1b78181f340a81f4f5cf26ae68396ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 05/15] fix: ESE supports the documented 30% method

pot_method='30%' is documented but was not implemented (IndexError).
---
 padasip/detection/ese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index baf9c29..53c5832 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -96,6 +96,8 @@ def pot(data, method):
         k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
+    elif method == "30%":
+        k = max(int(0.3 * n), 1)
     elif method == "35%":
         k = max(int(0.35 * n), 1)
     return sorted_data[:k]
-- 
2.43.0


From a0a5131d6b76e9cbe14c0b6f732bfeb33424b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 06/15] fix: ESE log10log10 method never asks for more values
 than the window holds

For a window of 10 samples the count was infinite (OverflowError).
---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 53c5832..c834f7e 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -93,7 +93,7 @@ def pot(data, method):
     elif method == "sqrt":
         k = max(int(np.sqrt(n)), 1)
     elif method == "log10log10":
-        k = max(int((n ** (2/3))/np.log10(np.log10(n))), 1)
+        k = max(int(min((n ** (2/3))/np.log10(np.log10(n)), n)), 1)
     elif method == "log10":
         k = max(int(np.log10(n)), 1)
     elif method == "30%":
-- 
2.43.0


From 3ce38aa5b5be3c8b2ece250b373822192d3cbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 07/15] fix: MLP.train counts the last sample of an epoch in
 its MSE

---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index f0fa4fa..3613ea8 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -324,7 +324,7 @@ class NetworkMLP():
             for k in range(N):
                 self.predict(x[k])
                 e[(epoch*N)+k] = self.update(d[k])
-            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N-1]**2) / N
+            MSE[epoch] = np.sum(e[epoch*N:(epoch+1)*N]**2) / N
         return e, MSE
 
     def run(self, x):
-- 
2.43.0


From dda26fed34776dde910bb193b6618c652bd8c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 08/15] fix: MLP hidden layers use the derivative of the
 activation once

Layer.update multiplied the backpropagated error by an extra (1 - y), which is
not part of the gradient.
---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index 3613ea8..b8fd1d2 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -183,7 +183,7 @@ class Layer():
             e = self.activation(self.y, f=self.f, der=True) * e * w
             dw = self.mu * np.outer(e, self.x)
         else:
-            e = self.activation(self.y, f=self.f, der=True) * (1 - self.y) * np.dot(e, w)
+            e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
         w = self.w[:, 1:]
         self.w += dw
-- 
2.43.0


From 31e28ecb530dc30743a04c5e415ae427b3cf066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 09/15] fix: MLP backpropagates through the weights before the
 update

Layer.update returned a view of its weights, already updated when the layer
below used them.
---
 padasip/ann/mlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/ann/mlp.py b/padasip/ann/mlp.py
index b8fd1d2..09e1a79 100644
--- a/padasip/ann/mlp.py
+++ b/padasip/ann/mlp.py
@@ -185,7 +185,7 @@ class Layer():
         else:
             e = self.activation(self.y, f=self.f, der=True) * np.dot(e, w)
             dw = self.mu * np.outer(e, self.x)
-        w = self.w[:, 1:]
+        w = np.copy(self.w[:, 1:])
         self.w += dw
         return w, e
 
-- 
2.43.0


From 2c04e9f811d786663324cbffc8b705d9dc203d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 10/15] fix: learning_entropy accepts an array of sensitivities

alpha is documented as a 1d array, but an array raised ValueError (ambiguous
truth value).
---
 padasip/detection/le.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/le.py b/padasip/detection/le.py
index 725e438..7116bca 100644
--- a/padasip/detection/le.py
+++ b/padasip/detection/le.py
@@ -167,7 +167,7 @@ def learning_entropy(w, m=10, order=1, alpha=False):
     dw[order:] = np.abs(np.diff(dw, n=order, axis=0))
     # average floting window - window is k-m ... k-1
     awd = np.zeros(w.shape)
-    if not alpha:
+    if alpha is None or alpha is False or len(alpha) == 0:
         # estimate the ALPHA with multiscale approach
         swd = np.zeros(w.shape)
         for k in range(m, N):
-- 
2.43.0


From c13a7d52a2a27c3ccad37f12a3499058de6b7119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 11/15] fix: OCNLMS predict no longer changes the filter's
 memory

---
 padasip/filters/ocnlms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/padasip/filters/ocnlms.py b/padasip/filters/ocnlms.py
index 7e36644..3e07c69 100644
--- a/padasip/filters/ocnlms.py
+++ b/padasip/filters/ocnlms.py
@@ -98,8 +98,10 @@ class FilterOCNLMS(AdaptiveFilter):
         """
         Override the parent class.
         """
+        self.advance_memory()
         self.update_memory_x(x)
         m_d, m_x = self.read_memory()
+        self.advance_memory()
         y = np.dot(self.w, x-m_x) + m_d
         self.update_memory_d(e + y)
         return self.mu / (self.eps + np.dot(x - m_x, x - m_x)) * e * (x - m_x)
@@ -157,8 +159,13 @@ class FilterOCNLMS(AdaptiveFilter):
         else:
             m_x = np.mean(self.mem_x, axis=0)
             m_d = np.mean(np.delete(self.mem_d, self.mem_idx))
+        return m_d, m_x
+
+    def advance_memory(self):
+        """
+        This function moves the memory index to the next sample.
+        """
         self.mem_idx += 1
         if self.mem_idx > len(self.mem_x)-1:
             self.mem_idx = 0
             self.mem_empty = False
-        return m_d, m_x
-- 
2.43.0


From 1c8a7f73123b79ee297e5e571896954aad5622cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 12/15] fix: PCA and PCA_components fail on data with a single
 feature

---
 padasip/preprocess/pca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/padasip/preprocess/pca.py b/padasip/preprocess/pca.py
index cc0b304..9240cc9 100644
--- a/padasip/preprocess/pca.py
+++ b/padasip/preprocess/pca.py
@@ -91,7 +91,7 @@ def PCA_components(x):
     except:
         raise ValueError('Impossible to convert x to a numpy array.')
     # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    eigen_values, eigen_vectors = np.linalg.eig(np.atleast_2d(np.cov(x.T)))
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - order the eigenvalues
@@ -119,7 +119,7 @@ def PCA(x, n=False):
     assert x.shape[1] > n, "The requested n is bigger than \
         number of features in x."
     # eigen values and eigen vectors of data covariance matrix
-    eigen_values, eigen_vectors = np.linalg.eig(np.cov(x.T))
+    eigen_values, eigen_vectors = np.linalg.eig(np.atleast_2d(np.cov(x.T)))
     # sort eigen vectors according biggest eigen value
     eigen_order = eigen_vectors.T[(-eigen_values).argsort()]
     # form output - reduced x matrix
-- 
2.43.0


From f2e8b79d83059fe0fa151668ba7958253b24aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 13/15] fix: LDA compares a list of labels as a whole with a
 class label

---
 padasip/preprocess/lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padasip/preprocess/lda.py b/padasip/preprocess/lda.py
index 6ec1b02..8fd81b1 100644
--- a/padasip/preprocess/lda.py
+++ b/padasip/preprocess/lda.py
@@ -113,6 +113,7 @@ def LDA_base(x, labels):
       from LDA analysis
 
     """
+    labels = np.array(labels)
     classes = np.array(tuple(set(labels)))
     cols = x.shape[1]
     # mean values for every class
-- 
2.43.0


From 3639119a00a3418690c983bf036a548e1639c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:28 +0000
Subject: [PATCH 14/15] fix: ESE takes the increments of the weights, not of
 the zeroed array

---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index c834f7e..5bbbdb7 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -125,7 +125,7 @@ def ESE(w, window=1000, pot_method="10%"):
     """
     filter_len = w.shape[1]
     dw = np.zeros(w.shape)
-    dw[1:] = np.abs(np.diff(dw, n=1, axis=0))
+    dw[1:] = np.abs(np.diff(w, n=1, axis=0))
     dw_count = int(dw.shape[0])
 
     hpp = np.ones((dw_count - window, filter_len))
-- 
2.43.0


From b368c36ed0fca842b3870b13a48001813af2a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 15/15] fix: ESE passes the fixed location as a number (a list
 made the fit's results unusable)

---
 padasip/detection/ese.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padasip/detection/ese.py b/padasip/detection/ese.py
index 5bbbdb7..030c935 100644
--- a/padasip/detection/ese.py
+++ b/padasip/detection/ese.py
@@ -135,7 +135,7 @@ def ESE(w, window=1000, pot_method="10%"):
         for j in range(filter_len):
             poted_values = pot(dw[i - window:i, j], pot_method)
             if dw[i, j] > poted_values[-1]:
-                fit = genpareto.fit(poted_values, floc=[poted_values[-1]])
+                fit = genpareto.fit(poted_values, floc=poted_values[-1])
                 if dw[i, j] >= fit[1]:
                     hpp[i - window, j] = 1 - genpareto.cdf(dw[i, j], fit[0], fit[1], fit[2]) + 1e-20
 
-- 
2.43.0

