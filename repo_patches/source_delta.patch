From 35272f522bb0738a564a1105ecce3b55a76dd04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 01/59] fix: HPELM.project writes a custom range to the right
 output rows

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 43471b6..d8c8cd6 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -282,7 +282,7 @@ class HPELM(ELM):
             # process data
             Hb = self.nnet._project(Xb)
             # write data
-            H[start:stop-istart] = Hb
+            H[start-istart:stop-istart] = Hb
 
             # report time
             eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-- 
2.43.0


From 604d4565a1bca278c5feeb1d243252e25e87da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 02/59] fix: custom numpy.ufunc neurons can be projected,
 trained and used

---
 hpelm/nnets/slfn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 176c2c4..830eebe 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -80,6 +80,8 @@ class SLFN(object):
             B (vector): a 1-D vector of neuron biases, size (`number` * 1)
         """
         ntypes = [nr[1] for nr in self.neurons]  # existing types of neurons
+        if func not in self.func:  # custom <numpy.ufunc> neurons
+            self.func[func] = lambda X, W, B: np.array(func(np.dot(X, W) + B), dtype=self.precision)
         if func in ntypes:
             # add to an existing neuron type
             i = ntypes.index(func)
-- 
2.43.0


From 0edd9df488d76997664dc7fa4cc732acdedb08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 03/59] fix: symmetric HH given to the default solver no longer
 gets its lower triangle doubled

solve_corr() with a full HH that is not numerically positive definite solved a
non-symmetric system, and get_corr() after set_corr() returned a wrong matrix.
---
 hpelm/nnets/slfn_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 8bfdcd0..2e3264e 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -61,7 +61,7 @@ class SLFNPython(SLFN):
         if info > 0:
             print("Covariance matrix is not full rank; solving with SVD (slow)")
             print("This happened because you have duplicated or too many neurons")
-            HH = HH + np.triu(HH, k=1).T
+            HH = np.triu(HH) + np.triu(HH, k=1).T
             B = np.linalg.lstsq(HH, HT)[0]
         return B
 
@@ -69,5 +69,5 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
-        HH = self.HH + np.triu(self.HH, k=1).T
+        HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From b3d067037094d8d065aa26fad10353faf18ff38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 04/59] fix: MRSR falls back to pseudo-inverse with current
 Numpy

---
 hpelm/modules/mrsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index ab3547b..77cc3a8 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -97,7 +97,7 @@ def mrsr(X, T, kmax):
         #v3 = XX[i1, :][:, i1]
         try:
             invXX = np.linalg.inv(v3)	   
-        except np.linalg.linalg.LinAlgError:
+        except np.linalg.LinAlgError:
             invXX = np.linalg.pinv(v3)
 
         Wols = np.dot(invXX, XT.take(i1,axis=0))
-- 
2.43.0


From 0a824124e9b49e9634a03a8096dbd0a89372762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 05/59] fix: MRSR works with a single regressor and with a zero
 residual

---
 hpelm/modules/mrsr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index 77cc3a8..c932588 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -71,7 +71,7 @@ def mrsr(X, T, kmax):
     Yols  = np.dot(Xi1, np.reshape(Wols, (1,-1)))
     B     = np.dot(Yols.T, Xi2)
     G     = (cmax+np.dot(S,A))/(cmax+np.dot(S,B))
-    g     = G[G>=0].min()
+    g     = G[G>=0].min(initial=1)
     Y = g*Yols
 
     # Rest of the steps
@@ -113,7 +113,7 @@ def mrsr(X, T, kmax):
         if k == kmax:  # G[G>=0] is empty if k==kmax; empty.min() will give error
             Y = Yols
         else:
-            g = G[G>=0].min()
+            g = G[G>=0].min(initial=1)
             Y = (1-g)*Y+g*Yols
 		
     return i1
-- 
2.43.0


From 6eb31b0f02d62afa9ef08b1ca0d2e876d331100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 06/59] fix: model structure selection keeps class weights in
 weighted classification

The selected network was re-trained without weights (V, CV, LOO), and CV without
explicit weights crashed.
---
 hpelm/mss_cv.py  | 9 +++++++--
 hpelm/mss_loo.py | 2 +-
 hpelm/mss_v.py   | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 35f349c..770c7d4 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -33,6 +33,11 @@ def train_cv(self, X, T, k):
     for i in range(k):
         idxk.append(np.arange(N)[i::k])
 
+    # automatic class weights of the whole dataset, not of one training part
+    if self.classification == "wc" and self.wc is None:
+        ns = T.sum(axis=0).astype(self.precision)
+        self.wc = ns.sum() / ns
+
     datak = []
     for i in range(k):
         items = [(i+j) % k for j in range(k)]
@@ -46,7 +51,7 @@ def train_cv(self, X, T, k):
         Xts = X[idx_ts]
         Tts = T[idx_ts]
         self.nnet.reset()
-        self.nnet.add_batch(Xtr, Ttr)
+        self.add_data(Xtr, Ttr)
         HH, HT = self.nnet.get_corr()
         Hvl = self.nnet._project(Xvl)
         Hts = self.nnet._project(Xts)
@@ -118,7 +123,7 @@ def train_cv(self, X, T, k):
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a Cross-Validation" % (len(best_nn), nn)
 #    print "the Cross-Validation test error is %f" % err_ts
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 94c6dfd..14e8095 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -89,7 +89,7 @@ def train_loo(self, X, T):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a LOO validation" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index 33b5829..b29c31c 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -78,7 +78,7 @@ def train_v(self, X, T, Xv, Tv):
     best_L = rank[:k_opt]
 
     self.nnet._prune(best_L)
-    self.nnet.add_batch(X, T)
+    self.add_data(X, T)
     self.nnet.solve()
 #    print "%d of %d neurons selected with a validation set" % (len(best_nn), nn)
 #    if len(best_nn) > nn*0.9:
-- 
2.43.0


From 6acf8fc45282c3baffe3d2da4599a61e7c493cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 07/59] fix: cross-validation works with one or two neurons

---
 hpelm/mss_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 770c7d4..030c2a5 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -73,7 +73,7 @@ def train_cv(self, X, T, k):
     # halve the interval each time
 
     # initialize intervals
-    iA = 3
+    iA = min(3, L)
     iE = L
     l = iE - iA
     iB = iA + l//4
-- 
2.43.0


From a43dc24ce39bed4723892607fc7e97080adcf01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 08/59] fix: cross-validation returns the test error of the
 selected number of neurons

As documented, the error is of the optimal model; it was computed with all neurons.
---
 hpelm/mss_cv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index 030c2a5..e9a9b06 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -117,9 +117,10 @@ def train_cv(self, X, T, k):
 
     # get test error
     err_t = 0
-    for HH, HT, _, _, Hts, Tts, _ in datak:
-        B = self.nnet.solve_corr(HH, HT)
-        Yts = np.dot(Hts, B)
+    for HH, HT, _, _, Hts, Tts, rank in datak:
+        rank1 = rank[:k_opt]
+        B = self.nnet.solve_corr(HH[rank1, :][:, rank1], HT[rank1, :])
+        Yts = np.dot(Hts[:, rank1], B)
         err_t += self._error(Tts, Yts) / k
 
     self.nnet._prune(best_L)
-- 
2.43.0


From bfcb1012d060e68ec4a0ceb881c130432bc69391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 09/59] fix: with kmax, the largest candidate network is judged
 by its own error

The error of the full network was attributed to the one with kmax neurons.
---
 hpelm/mss_cv.py  | 3 ++-
 hpelm/mss_loo.py | 3 ++-
 hpelm/mss_v.py   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index e9a9b06..cfd8b17 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -66,7 +66,8 @@ def train_cv(self, X, T, k):
         Yvl = np.dot(Hvl, B)
         err += self._error(Tvl, Yvl) / k
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # with kmax, this is an error of another (full) model
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_loo.py b/hpelm/mss_loo.py
index 14e8095..9fcf9a3 100644
--- a/hpelm/mss_loo.py
+++ b/hpelm/mss_loo.py
@@ -37,7 +37,8 @@ def train_loo(self, X, T):
     err = self._error(T, Y, R)
 
     penalty = err * 0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L * penalty
+    if L == self.nnet.L:  # with kmax, this is an error of another (full) model
+        e[L] = err + L * penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
diff --git a/hpelm/mss_v.py b/hpelm/mss_v.py
index b29c31c..d25a1ea 100644
--- a/hpelm/mss_v.py
+++ b/hpelm/mss_v.py
@@ -32,7 +32,8 @@ def train_v(self, X, T, Xv, Tv):
     err = self._error(Tv, Yv)
     # TODO: replace penalty by Akaike-BIC criterion
     penalty = err*0.01 / L  # penalty is 1% of error at max(L)
-    e[L] = err + L*penalty
+    if L == self.nnet.L:  # with kmax, this is an error of another (full) model
+        e[L] = err + L*penalty
 
     # MYOPT function
     # [iA  iB  iC  iD  iE] interval points,
-- 
2.43.0


From 2b18f67a4a22850af323c5e34abd801767d48a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 10/59] fix: HPELM weighted error is not NaN if some class has
 no samples

Same value as ELM.error() gives on the same data.
---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d8c8cd6..a2a3d20 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -363,7 +363,7 @@ class HPELM(ELM):
                         err1 = np.not_equal(Yb[idx].argmax(1), i)
                         errc[i] += err1.sum()
                         countc[i] += len(idx)
-            errc = errc / countc  # get mean value
+            errc = errc / np.maximum(countc, 1)  # get mean value, zero for absent classes
             err = np.sum(errc * self.wc) / np.sum(self.wc)
 
         elif self.classification == "ml":
-- 
2.43.0


From 7e0a9c92a1575ec0f29d4c879bcd72c07496f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 11/59] fix: validation_corr reports the weighted
 classification error of the whole set

Weighted errors of batches were averaged, which is not the error of the data
(and NaN if a batch missed a class).
---
 hpelm/hp_elm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index a2a3d20..252f23b 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -449,6 +449,12 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
+        if self.classification == "wc":  # per-class errors of all data, they do not add up over batches
+            for i in xrange(k):
+                errc = 1 - np.diag(confs[i]) / np.maximum(confs[i].sum(axis=1), 1)
+                errc[confs[i].sum(axis=1) == 0] = 0
+                errs[i] = np.sum(errc * self.wc) / np.sum(self.wc)
+
         k_opt = np.argmin(errs)
         best_L = Ls[k_opt]
         self.nnet._prune(np.arange(best_L))
-- 
2.43.0


From 3f98cd99cc797936da8bfda05437df97b6db7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 12/59] fix: validation_corr accepts a vector of steps, and
 never exceeds the number of neurons

ceil() of a rounding error in logspace() could give L+1 neurons, and a network of
less than three neurons was reported as having three.
---
 hpelm/hp_elm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 252f23b..6ef093e 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -417,9 +417,12 @@ class HPELM(ELM):
         L = self.nnet.L
         classification = self.classification is not None
 
-        Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
-        Ls = np.ceil(Ls).astype(int)
-        Ls = np.unique(Ls)  # numbers of neurons to check
+        if np.ndim(steps) > 0:  # exact numbers of neurons
+            Ls = np.array(steps)
+        else:
+            Ls = np.logspace(np.log(3), np.log(L), steps, base=np.e, endpoint=True)
+            Ls = np.minimum(np.ceil(np.round(Ls, 9)), L)
+        Ls = np.unique(Ls.astype(int))  # numbers of neurons to check
         k = Ls.shape[0]
         errs = np.zeros((k,))  # errors for these numbers of neurons
         nb = int(np.ceil(float(N) / self.batch))
-- 
2.43.0


From 25d4a5256c0b29e5ade9c3fe873faf50daa02cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 13/59] fix: classification given to the constructor works in
 any letter case

Upper case was accepted, and then silently computed regression error.
---
 hpelm/elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 734df2d..289dc9a 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -85,7 +85,7 @@ class ELM(object):
         # init other stuff
         self.classification = None  # train ELM for classification
         if classification.lower() in ("c", "wc", "ml", "mc"):  # allow 'mc'=='ml' for compatibility
-            self.classification = classification.replace("mc", "ml")
+            self.classification = classification.lower().replace("mc", "ml")
         self.wc = None  # weighted classification weights
         if w is not None:
             w = np.array(w)
-- 
2.43.0


From bf5e6b3c111496d7c5396498c8aa5899265cb118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 14/59] fix: model structure selection flags work in any letter
 case

Lower case 'v', 'cv', 'loo' passed the checks and then silently trained without selection.
---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 289dc9a..d00ead3 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -184,6 +184,7 @@ class ELM(object):
 
         # TODO: test upper case and lower case 'V', ...
         # train ELM with desired model structure selection
+        args = [a.upper() for a in args]
         if "V" in args:  # use validation set
             assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
             assert "Tv" in kwargs.keys(), "Provide validation outputs (Tv)"
-- 
2.43.0


From 709b8d34982b8447718c4e69e0511f4ef4b65aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 15/59] fix: load() keeps the solver type and always starts
 from an empty solver

Loading into a model with accelerator='basic' or 'GPU' added neurons to the existing
ones and kept old dimensions; the default solver was replaced by the basic one.
---
 hpelm/elm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index d00ead3..431917f 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -460,8 +460,7 @@ class ELM(object):
         self.wc = m["Weights_WC"]
 
         # create a new solver and load neurons / Beta into it with correct precision
-        if self.accelerator is None:
-            self.nnet = SLFN(inputs, outputs, precision=self.precision)
+        self.nnet = type(self.nnet)(inputs, outputs, precision=self.precision)
         for number, func, W, B in m["neurons"]:
             self.nnet.add_neurons(number, func, W.astype(self.precision), B.astype(self.precision))
         self.nnet.norm = m["norm"]
-- 
2.43.0


From b3fdf50d6292d0a18d0eb8ac559efa184f61d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 16/59] fix: make_hdf5 reads .txt and .csv files in current
 Python

---
 hpelm/modules/hdf5_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63152e..6258ee0 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -184,7 +184,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
         # check data dimensionality
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
@@ -211,7 +211,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
         h5data = h5.create_earray(h5.root, "data", a, (0, X.shape[0]), filters=flt)
-        with open(data, "rU") as f:
+        with open(data, "r") as f:
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-- 
2.43.0


From 1a2ed9312bf0326500ae93c6ff03840c8b62e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 17/59] fix: make_hdf5 keeps one-row compressed text files as
 one row

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 6258ee0..dfb06f8 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -179,7 +179,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     elif isinstance(data, string_types) and data[-3:] in ['npy']:
         X = np.load(data)
     elif isinstance(data, string_types) and data[-3:] in ['.gz', 'bz2']:
-        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows)
+        X = np.loadtxt(data, dtype=dtype, delimiter=delimiter, skiprows=skiprows, ndmin=2)
     elif isinstance(data, string_types) and data[-3:] in ['txt', 'csv']:
         # iterative out-of-memory loader for huge .csv/.txt files
         fill = "iter"
-- 
2.43.0


From f86d6f53a66c57dec9eda0c9acd67011f19a6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 18/59] fix: rbf_param works with current Numpy

---
 hpelm/modules/rbf_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 2124194..c4148d3 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -39,7 +39,7 @@ def rbf_param(data, k, kind="sqeuclidean"):
         j = ix[i]
         if i == j:
             j += 1
-        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)
+        dist[i] = cdist(X[i][None, :], X[j][None, :], kind)[0, 0]
     m = dist.mean()
     s = dist.std()
 
-- 
2.43.0


From 3186d9cf01ddb1d6506908611e1b8ebf973c0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 19/59] fix: train() keeps the classification type and weights
 given to the constructor

They were silently reset to regression, unless repeated in train().
---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 431917f..88598a9 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -91,6 +91,7 @@ class ELM(object):
             w = np.array(w)
             assert len(w) == outputs, "Number of class weights must be equal to the number of classes"
             self.wc = w
+        self._init_classification = (self.classification, self.wc)  # used if train() has no such arguments
         self.opened_hdf5 = []  # list of opened HDF5 files, they are closed in ELM descructor
         self.ranking = None
         self.kmax_op = None
@@ -114,8 +115,7 @@ class ELM(object):
         self.nnet.reset()  # remove previous training
         self.ranking = None
         self.kmax_op = None
-        self.classification = None  # c / wc / ml
-        self.wc = None  # weigths for weighted classification
+        self.classification, self.wc = self._init_classification
 
         # check exclusive parameters
         assert len(set(args).intersection({"V", "CV", "LOO"})) <= 1, "Use only one of V / CV / LOO"
-- 
2.43.0


From bc2525b22edec17f25f11e2f78b804fec3d5e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 20/59] fix: normalize_hdf5 applies the normalization it has
 computed

It only returned the parameters; a second call failed on a closed file; rounding
could give NaN for constant columns; given vectors were modified in place.
---
 hpelm/modules/hdf5_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index dfb06f8..9e25028 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -128,16 +128,16 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
                 E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
             mean = E_x
             E2_x = E_x**2
-            std = (E_x2 - E2_x)**0.5
+            std = np.maximum(E_x2 - E2_x, 0)**0.5
+            std[std == 0] = 1  # prevent division by zero for std=0
             node.attrs.mean = mean
             node.attrs.std = std
-            h5.close()
-            return mean, std
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
+            mean, std = node.attrs.mean, node.attrs.std
             h5.close()
-            return node.attrs.mean, node.attrs.std
+            return mean, std
     else:
         msg1 = "Incorrect lenght of a vector of means: %d expected, %d found" % (d, len(mean))
         assert len(mean) == d, msg1
@@ -145,7 +145,7 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
         assert len(std) == d, msg2
         node.attrs.mean = mean
         node.attrs.std = std
-    std[std == 0] = 1  # prevent division by zero for std=0
+    std = np.where(np.equal(std, 0), 1, std)  # prevent division by zero for std=0
 
     print("applying normalization")
     for b in range(nb):
-- 
2.43.0


From f27a23055e94de73b8a7d4ef158f151ed8b3eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 21/59] fix: parallel creation of HH, HT files does not lose
 data

Files were checked and created without a lock: a process could overwrite files
where another process had already put its results, or fail on a file in use.
---
 hpelm/modules/hdf5_tools.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 9e25028..28161a4 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -18,6 +18,14 @@ import fasteners  # inter-process file lock
 
 
 def _prepare_fHH(fHH, fHT, nnet, precision):
+    """Prepares files for fHH, fHT if they are needed, multi-process safe with the same locks as _write_fHH().
+    """
+    if (fHH is not None) and (fHT is not None):
+        with fasteners.InterProcessLock(fHH + ".lock"), fasteners.InterProcessLock(fHT + ".lock"):
+            _prepare_files(fHH, fHT, nnet, precision)
+
+
+def _prepare_files(fHH, fHT, nnet, precision):
     """Prepares files for fHH, fHT if they are needed.
 
     Args:
-- 
2.43.0


From 179535f44f5ee6669e32e2437e3ea123b705e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 22/59] fix: writing HH to a file does not remove normalization
 from the model in memory

---
 hpelm/hp_elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 6ef093e..806fcea 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -166,7 +166,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
-            HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
+            HH = HH - self.nnet.norm * np.eye(HH.shape[0], dtype=HH.dtype)  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
     def solve_corr(self, fHH, fHT):
@@ -562,7 +562,7 @@ class HPELM(ELM):
         # if storing output to disk
         if fHH is not None and fHT is not None:
             HH, HT = self.nnet.get_corr()
-            HH[np.diag_indices_from(HH)] -= self.nnet.norm  # norm is already included
+            HH = HH - self.nnet.norm * np.eye(HH.shape[0], dtype=HH.dtype)  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
-- 
2.43.0


From 59364dbbf24a4c47fe53b699a8445fe2896b8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 23/59] fix: predict_async refuses data that is not in HDF5
 files instead of waiting forever

---
 hpelm/hp_elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 806fcea..3b6b000 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -572,6 +572,7 @@ class HPELM(ELM):
         """
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM and train it before using"
         assert self.nnet.B is not None, "Train ELM before predicting"
+        assert isinstance(fX, string_types), "Asyncronous I/O only supported with HDF5 data files"
         X, _ = self._checkdata(fX, None)
         N = X.shape[0]
         # custom range adjustments
-- 
2.43.0


From 69470b8daeccb0ffea1880730d1ca7e161d50e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 24/59] fix: add_data_async refuses data that is not in HDF5
 files

It failed on, or closed, unrelated open files, and then waited forever.
---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 3b6b000..4bad9b5 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -494,6 +494,8 @@ class HPELM(ELM):
         """
         # initialize
         assert len(self.nnet.neurons) > 0, "Add neurons to ELM before using it"
+        for fname in (fX, fT):
+            assert isinstance(fname, string_types), "Asyncronous I/O only supported with HDF5 data files"
         X, T = self._checkdata(fX, fT)
         N = X.shape[0]
         # TODO: adapt for GPU solver
-- 
2.43.0


From 6f3d140f4519e0d1fb1fa3c2e5ccf16c08430a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 25/59] fix: data files are closed when an operation with them
 is done

They stayed open until a model was deleted, so a file could not be written again
after it was read: predict(), error(), predict() to the same file failed.
---
 hpelm/elm.py    | 20 ++++++++++++++++++++
 hpelm/hp_elm.py | 11 ++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 88598a9..8de3950 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -6,6 +6,7 @@ Created on Mon Oct 27 17:48:33 2014
 """
 
 import numpy as np
+from functools import wraps
 from six.moves import cPickle, xrange
 from six import integer_types, string_types
 from tables import open_file
@@ -17,6 +18,20 @@ from .mss_cv import train_cv
 from .mss_loo import train_loo
 
 
+def closes_hdf5(method):
+    """Decorator that closes HDF5 files opened by a method when the method is done.
+    """
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        n = len(self.opened_hdf5)
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            while len(self.opened_hdf5) > n:
+                self.opened_hdf5.pop().close()
+    return wrapper
+
+
 class ELM(object):
     """Interface for training Extreme Learning Machines (ELM).
 
@@ -147,6 +162,7 @@ class ELM(object):
         if "batch" in kwargs.keys():
             self.batch = int(kwargs["batch"])
 
+    @closes_hdf5
     def train(self, X, T, *args, **kwargs):
         """Universal training interface for ELM model with model structure selection.
 
@@ -287,6 +303,7 @@ class ELM(object):
         # add prepared neurons to the model
         self.nnet.add_neurons(number, func, W, B)
 
+    @closes_hdf5
     def error(self, T, Y):
         """Calculate error of model predictions.
 
@@ -314,6 +331,7 @@ class ELM(object):
         _, Y = self._checkdata(None, Y)
         return self._error(T, Y)
 
+    @closes_hdf5
     def confusion(self, T, Y):
         """Computes confusion matrix for classification.
 
@@ -357,6 +375,7 @@ class ELM(object):
                         conf[c1, c1h] += np.sum(Tb[:, c1] * Yb[:, c1h])
         return conf
 
+    @closes_hdf5
     def project(self, X):
         """Get ELM's hidden layer representation of input data.
 
@@ -370,6 +389,7 @@ class ELM(object):
         H = self.nnet._project(X)
         return H
 
+    @closes_hdf5
     def predict(self, X):
         """Predict outputs Y for the given input data X.
 
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 4bad9b5..66000f7 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -12,7 +12,7 @@ from six import string_types
 from time import time
 from .modules import make_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
 from tables import open_file
-from .elm import ELM
+from .elm import ELM, closes_hdf5
 
 
 class HPELM(ELM):
@@ -54,6 +54,7 @@ class HPELM(ELM):
         A 2-dimensional Numpy.ndarray can also be used.
     """
 
+    @closes_hdf5
     def train(self, fX, fT, *args, **kwargs):
         """Universal training interface for HP-ELM model.
 
@@ -93,6 +94,7 @@ class HPELM(ELM):
         self.add_data(X, T, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @closes_hdf5
     def add_data(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Feed new training data (X,T) to HP-ELM model in batches: does not solve ELM itself.
 
@@ -180,6 +182,7 @@ class HPELM(ELM):
         B = self.nnet.solve_corr(HH, HT)
         self.nnet.set_B(B)
 
+    @closes_hdf5
     def predict(self, fX, fY=None, istart=0, icount=np.inf):
         """Iterative predict outputs and save them to HDF5, can use custom range.
 
@@ -238,6 +241,7 @@ class HPELM(ELM):
         elif fY is None:
             return Y
 
+    @closes_hdf5
     def project(self, fX, fH=None, istart=0, icount=np.inf):
         """Iteratively project input data from HDF5 into HPELM hidden layer, and save in another HDF5.
 
@@ -296,6 +300,7 @@ class HPELM(ELM):
         elif fH is None:
             return H
 
+    @closes_hdf5
     def error(self, fT, fY, istart=0, icount=np.inf):
         """Calculate error of model predictions of HPELM.
 
@@ -388,6 +393,7 @@ class HPELM(ELM):
 
         return err
 
+    @closes_hdf5
     def validation_corr(self, fHH, fHT, fXv, fTv, steps=10):
         """Quick batch error evaluation with different numbers of neurons on a validation set.
 
@@ -470,6 +476,7 @@ class HPELM(ELM):
 
     # async-IO versions of methods
 
+    @closes_hdf5
     def train_async(self, fX, fT, *args, **kwargs):
         """Training HPELM with asyncronous I/O, good for network drives, etc. See `train()` for reference.
 
@@ -487,6 +494,7 @@ class HPELM(ELM):
         self.add_data_async(fX, fT, istart=istart, icount=icount)
         self.nnet.solve()
 
+    @closes_hdf5
     def add_data_async(self, fX, fT, istart=0, icount=np.inf, fHH=None, fHT=None):
         """Version of `add_data()` with asyncronous I/O. See `add_data()` for reference.
 
@@ -567,6 +575,7 @@ class HPELM(ELM):
             HH = HH - self.nnet.norm * np.eye(HH.shape[0], dtype=HH.dtype)  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
+    @closes_hdf5
     def predict_async(self, fX, fY, istart=0, icount=np.inf):
         """Version of `predict()` with asyncronous I/O. See `predict()` for reference.
 
-- 
2.43.0


From fc268bb733af30319e60cc480ad4ef236bc5f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 26/59] fix: predict_async creates its output file in the
 precision of the model, same as predict

---
 hpelm/hp_elm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 66000f7..1eb1d7f 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -590,7 +590,7 @@ class HPELM(ELM):
         icount = min(icount, N - istart)
         nb = int(np.ceil(float(icount) / self.batch))  # number of batches
         # make file to store results
-        make_hdf5((icount, self.nnet.outputs), fY)
+        make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
 
         # start async reader and writer for HDF5 files
         qr_in = mp.Queue()
-- 
2.43.0


From 0801901de2aa373a0b878fe329263ab72d0a293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 27/59] fix: make_hdf5 stores a reversed view of a single
 column correctly

---
 hpelm/modules/hdf5_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 28161a4..5a0283f 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -230,7 +230,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
     else:  # write whole data matrix
         h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
-        h5data[:] = X
+        h5data[:] = np.ascontiguousarray(X)  # PyTables misreads a reversed view of one column
     # close the file
     h5data.attrs.mean = None
     h5data.attrs.std = None
-- 
2.43.0


From 41f179281073002bd9d56222c7994fc4383cacb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 28/59] fix: basic solver does not amplify rounding noise of
 singular HH

---
 hpelm/nnets/slfn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hpelm/nnets/slfn.py b/hpelm/nnets/slfn.py
index 830eebe..2920019 100644
--- a/hpelm/nnets/slfn.py
+++ b/hpelm/nnets/slfn.py
@@ -177,8 +177,7 @@ class SLFN(object):
             HH (matrix): covariance matrix of hidden layer represenation H, size (`L` * `L`)
             HT (matrix): correlation matrix between H and outputs T, size (`L` * `outputs`)
         """
-        HH_pinv = np.linalg.pinv(HH)
-        B = np.dot(HH_pinv, HT)
+        B = np.linalg.lstsq(HH, HT, rcond=None)[0]  # explicit inverse of a singular HH amplifies rounding noise
         return B
 
     def _prune(self, idx):
-- 
2.43.0


From 4235125192f60a7f8604db6eb607898d13234942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 29/59] fix: a process killed while creating HH, HT files does
 not leave unreadable files behind

---
 hpelm/modules/hdf5_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 5a0283f..601c51e 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -57,7 +57,8 @@ def _prepare_files(fHH, fHT, nnet, precision):
             finally:
                 h5.close()
         else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH, precision)
+            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH + ".new", precision)
+            os.rename(fHH + ".new", fHH)  # never leave an incomplete file if interrupted
 
         # process fHT
         if os.path.isfile(fHT):
@@ -74,7 +75,8 @@ def _prepare_files(fHH, fHT, nnet, precision):
             finally:
                 h5.close()
         else:
-            make_hdf5((L, outputs), fHT, precision)
+            make_hdf5((L, outputs), fHT + ".new", precision)
+            os.rename(fHT + ".new", fHT)
 
 
 def _write_fHH(fHH, fHT, HH, HT):
-- 
2.43.0


From 923133639914ae72d283516a313ed39b4a5ab9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 30/59] fix: a loaded model is trained further in the mode
 given to its constructor, same as the saved one

---
 hpelm/elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 8de3950..7689da1 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -442,6 +442,7 @@ class ELM(object):
             "outputs": self.nnet.outputs,
             "Classification": self.classification,
             "Weights_WC": self.wc,
+            "Init_classification": self._init_classification,
             "neurons": self.nnet.get_neurons(),
             "norm": self.nnet.norm,  # W and bias are here
             "Beta": self.nnet.get_B()
@@ -478,6 +479,7 @@ class ELM(object):
         outputs = m["outputs"]
         self.classification = m["Classification"]
         self.wc = m["Weights_WC"]
+        self._init_classification = m.get("Init_classification", self._init_classification)
 
         # create a new solver and load neurons / Beta into it with correct precision
         self.nnet = type(self.nnet)(inputs, outputs, precision=self.precision)
-- 
2.43.0


From cb3e80990da4f1c01aa7cbc26c720fcfeef5440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 31/59] fix: mrsr2 ranks all requested inputs even with less
 samples than inputs

---
 hpelm/modules/mrsr2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 067cec5..956876b 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -47,7 +47,7 @@ def mrsr2(X, T, kmax, norm=2):
     Yk1 = np.zeros(T.shape)
     Wk1 = np.zeros((1, outs))
     j_current = None  # currently added input dimension
-    kmax = min(kmax, X.shape[0])    
+    kmax = min(kmax, ins)
     
     # get ranking
     for _ in xrange(kmax):
@@ -122,6 +122,8 @@ def mrsr2(X, T, kmax, norm=2):
         XtT = XT[rank,:]
         LU, piv = lu_factor(XtX)#, overwrite_a=True)
         Wk1 = lu_solve((LU, piv), XtT)#, overwrite_b=True)
+        if not np.isfinite(Wk1).all():  # linearly dependent inputs
+            Wk1 = np.linalg.lstsq(XtX, XtT, rcond=None)[0]
         X1 = XA[:,:len(rank)]  # replace fancy indexing with simple one
         Yk1 = np.dot(X1, Wk1)  
 
-- 
2.43.0


From f2a9f3b49968820b1296118fad7b90396937a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 32/59] fix: mrsr2 uses the requested norm for all correlations

---
 hpelm/modules/mrsr2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 956876b..118f6d4 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -85,7 +85,7 @@ def mrsr2(X, T, kmax, norm=2):
             #c_max = np.linalg.norm(np.dot(T2, X[:, j_current]), norm)
             
             #fun = lambda y,x_new: (1-y)*c_max - np.linalg.norm(T2.dot(x_new) - y*Yk2.dot(x_new))
-            fun_p = lambda y,p1,p2: (1-y)*c_max - np.linalg.norm(p1 - y*p2)  # super fast parametrized function
+            fun_p = lambda y,p1,p2: (1-y)*c_max - np.linalg.norm(p1 - y*p2, norm)  # super fast parametrized function
     
             # find optimal step (minimum over possible additional inputs) 
             y_min = 1  # upper interval
@@ -94,7 +94,7 @@ def mrsr2(X, T, kmax, norm=2):
                 # pre-calculate constant parts of the optimization function for the given x_new
                 p1 = T2.dot(x_new)
                 p2 = Yk2.dot(x_new)
-                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2):  # skip optimization if min(fun) > y_min
+                if (1-y_min)*c_max < np.linalg.norm(p1 - y_min*p2, norm):  # skip optimization if min(fun) > y_min
                     try:
                         zero = 1E-15  # finding a value greater than zero
                         y_kj = optimize.brentq(fun_p, zero, y_min, xtol=1E-6, args=(p1,p2))
-- 
2.43.0


From d1ba5218c1ba2c9e9fb3ee61a5b9cd291a12932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:07 +0000
Subject: [PATCH 33/59] fix: mrsr2 moves along the solution of active inputs,
 to keep them equally correlated

The step was computed for the least-squares fit of active inputs, but done
towards the fit that includes the next input already; so rankings were wrong
starting from the third input.
---
 hpelm/modules/mrsr2.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index 118f6d4..a514eb1 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -110,6 +110,11 @@ def mrsr2(X, T, kmax, norm=2):
                 j_min = j_new
             j_current = j_min
 
+            # perform variable length step towards the solution of current inputs
+            Y = (1-y_min)*Y + y_min*Yk1
+            W = (1-y_min)*W
+            W[rank] += y_min*Wk1
+
             # add new input into model
             rank.append(j_current)
             nonrank.remove(j_current)
@@ -127,12 +132,6 @@ def mrsr2(X, T, kmax, norm=2):
         X1 = XA[:,:len(rank)]  # replace fancy indexing with simple one
         Yk1 = np.dot(X1, Wk1)  
 
-        if len(rank) > 1:
-            # perform variable length step
-            Y = (1-y_min)*Y + y_min*Yk1
-            W = (1-y_min)*W     
-            W[rank] += y_min*Wk1   
-               
     # done, return ranking
     return rank
 
-- 
2.43.0


From dee34d846e7f75481118ca208ca69d5ef8685f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 34/59] fix: normalize_hdf5 computes mean and deviation without
 cancellation

Constant columns got a tiny non-zero deviation from rounding, and columns with a large mean lost precision.
---
 hpelm/modules/hdf5_tools.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 601c51e..37c3ce4 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -128,17 +128,21 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
     if mean is None or std is None:
         if node.attrs.mean is None:  # data was not normalized before
             print("calculating mean and standard deviation of data")
+            x0 = node[0].astype(np.float64)  # shift of data, keeps precision and makes constant columns exact zeros
             E_x = np.zeros((d,), dtype=np.float64)
-            E_x2 = np.zeros((d,), dtype=np.float64)
             for b in range(nb):
                 start = b*batch
                 step = min(batch, N-start)
-                X1 = node[start: start+step, :].astype(np.float64)
+                X1 = node[start: start+step, :].astype(np.float64) - x0
                 E_x += np.mean(X1, 0) * (1.0*step/N)
-                E_x2 += np.mean(X1**2, 0) * (1.0*step/N)
-            mean = E_x
-            E2_x = E_x**2
-            std = np.maximum(E_x2 - E2_x, 0)**0.5
+            mean = x0 + E_x
+            var = np.zeros((d,), dtype=np.float64)
+            for b in range(nb):
+                start = b*batch
+                step = min(batch, N-start)
+                X1 = node[start: start+step, :].astype(np.float64) - x0
+                var += np.mean((X1 - E_x)**2, 0) * (1.0*step/N)
+            std = var**0.5
             std[std == 0] = 1  # prevent division by zero for std=0
             node.attrs.mean = mean
             node.attrs.std = std
-- 
2.43.0


From 6f2299664f407113f4923a46af581d9a7012f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 35/59] fix: ELM.add_data checks its data

Data of a wrong shape was added partly (or broadcast over outputs), and one-dimensional data was not accepted.
---
 hpelm/elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 7689da1..e71dd66 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -234,6 +234,7 @@ class ELM(object):
             X (matrix): input training data
             T (matrix): output training data
         """
+        X, T = self._checkdata(X, T)
         # initialize batch size
         nb = int(np.ceil(float(X.shape[0]) / self.batch))
         wc_vector = None
-- 
2.43.0


From 910f1208e71d571407da291b3bca2c11c220f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 36/59] fix: unsuitable validation data is refused before the
 model is changed

---
 hpelm/elm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index e71dd66..578509d 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -196,17 +196,16 @@ class ELM(object):
                 split of data during the cross-validation procedure
         """
         X, T = self._checkdata(X, T)
+        if "V" in [a.upper() for a in args]:  # check all data before changing the model
+            assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
+            assert "Tv" in kwargs.keys(), "Provide validation outputs (Tv)"
+            Xv, Tv = self._checkdata(kwargs['Xv'], kwargs['Tv'])
         self._train_parse_args(args, kwargs)
 
         # TODO: test upper case and lower case 'V', ...
         # train ELM with desired model structure selection
         args = [a.upper() for a in args]
         if "V" in args:  # use validation set
-            assert "Xv" in kwargs.keys(), "Provide validation dataset (Xv)"
-            assert "Tv" in kwargs.keys(), "Provide validation outputs (Tv)"
-            Xv = kwargs['Xv']
-            Tv = kwargs['Tv']
-            Xv, Tv = self._checkdata(Xv, Tv)
             train_v(self, X, T, Xv, Tv)
         elif "CV" in args:  # use cross-validation
             assert "k" in kwargs.keys(), "Provide Cross-Validation number of splits (k)"
-- 
2.43.0


From dbf1c72c0d1fa9bbc4558d2e1644fa97ac9c4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 37/59] fix: unsuitable HH/HT files are refused before anything
 is changed

Accumulated data of the model was lost, and a missing HH file created although HT was refused.
---
 hpelm/modules/hdf5_tools.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 37c3ce4..92c95f7 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -35,8 +35,6 @@ def _prepare_files(fHH, fHT, nnet, precision):
         precision (np.float32/64): precision
     """
     if (fHH is not None) and (fHT is not None):
-        # reset accumulated data in ELM
-        nnet.reset()
         L = nnet.L
         outputs = nnet.outputs
         norm = nnet.norm
@@ -56,9 +54,6 @@ def _prepare_files(fHH, fHT, nnet, precision):
                 raise  # re-raise same error
             finally:
                 h5.close()
-        else:
-            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH + ".new", precision)
-            os.rename(fHH + ".new", fHH)  # never leave an incomplete file if interrupted
 
         # process fHT
         if os.path.isfile(fHT):
@@ -74,10 +69,18 @@ def _prepare_files(fHH, fHT, nnet, precision):
                 raise  # re-raise same error
             finally:
                 h5.close()
-        else:
+
+        # both files are suitable: create missing ones, never leave an incomplete file if interrupted
+        if not os.path.isfile(fHH):
+            make_hdf5(np.eye(L, L, dtype=precision)*norm, fHH + ".new", precision)
+            os.rename(fHH + ".new", fHH)
+        if not os.path.isfile(fHT):
             make_hdf5((L, outputs), fHT + ".new", precision)
             os.rename(fHT + ".new", fHT)
 
+        # reset accumulated data in ELM
+        nnet.reset()
+
 
 def _write_fHH(fHH, fHT, HH, HT):
     """Writes HH,HT data into fHH,fHT files, multi-process safe with lock file.
-- 
2.43.0


From 5eaf166f35c67f4d10bb265c91ac7e20758fad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 38/59] fix: empty HH/HT files do not stay open

---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 1eb1d7f..0864a7f 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -644,6 +644,7 @@ class HPELM(ELM):
         if node:
             HH = node[:]
         else:
+            h5.close()
             raise IOError("Empty HDF5 file at %s" % fHH)
         h5.close()
 
@@ -657,6 +658,7 @@ class HPELM(ELM):
         if node:
             HT = node[:]
         else:
+            h5.close()
             raise IOError("Empty HDF5 file at %s" % fHT)
         h5.close()
 
-- 
2.43.0


From a7aff0743edcb0c5727cf768feb7f81b97bf783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 39/59] fix: non-numeric HDF5 data is refused before the model
 or output files are changed

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 578509d..fa56c44 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -580,9 +580,9 @@ class ELM(object):
                     raise IOError("Empty HDF5 file at %s" % X)
             else:
                 # assert isinstance(X, np.ndarray) and
-                assert X.dtype.kind not in "OSU", "X must be a numerical numpy array"
                 if len(X.shape) == 1:
                     X = X.reshape(-1, 1)
+            assert X.dtype.kind not in "OSU", "X must be a numerical numpy array"
             assert len(X.shape) == 2, "X must have 2 dimensions"
             assert X.shape[1] == self.nnet.inputs, "X has wrong dimensionality: expected %d, found %d" % \
                                                    (self.nnet.inputs, X.shape[1])
@@ -603,9 +603,9 @@ class ELM(object):
                     raise IOError("Empty HDF5 file at %s" % X)
             else:
                 # assert isinstance(T, np.ndarray) and
-                assert T.dtype.kind not in "OSU", "T must be a numerical numpy array"
                 if len(T.shape) == 1:
                     T = T.reshape(-1, 1)
+            assert T.dtype.kind not in "OSU", "T must be a numerical numpy array"
             assert len(T.shape) == 2, "T must have 2 dimensions"
 
             assert T.shape[1] == self.nnet.outputs, "T has wrong dimensionality: expected %d, found %d" % \
-- 
2.43.0


From 75c924b7d1ab9af42e99ed044d5a4b9d39875ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 40/59] fix: make_hdf5 refuses unsuitable data before touching
 the output file

The existing output was lost, and left open.
---
 hpelm/modules/hdf5_tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 92c95f7..e63f67f 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -205,9 +205,10 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
             for _ in range(skiprows):
                 f.readline()
             reader = csv.reader(f, delimiter=delimiter)
-            for line in reader:
-                X = np.fromiter(line, dtype=dtype)
-                break
+            for line in reader:  # read everything before the output file is touched
+                row = np.fromiter(line, dtype=dtype)
+                X = row if X is None else X
+                assert row.shape == X.shape, "All rows of a text file must have the same number of values"
     elif isinstance(data, tuple) and len(data) == 2:
         X = np.empty((1, 1))
         fill = "empty"
@@ -218,6 +219,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
     if len(X.shape) == 1:
         X = X[:, np.newaxis]
     assert len(X.shape) == 2, "Data in Numpy ndarray must have 2 dimensions"
+    X = np.ascontiguousarray(X, dtype=dtype)  # unsuitable data fails here; PyTables misreads a reversed view of one column
     # create hdf5 file
     if comp_level > 0:
         flt = Filters(complevel=comp_level, shuffle=True)
@@ -239,7 +241,7 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         h5data = h5.create_carray(h5.root, "data", a, data, filters=flt)
     else:  # write whole data matrix
         h5data = h5.create_carray(h5.root, "data", a, X.shape, filters=flt)
-        h5data[:] = np.ascontiguousarray(X)  # PyTables misreads a reversed view of one column
+        h5data[:] = X
     # close the file
     h5data.attrs.mean = None
     h5data.attrs.std = None
-- 
2.43.0


From 599178f0cb7d49591734baaf03ad75840c42e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 41/59] fix: normalize_hdf5 does not create missing files and
 always closes the file

---
 hpelm/modules/hdf5_tools.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index e63f67f..a8c4690 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -116,7 +116,16 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
     :param batch: - number of rows to read at once, default is a native batch size
     """
 
-    h5 = open_file(h5file, "a")
+    h5 = open_file(h5file, "r+")  # does not create a missing file
+    try:
+        return _normalize(h5, mean, std, batch)
+    finally:
+        h5.close()
+
+
+def _normalize(h5, mean, std, batch):
+    """Calculates and applies normalization to data in an open HDF5 file.
+    """
     node = None
     for node in h5.walk_nodes():
         pass  # find a node with whatever name
-- 
2.43.0


From 6da079cdd1bc48cacddcd69d3e44734f8be6f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 42/59] fix: rbf_param reads HDF5 files with any array name

---
 hpelm/modules/rbf_param.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index c4148d3..043d3bd 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -26,7 +26,8 @@ def rbf_param(data, k, kind="sqeuclidean"):
         kind = "sqeuclidean"
     if isinstance(data, string_types):
         h5 = open_file(data, "r")
-        X = h5.root.data
+        for X in h5.walk_nodes():
+            pass  # find a node with whatever name
     else:
         X = np.array(data)
         assert len(X.shape) == 2, "Data must be a 2-dim matrix"
-- 
2.43.0


From 1b5d5016ecf2394ae884571432439cf582e2255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 43/59] fix: unsuitable HH/HT files never stay open

---
 hpelm/hp_elm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 0864a7f..d92b27b 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -171,6 +171,7 @@ class HPELM(ELM):
             HH = HH - self.nnet.norm * np.eye(HH.shape[0], dtype=HH.dtype)  # norm is already included
             _write_fHH(fHH, fHT, HH, HT)
 
+    @closes_hdf5
     def solve_corr(self, fHH, fHT):
         """Solves an ELM model with the given (covariance) fHH and (correlation) fHT HDF5 files.
 
@@ -638,13 +639,13 @@ class HPELM(ELM):
             h5 = open_file(fHH, "r")
         except:
             raise IOError("Cannot read HDF5 file at %s" % fHH)
+        self.opened_hdf5.append(h5)
         node = None
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
         if node:
             HH = node[:]
         else:
-            h5.close()
             raise IOError("Empty HDF5 file at %s" % fHH)
         h5.close()
 
@@ -652,13 +653,13 @@ class HPELM(ELM):
             h5 = open_file(fHT, "r")
         except:
             raise IOError("Cannot read HDF5 file at %s" % fHT)
+        self.opened_hdf5.append(h5)
         node = None
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
         if node:
             HT = node[:]
         else:
-            h5.close()
             raise IOError("Empty HDF5 file at %s" % fHT)
         h5.close()
 
-- 
2.43.0


From c60cadeeb0e3c922ccbe13f1d84625bd24de88b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 44/59] fix: GPU solver keeps C order and precision of device
 arrays, supports custom neurons

---
 hpelm/nnets/slfn_skcuda.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/hpelm/nnets/slfn_skcuda.py b/hpelm/nnets/slfn_skcuda.py
index 8f8e267..a371c98 100644
--- a/hpelm/nnets/slfn_skcuda.py
+++ b/hpelm/nnets/slfn_skcuda.py
@@ -107,7 +107,7 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "cityblock")**2 / B))
+        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "cityblock")**2 / B).astype(self.precision, order="C"))
         return devH
 
     def _dev_rbfl2(self, devX, devW, devB):
@@ -115,7 +115,7 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "euclidean")**2 / B))
+        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "euclidean")**2 / B).astype(self.precision, order="C"))
         return devH
 
     def _dev_rbflinf(self, devX, devW, devB):
@@ -123,7 +123,7 @@ class SLFNSkCUDA(SLFN):
         X = devX.get()
         W = devW.get()
         B = devB.get()
-        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "chebyshev")**2 / B))
+        devH = gpuarray.to_gpu(np.exp(-cdist(X, W.T, "chebyshev")**2 / B).astype(self.precision, order="C"))
         return devH
 
     def add_neurons(self, number, func, W, B):
@@ -141,18 +141,21 @@ class SLFNSkCUDA(SLFN):
             B (vector): a 1-D vector of neuron biases, size (`number` * 1)
         """
         ntypes = [nr[1] for nr in self.neurons]  # existing types of neurons
+        if func not in self.func:  # custom <numpy.ufunc> neurons
+            self.func[func] = lambda devX, devW, devB: gpuarray.to_gpu(
+                np.array(func(np.dot(devX.get(), devW.get()) + devB.get()), order="C", dtype=self.precision))
         if func in ntypes:
             # add to an existing neuron type
             i = ntypes.index(func)
             nn0, _, devW, devB = self.neurons[i]
             number = nn0 + number
-            devW = gpuarray.to_gpu(np.hstack((devW.get(), W)))
+            devW = gpuarray.to_gpu(np.ascontiguousarray(np.hstack((devW.get(), W))))
             devB = gpuarray.to_gpu(np.hstack((devB.get(), B)))
             self.neurons[i] = (number, func, devW, devB)
         else:
             # create a new neuron type
-            devW = gpuarray.to_gpu(W)
-            devB = gpuarray.to_gpu(B)
+            devW = gpuarray.to_gpu(np.ascontiguousarray(W))
+            devB = gpuarray.to_gpu(np.ascontiguousarray(B))
             self.neurons.append((number, func, devW, devB))
         self.reset()
         self.B = None
@@ -306,7 +309,7 @@ class SLFNSkCUDA(SLFN):
         """
         assert B.shape[0] == self.L, "Incorrect first dimension: %d expected, %d found" % (self.L, B.shape[0])
         assert B.shape[1] == self.outputs, "Incorrect output dimension: %d expected, %d found" % (self.outputs, B.shape[1])
-        self.B = gpuarray.to_gpu(B.astype(self.precision))
+        self.B = gpuarray.to_gpu(B.astype(self.precision, order="C"))
 
     def get_corr(self):
         """Return current correlation matrices.
@@ -333,8 +336,8 @@ class SLFNSkCUDA(SLFN):
         assert HH.shape[0] == self.L, msg
         assert HH.shape[0] == HT.shape[0], "HH and HT must have the same number of rows (%d)" % self.L
         assert HT.shape[1] == self.outputs, "Number of columns in HT must equal number of outputs (%d)" % self.outputs
-        self.HH = gpuarray.to_gpu(HH.astype(self.precision))
-        self.HT = gpuarray.to_gpu(HT.astype(self.precision))
+        self.HH = gpuarray.to_gpu(HH.astype(self.precision, order="C"))
+        self.HT = gpuarray.to_gpu(HT.astype(self.precision, order="C"))
 
     def get_neurons(self):
         """Return current neurons.
-- 
2.43.0


From bd940c4331287e8f93d9bc006fb7171947565d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 45/59] fix: get_corr() of an untrained default solver returns
 None like other solvers

---
 hpelm/nnets/slfn_python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/nnets/slfn_python.py b/hpelm/nnets/slfn_python.py
index 2e3264e..23c4483 100644
--- a/hpelm/nnets/slfn_python.py
+++ b/hpelm/nnets/slfn_python.py
@@ -69,5 +69,7 @@ class SLFNPython(SLFN):
     def get_corr(self):
         """Return current correlation matrices.
         """
+        if self.HH is None:
+            return None, None
         HH = np.triu(self.HH) + np.triu(self.HH, k=1).T
         return HH, self.HT
-- 
2.43.0


From f7d3db99d4cc258afea5fe687a13efe683f03f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 46/59] fix: class weights of a train() call apply also if 'wc'
 comes from the initialization

---
 hpelm/elm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index fa56c44..3d32ea8 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -159,6 +159,10 @@ class ELM(object):
             if a == "R":
                 self.classification = None  # reset to regression
 
+        if self.classification == "wc" and "WC" not in args and "w" in kwargs.keys():  # 'wc' from the initialization
+            self.wc = np.array(kwargs["w"])
+            assert len(self.wc) == self.nnet.outputs, "Number of class weights must be equal to the number of classes"
+
         if "batch" in kwargs.keys():
             self.batch = int(kwargs["batch"])
 
-- 
2.43.0


From 64952e5faa52d79f5dddb3bc159b892fd3c5ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 47/59] fix: class weights of a small type do not lose the
 precision of the model

---
 hpelm/elm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 3d32ea8..d087c41 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -103,7 +103,7 @@ class ELM(object):
             self.classification = classification.lower().replace("mc", "ml")
         self.wc = None  # weighted classification weights
         if w is not None:
-            w = np.array(w)
+            w = np.array(w, dtype=np.float64)  # weights are not computed in the low precision of some types
             assert len(w) == outputs, "Number of class weights must be equal to the number of classes"
             self.wc = w
         self._init_classification = (self.classification, self.wc)  # used if train() has no such arguments
@@ -150,7 +150,7 @@ class ELM(object):
                 assert self.nnet.outputs > 1, "Classification outputs must have 1 output per class"
                 self.classification = "wc"
                 if 'w' in kwargs.keys():
-                    w = np.array(kwargs['w'])
+                    w = np.array(kwargs['w'], dtype=np.float64)
                     assert len(w) == self.nnet.outputs, "Number of class weights must be equal to the number of classes"
                     self.wc = w
             if a == "ML" or a == "MC":
@@ -160,7 +160,7 @@ class ELM(object):
                 self.classification = None  # reset to regression
 
         if self.classification == "wc" and "WC" not in args and "w" in kwargs.keys():  # 'wc' from the initialization
-            self.wc = np.array(kwargs["w"])
+            self.wc = np.array(kwargs["w"], dtype=np.float64)
             assert len(self.wc) == self.nnet.outputs, "Number of class weights must be equal to the number of classes"
 
         if "batch" in kwargs.keys():
-- 
2.43.0


From 8b44cc15b0310f486ae40dcfd3b4b19e07c8fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 48/59] fix: normalisation of HDF5 files with more than 8000
 columns, which do not fit one attribute

---
 hpelm/modules/hdf5_tools.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index a8c4690..c835c93 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -123,6 +123,25 @@ def normalize_hdf5(h5file, mean=None, std=None, batch=None):
         h5.close()
 
 
+def _write_attr(node, name, x, n=4096):
+    """Saves a vector in attributes of an HDF5 array: several ones for a long vector, as attributes have limited size.
+    """
+    if len(x) <= n:
+        setattr(node.attrs, name, x)
+    else:
+        for i in range(0, len(x), n):
+            setattr(node.attrs, name if i == 0 else "%s_%d" % (name, i), np.asarray(x[i: i+n]))
+
+
+def _read_attr(node, name, d, n=4096):
+    """Reads a vector of length `d` from attributes of an HDF5 array.
+    """
+    x = getattr(node.attrs, name)
+    if len(x) < d:
+        x = np.hstack([x] + [getattr(node.attrs, "%s_%d" % (name, i)) for i in range(n, d, n)])
+    return x
+
+
 def _normalize(h5, mean, std, batch):
     """Calculates and applies normalization to data in an open HDF5 file.
     """
@@ -156,12 +175,12 @@ def _normalize(h5, mean, std, batch):
                 var += np.mean((X1 - E_x)**2, 0) * (1.0*step/N)
             std = var**0.5
             std[std == 0] = 1  # prevent division by zero for std=0
-            node.attrs.mean = mean
-            node.attrs.std = std
+            _write_attr(node, "mean", mean)
+            _write_attr(node, "std", std)
         else:  # data is already normalized
             print("data was already normalized, returning 'mean', 'std' parameters")
             print("if you want to run normalization anyway, call the function with 'mean' and 'std' params")
-            mean, std = node.attrs.mean, node.attrs.std
+            mean, std = _read_attr(node, "mean", d), _read_attr(node, "std", d)
             h5.close()
             return mean, std
     else:
@@ -169,8 +188,8 @@ def _normalize(h5, mean, std, batch):
         assert len(mean) == d, msg1
         msg2 = "Incorrect lenght of a vector of standard deviations: %d expected, %d found" % (d, len(std))
         assert len(std) == d, msg2
-        node.attrs.mean = mean
-        node.attrs.std = std
+        _write_attr(node, "mean", mean)
+        _write_attr(node, "std", std)
     std = np.where(np.equal(std, 0), 1, std)  # prevent division by zero for std=0
 
     print("applying normalization")
-- 
2.43.0


From 85b3933a106deaee2655892b094fccf14c24f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 49/59] fix: regression error of integer and boolean data does
 not overflow or fail

---
 hpelm/elm.py    | 2 +-
 hpelm/hp_elm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index d087c41..90fe01c 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -517,7 +517,7 @@ class ELM(object):
             elif self.classification == "ml":
                 err = np.not_equal(Y > 0.5, T > 0.5).mean()
             else:
-                err = np.mean((Y - T)**2)
+                err = np.mean((np.array(Y, dtype=np.float64) - T)**2)  # integers may overflow
         else:  # LOO_PRESS error
             if self.classification == "c":
                 err = np.not_equal(Y.argmax(1), T.argmax(1)) / R.ravel()
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index d92b27b..e9d6d73 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -388,7 +388,7 @@ class HPELM(ELM):
                 start = b*self.batch + istart
                 stop = min((b+1)*self.batch + istart, icount + istart)
                 Tb = T[start:stop]
-                Yb = Y[start:stop]
+                Yb = np.array(Y[start:stop], dtype=np.float64)  # integers may overflow
                 errb = np.mean((Tb - Yb)**2)
                 err += errb * float(stop-start)/icount
 
-- 
2.43.0


From 119f8c213eaf718a53c1b407e950bd3209ebde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 50/59] fix: ranking of integer and half precision regressors
 does not overflow

---
 hpelm/modules/mrsr.py  | 2 ++
 hpelm/modules/mrsr2.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hpelm/modules/mrsr.py b/hpelm/modules/mrsr.py
index c932588..b1a3c8f 100755
--- a/hpelm/modules/mrsr.py
+++ b/hpelm/modules/mrsr.py
@@ -25,6 +25,8 @@ def mrsr(X, T, kmax):
      11-15, 2005. LNCS 3697, pp. 97-102.
     """
 
+    X = np.asarray(X, dtype=np.float64)  # dot products of small types overflow
+    T = np.asarray(T, dtype=np.float64)
     n,m = X.shape
     n,p = T.shape
     kmax = min(kmax, m)
diff --git a/hpelm/modules/mrsr2.py b/hpelm/modules/mrsr2.py
index a514eb1..7112e81 100644
--- a/hpelm/modules/mrsr2.py
+++ b/hpelm/modules/mrsr2.py
@@ -36,7 +36,8 @@ def mrsr2(X, T, kmax, norm=2):
     # initializing
     ins = X.shape[1]
     outs = T.shape[1]
-    X = np.array(X, order='F')  # Fortran ordering is good for operating columns 
+    X = np.array(X, dtype=np.float64, order='F')  # Fortran ordering is good for operating columns 
+    T = np.asarray(T, dtype=np.float64)  # dot products of small types overflow
     XA = np.empty(X.shape, order='F')
     XX = np.dot(X.T, X)        
     XT = np.dot(X.T, T)
-- 
2.43.0


From 0098465ac1e2bf738b0d28c8c1fedd652fab1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 51/59] fix: train_async of arrays is refused before the model
 is changed

---
 hpelm/hp_elm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index e9d6d73..9a5ad00 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -483,6 +483,8 @@ class HPELM(ELM):
 
         Spawns new processes using Python's `multiprocessing` module.
         """
+        for fname in (fX, fT):  # before changing the model
+            assert isinstance(fname, string_types), "Asyncronous I/O only supported with HDF5 data files"
         X, T = self._checkdata(fX, fT)
         self._train_parse_args(args, kwargs)
 
-- 
2.43.0


From 1b1c89452af7fb13a5256e83cf641151f74cc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 52/59] fix: prediction into an array with too few rows is
 refused before anything is written

---
 hpelm/hp_elm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 9a5ad00..7c2597a 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -216,6 +216,7 @@ class HPELM(ELM):
             Y = np.zeros((icount, self.nnet.outputs), dtype=self.precision)
         else:  # fY is Numpy array
             _, Y = self._checkdata(None, fY)
+            assert Y.shape[0] >= icount, "Numpy matrix fY has not enough rows to store predicted outputs"
 
         t = time()
         t0 = time()
-- 
2.43.0


From c81c925d250544f42ab1a0736c127e31c081ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 53/59] fix: automatic class weights of half-precision targets
 counted at most 2048 samples per class

---
 hpelm/elm.py    | 2 +-
 hpelm/hp_elm.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index 90fe01c..d468dfc 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -244,7 +244,7 @@ class ELM(object):
 
         # find automatic weights if none are given
         if self.classification == "wc" and self.wc is None:
-            ns = T.sum(axis=0).astype(self.precision)  # number of samples in classes
+            ns = T.sum(axis=0, dtype=np.float64).astype(self.precision)  # number of samples in classes
             self.wc = ns.sum() / ns  # weights of classes
 
         for X0, T0 in zip(np.array_split(X, nb, axis=0),
diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 7c2597a..046ff74 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -141,7 +141,7 @@ class HPELM(ELM):
             for b in xrange(nb):  # batch sum is much faster
                 start = b*self.batch + istart
                 stop = min((b+1)*self.batch + istart, icount + istart)
-                ns += T[start:stop].sum(axis=0)
+                ns += T[start:stop].sum(axis=0, dtype=np.float64)
             ns = ns.astype(self.precision)
             self.wc = ns.sum() / ns  # class weights normalized to number of samples
 
@@ -522,7 +522,7 @@ class HPELM(ELM):
             for b in xrange(nb):  # batch sum is much faster
                 start = b*self.batch + istart
                 stop = min((b+1)*self.batch + istart, icount + istart)
-                ns += T[start:stop].sum(axis=0)
+                ns += T[start:stop].sum(axis=0, dtype=np.float64)
             ns = ns.astype(self.precision)
             self.wc = ns.sum() / ns  # class weights normalized to number of samples
 
-- 
2.43.0


From 504b6de00ba05f408f5851108d8e1ca82f0f967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 54/59] fix: asynchronous operations reported one batch too
 many and a negative remaining time

---
 hpelm/hp_elm.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 046ff74..57f0e4c 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -563,10 +563,10 @@ class HPELM(ELM):
 
                 self.nnet.add_batch(Xb, Tb, wc_vector)
 
-            # report time
-            eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-            if time() - t > self.tprint:
-                print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
+            # report time, now `b` batches are processed
+            eta = int(((time()-t0) / max(b, 1)) * (nb-b))
+            if b > 0 and time() - t > self.tprint:
+                print("processing batch %d/%d, eta %d:%02d:%02d" % (b, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
         # close async reader and writer
@@ -625,10 +625,10 @@ class HPELM(ELM):
 
             start = start_next
             stop = stop_next
-            # report time
-            eta = int(((time()-t0) / (b+1)) * (nb-b-1))
-            if time() - t > self.tprint:
-                print("processing batch %d/%d, eta %d:%02d:%02d" % (b+1, nb, eta/3600, (eta % 3600)/60, eta % 60))
+            # report time, now `b` batches are processed
+            eta = int(((time()-t0) / max(b, 1)) * (nb-b))
+            if b > 0 and time() - t > self.tprint:
+                print("processing batch %d/%d, eta %d:%02d:%02d" % (b, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
         qw_in.put(None)
-- 
2.43.0


From b0bcfc5d1a153b9e0982f91c248caebfad72fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 55/59] fix: files stayed open after a read or write error in
 the middle of an operation

---
 hpelm/hp_elm.py             |  2 ++
 hpelm/modules/hdf5_tools.py | 14 +++++++++-----
 hpelm/modules/rbf_param.py  | 16 ++++++++++------
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 57f0e4c..95dec3f 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -210,6 +210,7 @@ class HPELM(ELM):
         if isinstance(fY, string_types):
             make_hdf5((icount, self.nnet.outputs), fY, dtype=self.precision)
             h5 = open_file(fY, "a")
+            self.opened_hdf5.append(h5)
             for Y in h5.walk_nodes():
                 pass  # find a node with whatever name
         elif fY is None:  # create Numpy array
@@ -268,6 +269,7 @@ class HPELM(ELM):
         if isinstance(fH, string_types):
             make_hdf5((icount, self.nnet.L), fH, dtype=self.precision)
             h5 = open_file(fH, "a")
+            self.opened_hdf5.append(h5)
             for H in h5.walk_nodes():
                 pass  # find a node with whatever name
         elif fH is None:  # create Numpy array
diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index c835c93..8931a4b 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -88,8 +88,7 @@ def _write_fHH(fHH, fHT, HH, HT):
     Lock file has the same name as fHH,fHT, but with '.lock' extension.
     """
     fHH_lock = fHH + ".lock"
-    with fasteners.InterProcessLock(fHH_lock):
-        h5 = open_file(fHH, "a")
+    with fasteners.InterProcessLock(fHH_lock), open_file(fHH, "a") as h5:
         node = None
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
@@ -98,8 +97,7 @@ def _write_fHH(fHH, fHT, HH, HT):
         h5.close()
 
     fHT_lock = fHT + ".lock"
-    with fasteners.InterProcessLock(fHT_lock):
-        h5 = open_file(fHT, "a")
+    with fasteners.InterProcessLock(fHT_lock), open_file(fHT, "a") as h5:
         for node in h5.walk_nodes():
             pass  # find a node with whatever name
         node[:] += HT
@@ -253,7 +251,13 @@ def make_hdf5(data, h5file, dtype=np.float64, delimiter=" ", skiprows=0, comp_le
         flt = Filters(complevel=comp_level, shuffle=True)
     else:
         flt = Filters(complevel=0)
-    h5 = open_file(h5file, "w")
+    with open_file(h5file, "w") as h5:
+        _fill_hdf5(h5, data, X, fill, dtype, flt, delimiter, skiprows)
+
+
+def _fill_hdf5(h5, data, X, fill, dtype, flt, delimiter, skiprows):
+    """Writes data to an open HDF5 file, see `make_hdf5()`.
+    """
     a = Atom.from_dtype(np.dtype(dtype), dflt=0)
     # write data to hdf5 file
     if fill == "iter":  # iteratively fill the data
diff --git a/hpelm/modules/rbf_param.py b/hpelm/modules/rbf_param.py
index 043d3bd..17e749f 100644
--- a/hpelm/modules/rbf_param.py
+++ b/hpelm/modules/rbf_param.py
@@ -25,12 +25,19 @@ def rbf_param(data, k, kind="sqeuclidean"):
     else:
         kind = "sqeuclidean"
     if isinstance(data, string_types):
-        h5 = open_file(data, "r")
-        for X in h5.walk_nodes():
-            pass  # find a node with whatever name
+        with open_file(data, "r") as h5:
+            for X in h5.walk_nodes():
+                pass  # find a node with whatever name
+            return _rbf_param(X, k, kind)
     else:
         X = np.array(data)
         assert len(X.shape) == 2, "Data must be a 2-dim matrix"
+        return _rbf_param(X, k, kind)
+
+
+def _rbf_param(X, k, kind):
+    """Computes parameters from an array in memory or in an open HDF5 file, with a distance of `cdist` in `kind`.
+    """
     N = X.shape[0]
     Nk = min(10*k, N-1)
     dist = np.zeros((Nk,))
@@ -60,7 +67,4 @@ def rbf_param(data, k, kind="sqeuclidean"):
             i += 1
             if i == k:
                 break
-    if isinstance(data, string_types):
-        h5.close()
-
     return W, B
-- 
2.43.0


From ad03ad40d0d04d42ed95b4cbb41c7c6f3d74aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 56/59] fix: a failure during asynchronous I/O hung the
 program, lost output rows silently or left helper processes running

---
 hpelm/hp_elm.py             | 28 ++++++++++++++++---------
 hpelm/modules/__init__.py   |  2 +-
 hpelm/modules/hdf5_tools.py | 41 +++++++++++++++++++++++++++++++++++++
 3 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/hpelm/hp_elm.py b/hpelm/hp_elm.py
index 95dec3f..0c76ff1 100755
--- a/hpelm/hp_elm.py
+++ b/hpelm/hp_elm.py
@@ -10,7 +10,7 @@ import multiprocessing as mp
 from six.moves import xrange
 from six import string_types
 from time import time
-from .modules import make_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
+from .modules import make_hdf5, _ireader, _iwriter, _Helper, _prepare_fHH, _write_fHH
 from tables import open_file
 from .elm import ELM, closes_hdf5
 
@@ -540,11 +540,15 @@ class HPELM(ELM):
         readerX = mp.Process(target=_ireader, args=(fX, qX_in, qX_out))
         readerX.daemon = True
         readerX.start()
+        helperX = _Helper(readerX, qX_in, qX_out)
+        self.opened_hdf5.append(helperX)  # stopped when the operation ends
         qT_in = mp.Queue()
         qT_out = mp.Queue(1)
         readerT = mp.Process(target=_ireader, args=(fT, qT_in, qT_out))
         readerT.daemon = True
         readerT.start()
+        helperT = _Helper(readerT, qT_in, qT_out)
+        self.opened_hdf5.append(helperT)  # stopped when the operation ends
 
         # main loop over all the data
         t = time()
@@ -558,8 +562,8 @@ class HPELM(ELM):
             qT_in.put((start_next, stop_next))
 
             if b > 0:  # first iteration only prefetches data
-                Xb = qX_out.get()
-                Tb = qT_out.get()
+                Xb = helperX.get()
+                Tb = helperT.get()
                 if self.classification == "wc":
                     wc_vector = self.wc[np.where(Tb == 1)[1]]  # weights for samples in the batch
 
@@ -572,8 +576,8 @@ class HPELM(ELM):
                 t = time()
 
         # close async reader and writer
-        readerX.join()
-        readerT.join()
+        helperX.join()
+        helperT.join()
 
         # if storing output to disk
         if fHH is not None and fHT is not None:
@@ -604,10 +608,14 @@ class HPELM(ELM):
         reader = mp.Process(target=_ireader, args=(fX, qr_in, qr_out))
         reader.daemon = True
         reader.start()
+        helper_r = _Helper(reader, qr_in, qr_out)
+        self.opened_hdf5.append(helper_r)  # stopped when the operation ends
         qw_in = mp.Queue(1)
         writer = mp.Process(target=_iwriter, args=(fY, qw_in))
         writer.daemon = True
         writer.start()
+        helper_w = _Helper(writer, qw_in)
+        self.opened_hdf5.append(helper_w)
 
         t = time()
         t0 = time()
@@ -619,11 +627,11 @@ class HPELM(ELM):
 
             if b > 0:  # first iteration only prefetches data
                 # get data
-                Xb = qr_out.get()
+                Xb = helper_r.get()
                 # process data
                 Yb = self.nnet._predict(Xb)
                 # save data
-                qw_in.put((Yb, start-istart, stop-istart))
+                helper_w.put((Yb, start-istart, stop-istart))
 
             start = start_next
             stop = stop_next
@@ -633,9 +641,9 @@ class HPELM(ELM):
                 print("processing batch %d/%d, eta %d:%02d:%02d" % (b, nb, eta/3600, (eta % 3600)/60, eta % 60))
                 t = time()
 
-        qw_in.put(None)
-        reader.join()
-        writer.join()
+        helper_w.put(None)
+        helper_r.join()
+        helper_w.join()
 
     def _checkcorr(self, fHH, fHT):
         """Analog of `_checkdata()` for correlation matrices.
diff --git a/hpelm/modules/__init__.py b/hpelm/modules/__init__.py
index d8f1006..9c74e39 100644
--- a/hpelm/modules/__init__.py
+++ b/hpelm/modules/__init__.py
@@ -7,5 +7,5 @@ Created on Sat Feb 21 20:46:31 2015
 
 from .mrsr import mrsr
 from .mrsr2 import mrsr2
-from .hdf5_tools import make_hdf5, normalize_hdf5, _ireader, _iwriter, _prepare_fHH, _write_fHH
+from .hdf5_tools import make_hdf5, normalize_hdf5, _ireader, _iwriter, _Helper, _prepare_fHH, _write_fHH
 from .rbf_param import rbf_param
\ No newline at end of file
diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index 8931a4b..c1699d8 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -11,6 +11,7 @@ from __future__ import division
 import numpy as np
 from six import string_types
 from six.moves import range
+from six.moves.queue import Empty, Full
 import csv
 from tables import open_file, Atom, Filters
 import os
@@ -281,6 +282,46 @@ def _fill_hdf5(h5, data, X, fill, dtype, flt, delimiter, skiprows):
     h5.close()
 
 
+class _Helper(object):
+    """A helper process of an asynchronous operation, its failure becomes an error in the main process.
+    """
+    def __init__(self, process, q_in, q_out=None):
+        self.process = process
+        self.q_in = q_in
+        self.q_out = q_out
+
+    def _wait(self, queue_op, *args):
+        """Runs an operation on a queue, that never completes if the helper process has ended.
+        """
+        while True:
+            alive = self.process.is_alive()
+            try:
+                return queue_op(*args, timeout=1)
+            except (Empty, Full):
+                if not alive:
+                    raise IOError("Asyncronous I/O has failed")
+
+    def get(self):
+        return self._wait(self.q_out.get)
+
+    def put(self, data):
+        self._wait(self.q_in.put, data)
+
+    def join(self):
+        self.process.join()
+        if self.process.exitcode != 0:
+            raise IOError("Asyncronous I/O has failed")
+
+    def close(self):
+        """Stops the process if an operation has failed, does nothing after a successful `join()`.
+        """
+        if self.process.is_alive():
+            self.process.terminate()
+            self.process.join()
+        if self.process.exitcode != 0:
+            self.q_in.cancel_join_thread()  # nobody reads this data
+
+
 def _ireader(fX, q_in, q_out):
     """Asyncronous reader for an HDF5 file.
 
-- 
2.43.0


From 2ced588bea0f7b0e012c8333e71671513816328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 57/59] fix: automatic class weights of half-precision targets
 in cross-validation

---
 hpelm/mss_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpelm/mss_cv.py b/hpelm/mss_cv.py
index cfd8b17..82fd8c9 100644
--- a/hpelm/mss_cv.py
+++ b/hpelm/mss_cv.py
@@ -35,7 +35,7 @@ def train_cv(self, X, T, k):
 
     # automatic class weights of the whole dataset, not of one training part
     if self.classification == "wc" and self.wc is None:
-        ns = T.sum(axis=0).astype(self.precision)
+        ns = T.sum(axis=0, dtype=np.float64).astype(self.precision)
         self.wc = ns.sum() / ns
 
     datak = []
-- 
2.43.0


From 804205bce275114a33df8a8551a438bc7e5731eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 58/59] fix: the program hung when a helper process died in the
 middle of sending a large batch

---
 hpelm/modules/hdf5_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hpelm/modules/hdf5_tools.py b/hpelm/modules/hdf5_tools.py
index c1699d8..2e32a8b 100644
--- a/hpelm/modules/hdf5_tools.py
+++ b/hpelm/modules/hdf5_tools.py
@@ -289,6 +289,8 @@ class _Helper(object):
         self.process = process
         self.q_in = q_in
         self.q_out = q_out
+        if q_out is not None:
+            q_out._writer.close()  # only the helper writes, its end is seen even in the middle of a data batch
 
     def _wait(self, queue_op, *args):
         """Runs an operation on a queue, that never completes if the helper process has ended.
@@ -300,6 +302,8 @@ class _Helper(object):
             except (Empty, Full):
                 if not alive:
                     raise IOError("Asyncronous I/O has failed")
+            except EOFError:
+                raise IOError("Asyncronous I/O has failed")
 
     def get(self):
         return self._wait(self.q_out.get)
-- 
2.43.0


From 95af45dffb666e99271befee1cf610a940f03316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:55 +0000
Subject: [PATCH 59/59] fix: dates and structured arrays were accepted as
 training targets

---
 hpelm/elm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpelm/elm.py b/hpelm/elm.py
index d468dfc..b3532c2 100755
--- a/hpelm/elm.py
+++ b/hpelm/elm.py
@@ -586,7 +586,7 @@ class ELM(object):
                 # assert isinstance(X, np.ndarray) and
                 if len(X.shape) == 1:
                     X = X.reshape(-1, 1)
-            assert X.dtype.kind not in "OSU", "X must be a numerical numpy array"
+            assert X.dtype.kind not in "OSUVMm", "X must be a numerical numpy array"
             assert len(X.shape) == 2, "X must have 2 dimensions"
             assert X.shape[1] == self.nnet.inputs, "X has wrong dimensionality: expected %d, found %d" % \
                                                    (self.nnet.inputs, X.shape[1])
@@ -609,7 +609,7 @@ class ELM(object):
                 # assert isinstance(T, np.ndarray) and
                 if len(T.shape) == 1:
                     T = T.reshape(-1, 1)
-            assert T.dtype.kind not in "OSU", "T must be a numerical numpy array"
+            assert T.dtype.kind not in "OSUVMm", "T must be a numerical numpy array"
             assert len(T.shape) == 2, "T must have 2 dimensions"
 
             assert T.shape[1] == self.nnet.outputs, "T has wrong dimensionality: expected %d, found %d" % \
-- 
2.43.0

