From df77ad45b04d37faf082083fed2878bacbbeea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 01/52] fix: keep column axes in BlockMatrix solves

---
 enterprise/signals/signal_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f6da48a..cd8bb0b 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1161,6 +1161,7 @@ class BlockMatrix(object):
         """Solves :math:`Z^T N^{-1}X`, where :math:`X`
         and :math:`Z` are 1-d or 2-d arrays.
         """
+        xdim, zdim = X.ndim, Z.ndim
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
         if Z.ndim == 1:
@@ -1183,12 +1184,16 @@ class BlockMatrix(object):
                 bx = Xblock / self._nvec[idx][:, None]
             ZNX += np.dot(Zblock.T, bx)
         ZNX += ZNXr
-        return ZNX.squeeze() if len(ZNX) > 1 else float(ZNX)
+        # drop only the axes that were added above
+        if xdim == 1:
+            ZNX = ZNX[:, 0]
+        return ZNX[0] if zdim == 1 else ZNX
 
     def _solve_NX(self, X):
         """Solves :math:`N^{-1}X`, where :math:`X`
         is a 1-d or 2-d array.
         """
+        xdim = X.ndim
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
 
@@ -1198,7 +1203,7 @@ class BlockMatrix(object):
             if len(idx) > 1:
                 cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                 NX[idx] = sl.cho_solve(cf, Xblock)
-        return NX.squeeze()
+        return NX[:, 0] if xdim == 1 else NX
 
     def _get_logdet(self):
         """Returns log determinant of :math:`N+UJU^{T}` where :math:`U`
-- 
2.43.0


From a0f32dffc148fabfc8f70bcb97d29a137a4539db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 02/52] fix: do not merge identical columns within one signal's
 basis

---
 enterprise/signals/signal_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index cd8bb0b..9dba836 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -897,10 +897,14 @@ def SignalCollection(metasignals):  # noqa: C901
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
 
-                            if signal.basis_combine and colhash in hashlist:
+                            if (
+                                signal.basis_combine
+                                and colhash in hashlist
+                                and hashlist.index(colhash) not in idx[signal]
+                            ):
                                 # if we're combining the basis for this signal
-                                # and we have seen this column already, make a note
-                                # of where it was
+                                # and we have seen this column already (in another
+                                # signal), make a note of where it was
 
                                 j = hashlist.index(colhash)
                                 idx[signal].append(j)
-- 
2.43.0


From 771f461724b114c409427e89b36aa8ccfd401842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 03/52] fix: keep column bookkeeping aligned after signals with
 basis parameters

---
 enterprise/signals/signal_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 9dba836..d8d40d6 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -918,6 +918,8 @@ def SignalCollection(metasignals):  # noqa: C901
                     elif signal.basis_params:
                         nf = Fmat.shape[1]
                         idx[signal] = list(range(cc, cc + nf))
+                        # keep hashlist aligned with the combined columns
+                        hashlist.extend([None] * nf)
                         cc += nf
 
             if not idx:
-- 
2.43.0


From f2aabffd89cc512706aa8caf4498711c859fe9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 04/52] fix: merge all overlapping prior cliques

---
 enterprise/signals/signal_base.py | 2 +-
 enterprise/signals/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index d8d40d6..5fcff49 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -602,7 +602,7 @@ class PTA(object):
                 # since cliques are "contagious", reassign all the other
                 # clique indices that we found to maxidx
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                    self._cliques[np.in1d(self._cliques, list(allidx - {-1}))] = maxidx
 
     # add cliques from individual pulsar phis; these will never overlap
     # TO DO: at this point Phi could be defined as a smarter KernelMatrix!
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 333368d..517eea0 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -250,7 +250,7 @@ class KernelMatrix(np.ndarray):
         else:
             self._cliques[idxs] = maxidx
             if len(allidx) > 1:
-                self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                self._cliques[np.in1d(self._cliques, list(allidx - {-1}))] = maxidx
 
     def add(self, other, idx):
         if other.ndim == 2 and self.ndim == 1:
-- 
2.43.0


From c8a4dec5b6f396363289b438ff2d2c6bd4470a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 05/52] fix: partition prior inverse without log-determinant
 for dense priors

---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 5fcff49..9eb0b7b 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -449,7 +449,7 @@ class PTA(object):
             # TODO: This is messy, maybe we should clean up
             phis = [phivec for phivec in phivecs if phivec is not None]
             if np.any([phivec.ndim == 2 for phivec in phis]):
-                phiinvs = [phivec.inv(logdet) for phivec in phis]
+                phiinvs = [phivec.inv(logdet=True) for phivec in phis]
                 phiinv_full = [np.diag(phi[0]) if phi[0].ndim == 1 else phi[0] for phi in phiinvs]
                 phiinv = sl.block_diag(*phiinv_full)
                 if logdet:
-- 
2.43.0


From 063980f218c270332e70ad7c4afc4db566a53bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 06/52] fix: correlated likelihood with pulsars that have no
 Gaussian process

---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 9eb0b7b..c7ce9de 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -184,6 +184,9 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNT(self, TNTs):
+        # pulsars without any process have no TNT block
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if self.cholesky_sparse:
             return sps.block_diag(TNTs, "csc")
         else:
@@ -191,7 +194,7 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNr(self, TNrs):
-        return np.concatenate(TNrs)
+        return np.concatenate([TNr for TNr in TNrs if TNr is not None])
 
     def __call__(self, xs, phiinv_method="cliques"):
         # map parameter vector if needed
-- 
2.43.0


From 5c0e67618b5a19e3c95ab3574520a9b1a466558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 07/52] fix: marginalizing timing model listed after correlated
 noise

---
 enterprise/signals/signal_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index c7ce9de..f41b94e 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -942,6 +942,8 @@ def SignalCollection(metasignals):  # noqa: C901
         @cache_call("white_params")
         def get_ndiag(self, params):
             ndiags = [signal.get_ndiag(params) for signal in self._signals]
+            # a marginalizing timing model wraps all other noise terms, so it needs to start the sum
+            ndiags.sort(key=lambda ndiag: not hasattr(ndiag, "Mmat"))
             return sum(ndiag for ndiag in ndiags if ndiag is not None)
 
         @cache_call("delay_params")
-- 
2.43.0


From e25ad279660b7c5cb92fc6d4279baefdfb5c6e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 08/52] fix: diagonal slice updates of dense KernelMatrix

---
 enterprise/signals/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 517eea0..e5984b7 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -260,6 +260,8 @@ class KernelMatrix(np.ndarray):
             self[idx] += other
         else:
             if other.ndim == 1:
+                # address the diagonal only, also for slices
+                idx = np.arange(self.shape[0])[idx]
                 self[idx, idx] += other
             else:
                 self._setcliques(idx)
@@ -276,6 +278,8 @@ class KernelMatrix(np.ndarray):
             self[idx] = other
         else:
             if other.ndim == 1:
+                # address the diagonal only, also for slices
+                idx = np.arange(self.shape[0])[idx]
                 self[idx, idx] = other
             else:
                 self._setcliques(idx)
-- 
2.43.0


From 4608fdfc1b29e52f69f0351ed72ce1ec05ce0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:08 +0000
Subject: [PATCH 09/52] fix: basis signals without columns (no ECORR epochs)

---
 enterprise/signals/signal_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f41b94e..c45b057 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -925,11 +925,12 @@ def SignalCollection(metasignals):  # noqa: C901
                         hashlist.extend([None] * nf)
                         cc += nf
 
-            if not idx:
+            ncol = len(np.unique(sum(idx.values(), [])))
+            if ncol == 0:
+                # no signal has a basis, or the bases have no columns (e.g., no ECORR epochs)
                 return {}, None
             else:
-                ncol = len(np.unique(sum(idx.values(), [])))
-                return ({key: np.array(idx[key]) for key in idx.keys()}, np.zeros((nrow, ncol)))
+                return ({key: np.array(idx[key], dtype=int) for key in idx.keys()}, np.zeros((nrow, ncol)))
 
         # goofy way to cache _idx
         def __getattr__(self, par):
-- 
2.43.0


From 3685d00f7e71938324383aba940a6172c2b03aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:08 +0000
Subject: [PATCH 10/52] fix: ECORR kernels for pulsars without epochs

---
 enterprise/signals/signal_base.py   | 2 +-
 enterprise/signals/white_signals.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index c45b057..466cb48 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1154,7 +1154,7 @@ class BlockMatrix(object):
 
         if np.any(nvec != 0):
             s1 = set(np.arange(len(nvec)))
-            s2 = set(np.concatenate([np.arange(len(nvec))[slc] for slc in slices]))
+            s2 = set().union(*[np.arange(len(nvec))[slc] for slc in slices])
             sd = s1.difference(s2)
             self._idx = np.array([s for s in sd])
 
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f963fee..78400a2 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -276,6 +276,9 @@ def EcorrKernelNoise(
 
         def _get_ndiag_fast_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
+            if not slices:
+                # the compiled solvers need at least one epoch
+                return signal_base.ShermanMorrison(jvec, slices)
             return fastshermanmorrison.FastShermanMorrison(jvec, slices)
 
         def _get_ndiag_block(self, params):
-- 
2.43.0


From c382ba9ff8f92635e50456988382086d5ff10008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 11/52] fix: physical ephemeris delays returned for different
 parameters shared one array

---
 enterprise/signals/deterministic_signals.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d0ee0db..0e1a302 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -190,18 +190,17 @@ def PhysicalEphemerisSignal(
                 pos_t = np.array([np.interp(avetoas, psr.toas, psr.pos_t[:, aa]) for aa in range(3)]).T
                 self._pos_t = pos_t
 
-            # initialize delay
-            self._delay = np.zeros(len(psr.toas))
-
         # this defaults to all parameters
         @signal_base.cache_call("delay_params")
         def get_delay(self, params):
             if use_epoch_toas:
                 delay = self._wf[""](toas=self._avetoas, planetssb=self._planetssb, pos_t=self._pos_t, params=params)
 
+                # the result is cached, so it cannot share memory with other calls
+                fulldelay = np.zeros(self._ntoas)
                 for slc, val in zip(self._uinds, delay):
-                    self._delay[slc] = val
-                return self._delay
+                    fulldelay[slc] = val
+                return fulldelay
             else:
                 delay = self._wf[""](params=params)
                 return delay
-- 
2.43.0


From a7d2e6256b17f4fe3b3ec2f962173cb82c22557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 12/52] fix: sparse ECORR matrices returned for different
 parameters shared one matrix

---
 enterprise/signals/white_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index 78400a2..b5da130 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -264,11 +264,13 @@ def EcorrKernelNoise(
             self._Ns = signal_base.csc_matrix_alt(Ns)
 
         def _get_ndiag_sparse(self, params):
+            # the result is cached, so it cannot share memory with other calls
+            Ns = self._Ns.copy()
             for p in self._params:
                 for idx in self._idxs[p]:
                     if len(idx) > 1:
-                        self._Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
-            return self._Ns
+                        Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
+            return Ns
 
         def _get_ndiag_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
-- 
2.43.0


From 130a29ec5aff86f14019b231770fac44f8fead1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 13/52] fix: cached delays of GP coefficients ignored changes
 of the basis parameters

---
 enterprise/signals/signal_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 466cb48..af7f64a 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -808,7 +808,11 @@ def SignalCollection(metasignals):  # noqa: C901
                 elif signal.signal_type in ["basis", "common basis"]:
                     # to support GP coefficients, and yet do the right thing
                     # for common GPs, which do not have coefficients yet
-                    self.delay_params.extend(getattr(signal, "delay_params", []))
+                    delay_params = getattr(signal, "delay_params", [])
+                    self.delay_params.extend(delay_params)
+                    if delay_params:
+                        # the delay also depends on the basis
+                        self.delay_params.extend(signal.basis_params)
                     self.basis_params.extend(signal.basis_params)
                 elif signal.signal_type in ["deterministic"]:
                     self.delay_params.extend(signal.delay_params)
-- 
2.43.0


From 1a9503c8ea74ece50f14fb5cfaf6cce70421c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 14/52] fix: set_default_params left values cached for the
 previous constants

---
 enterprise/signals/signal_base.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index af7f64a..10b732b 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -62,6 +62,13 @@ def simplememobyid(method):
     return memoizedfunc
 
 
+def clear_cache(obj):
+    """Remove all values saved by `cache_call` in `obj`."""
+
+    for attr in [attr for attr in obj.__dict__ if attr.startswith("_cache_")]:
+        delattr(obj, attr)
+
+
 class MetaSignal(type):
     """Metaclass for Signals. Allows addition of ``Signal`` classes."""
 
@@ -132,6 +139,9 @@ class Signal(object):
                     msg = "{} not set! Check parameter dict.".format(par.name)
                     logger.warning(msg)
 
+        # constant parameters are not part of the cache keys
+        clear_cache(self)
+
     def get_ndiag(self, params):
         """Returns the diagonal of the white noise vector `N`.
 
@@ -881,6 +891,13 @@ def SignalCollection(metasignals):  # noqa: C901
             for signal in self._signals:
                 signal.set_default_params(params)
 
+            # constant parameters are not part of the cache keys
+            clear_cache(self)
+
+            # the combination of basis columns may also change
+            for attr in ("_idx", "_Fmat"):
+                self.__dict__.pop(attr, None)
+
         def _combine_basis_columns(self, signals):
             """Given a set of Signal objects, each of which may return an
             Fmat (through get_basis()), return a dict (indexed by signal)
-- 
2.43.0


From ff655799827097202856b4c7d661bd04e347297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 15/52] fix: sparse likelihood reused a Cholesky analysis for a
 different sparsity pattern

---
 enterprise/signals/signal_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 10b732b..09de91f 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -236,12 +236,15 @@ class LogLikelihood(object):
                 try:
                     Sigma_sp = TNT + sps.csc_matrix(phiinv)
 
-                    if hasattr(self, "cf_sp"):
+                    pattern = Sigma_sp.indptr, Sigma_sp.indices
+
+                    if hasattr(self, "cf_sp") and all(map(np.array_equal, self.cf_pattern, pattern)):
                         # Have analytical decomposition already. Just do update
                         self.cf_sp.cholesky_inplace(Sigma_sp)
                     else:
                         # Do analytical and numerical Sparse Cholesky
-                        self.cf_sp = cholesky(Sigma_sp)
+                        # (the analysis is only valid for the same sparsity pattern)
+                        self.cf_sp, self.cf_pattern = cholesky(Sigma_sp), pattern
 
                     expval = self.cf_sp(TNr)
                     logdet_sigma = self.cf_sp.logdet()
-- 
2.43.0


From 65703e3c64b9e98fac7bffa5267391b6e1edffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 16/52] fix: cached values ignored changed or overridden
 constant parameters

---
 enterprise/signals/signal_base.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 09de91f..24da698 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -62,13 +62,6 @@ def simplememobyid(method):
     return memoizedfunc
 
 
-def clear_cache(obj):
-    """Remove all values saved by `cache_call` in `obj`."""
-
-    for attr in [attr for attr in obj.__dict__ if attr.startswith("_cache_")]:
-        delattr(obj, attr)
-
-
 class MetaSignal(type):
     """Metaclass for Signals. Allows addition of ``Signal`` classes."""
 
@@ -139,9 +132,6 @@ class Signal(object):
                     msg = "{} not set! Check parameter dict.".format(par.name)
                     logger.warning(msg)
 
-        # constant parameters are not part of the cache keys
-        clear_cache(self)
-
     def get_ndiag(self, params):
         """Returns the diagonal of the white noise vector `N`.
 
@@ -894,10 +884,7 @@ def SignalCollection(metasignals):  # noqa: C901
             for signal in self._signals:
                 signal.set_default_params(params)
 
-            # constant parameters are not part of the cache keys
-            clear_cache(self)
-
-            # the combination of basis columns may also change
+            # the combination of basis columns may change
             for attr in ("_idx", "_Fmat"):
                 self.__dict__.pop(attr, None)
 
@@ -1042,6 +1029,15 @@ def SignalCollection(metasignals):  # noqa: C901
     return SignalCollection
 
 
+def _get_constants(obj):
+    """Return the constant parameters of a Signal or SignalCollection."""
+
+    if hasattr(obj, "_signals"):
+        return [par for signal in obj._signals for par in _get_constants(signal)]
+    else:
+        return [par for par in getattr(obj, "_params", {}).values() if isinstance(par, ConstantParameter)]
+
+
 def cache_call(attrs, limit=2):
     """This decorator caches the output of a class method that takes
     a single parameter 'params'. It saves the cache in the instance
@@ -1051,7 +1047,8 @@ def cache_call(attrs, limit=2):
     specified in the initial decorator call. For instance, if
     the decorator is applied as @cache_call('basis_params'), then
     the parameters listed in self.basis_params (together with their values)
-    will be used as the key.
+    will be used as the key, together with the current values of
+    all constant parameters.
 
     The parameter 'limit' specifies the number of entries saved
     in the cache."""
@@ -1073,6 +1070,10 @@ def cache_call(attrs, limit=2):
                         ret.append((key, tuple(params[key])))
                     else:
                         ret.append((key, params[key]))
+            # constants can be changed by set_default_params, or given in params
+            for par in _get_constants(self):
+                value = params.get(par.name, par.value)
+                ret.append((par.name, tuple(np.ravel(value)) if np.ndim(value) > 0 else value))
             key = tuple(ret)
             # key = tuple([(key, params[key]) for key in keys if key in params])
 
-- 
2.43.0


From be2f5759b37b12718c7c3f10fac73c9f8947c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 17/52] fix: sample shared hyperparameters only once

---
 enterprise/signals/parameter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 065f7f2..0b6652b 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -28,10 +28,9 @@ def _sample(parlist, parvalues):
     """Recursive function used by sample()."""
 
     for par in parlist:
-        if par not in parvalues:
-            # RvH: Hyper pars seem to be broken
-            # sample hyperpars for this par, skip parameter itself
-            parvalues.update(sample(par.params[1:]))
+        if par.name not in parvalues:
+            # sample hyperpars for this par (if not sampled yet), skip parameter itself
+            _sample(par.params[1:], parvalues)
 
             parvalues[par.name] = par.sample(params=parvalues)
 
-- 
2.43.0


From a98b4a81aa4acb380e22e7e43aa54791997e8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 18/52] fix: parameters of nested functions with the same
 argument names

---
 enterprise/signals/parameter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 0b6652b..d69f44a 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -501,13 +501,18 @@ def Function(func, name="", **func_kwargs):
                     parfunc = arg("_".join([n for n in pnames if n]), psr)
 
                     self._funcs[kw] = parfunc
-                    self._params.update(parfunc._params)
+                    self._add_params(kw, parfunc)
                 elif isinstance(arg, FunctionBase):
                     self._funcs[kw] = arg
-                    self._params.update(arg._params)
+                    self._add_params(kw, arg)
                 else:
                     self._defaults[kw] = arg
 
+        # the keys of nested parameters cannot be the same as
+        # keyword parameters or parameters of other nested functions
+        def _add_params(self, kw, parfunc):
+            self._params.update({"{}.{}".format(kw, key): par for key, par in parfunc._params.items()})
+
         def __call__(self, *args, **kwargs):
             # we call self._func (or possibly the `func` given in kwargs)
             # by passing it args, kwargs, after augmenting kwargs (see below)
@@ -533,9 +538,11 @@ def Function(func, name="", **func_kwargs):
             #   definition (they are included in func_kwargs, and saved in
             #   self._defaults)
             # - parameters given as Functions, evaluated by passing
-            #   them only the parameters they may care about
+            #   them only the arguments of this call they may care about
             # - [if the func itself has default parameters, they may yet
             #   apply if none of the above does]
+            callargs = dict(kwargs)
+
             for kw, arg in self.func_kwargs.items():
                 if kw not in kwargs:
                     if kw in self._params:
@@ -549,7 +556,7 @@ def Function(func, name="", **func_kwargs):
                         kwargs[kw] = self._defaults[kw]
                     elif kw in self._funcs:
                         f = self._funcs[kw]
-                        fargs = {par: val for par, val in kwargs.items() if par in f.func_kwargs}
+                        fargs = {par: val for par, val in callargs.items() if par in f.func_kwargs}
                         fargs["params"] = params
                         kwargs[kw] = f(**fargs)
 
-- 
2.43.0


From 49aea50300e2b4c4a76fa328b9d4d09aa0d5f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 19/52] fix: TruncNormal samples with only one of mu and sigma
 a vector

---
 enterprise/signals/parameter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index d69f44a..ac1879d 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -321,10 +321,9 @@ def TruncNormalSampler(mu, sigma, pmin, pmax, norm=None, size=None):
     if isinstance(samp, np.ndarray):
         mask = np.logical_or(samp > pmax, samp < pmin)
         while np.any(mask):
-            if isinstance(mu, np.ndarray):
-                samp[mask] = np.random.normal(mu[mask], sigma[mask], size=sum(mask))
-            else:
-                samp[mask] = np.random.normal(mu, sigma, size=sum(mask))
+            # mu and sigma may be scalars or vectors
+            mus, sigmas = np.broadcast_to(mu, samp.shape), np.broadcast_to(sigma, samp.shape)
+            samp[mask] = np.random.normal(mus[mask], sigmas[mask])
             mask = np.logical_or(samp > pmax, samp < pmin)
     else:
         while samp > pmax or samp < pmin:
-- 
2.43.0


From 0e1977c928c02d34b32b2ad8e25f808121688c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 20/52] fix: pulsar attributes passed to the wrong arguments of
 wrapped functions

---
 enterprise/signals/selections.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enterprise/signals/selections.py b/enterprise/signals/selections.py
index 0b4f1e7..0c8ce18 100644
--- a/enterprise/signals/selections.py
+++ b/enterprise/signals/selections.py
@@ -25,28 +25,26 @@ def selection_func(func):
 
     @functools.wraps(func)
     def wrapper(*args, **kwargs):
-        targs = list(args)
-
         # check for mask
         mask = kwargs.get("mask", Ellipsis)
         if "mask" in kwargs:
             del kwargs["mask"]
 
-        if len(targs) < len(funcargs) and "psr" in kwargs:
+        if len(args) < len(funcargs) and "psr" in kwargs:
             psr = kwargs["psr"]
 
             for funcarg in funcargs[len(args) :]:
                 if funcarg not in kwargs and hasattr(psr, funcarg):
                     attr = call_me_maybe(getattr(psr, funcarg))
                     if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
-                        targs.append(attr[mask])
+                        kwargs[funcarg] = attr[mask]
                     else:
-                        targs.append(attr)
+                        kwargs[funcarg] = attr
 
         if "psr" in kwargs and "psr" not in funcargs:
             del kwargs["psr"]
 
-        return func(*targs, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From 882ea12ebb03cf1831741df2b4363216fba4d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 21/52] fix: parameters listed more than once when two
 instances have the same name

---
 enterprise/signals/signal_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 24da698..257ae87 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -290,14 +290,15 @@ class PTA(object):
 
     @property
     def params(self):
-        ret = set()
+        # parameters are identified by their name
+        ret = {}
 
         for signalcollection in self._signalcollections:
             for param in signalcollection.params:
                 for par in param.params:
-                    ret.add(par)
+                    ret.setdefault(par.name, par)
 
-        return sorted(list(ret), key=lambda par: par.name)
+        return sorted(ret.values(), key=lambda par: par.name)
 
         # return sorted({par for signalcollection in self._signalcollections
         #                    for par in signalcollection.params},
@@ -834,7 +835,9 @@ def SignalCollection(metasignals):  # noqa: C901
         # a candidate for memoization
         @property
         def params(self):
-            return sorted({param for signal in self._signals for param in signal.params}, key=lambda par: par.name)
+            # parameters are identified by their name
+            ret = {param.name: param for signal in self._signals for param in signal.params}
+            return sorted(ret.values(), key=lambda par: par.name)
 
         @property
         def param_names(self):
-- 
2.43.0


From 16016b3531c167d8f6f338b1f0f57924deab066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 22/52] fix: unit-cube transform of parameters with
 hyperparameters

---
 enterprise/signals/signal_base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 257ae87..c1d6b1e 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -703,7 +703,18 @@ class PTA(object):
         # map parameter vector if needed
         params = params if isinstance(params, dict) else self.map_params(params)
 
-        return np.hstack([p.get_ppf(params=params) for p in self.params])
+        cube = {}
+
+        def transform(par):
+            if par.name not in cube:
+                # quantiles are conditioned on the transformed hyperparameters
+                for hyperpar in par.params[1:]:
+                    transform(hyperpar)
+                cube[par.name] = par.get_ppf(params[par.name], params=cube)
+
+            return cube[par.name]
+
+        return np.hstack([transform(p) for p in self.params])
 
     def _set_signal_dict(self):
         """Set signal dictionary"""
-- 
2.43.0


From 4075c46d1ed622b5cec62c13f915f7dbf2555a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 23/52] fix: Fourier bases accept a list of modes as documented

---
 enterprise/signals/gp_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index f924be1..bff45b1 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -49,7 +49,7 @@ def createfourierdesignmatrix_red(
     # define sampling frequencies
     if modes is not None:
         nmodes = len(modes)
-        f = modes
+        f = np.asarray(modes)
     elif fmin is None and fmax is None and not logf:
         # make sure partially overlapping sets of modes
         # have identical frequencies
-- 
2.43.0


From 8604bdb5e02572b1f8e1abe959bb223cf31eac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 24/52] fix: burst-with-memory delay modified an array argument

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e5984b7..5b2c9ef 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -742,7 +742,7 @@ def bwm_delay(toas, pos, log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t
     # convert
     h = 10**log10_h
     gwtheta = np.arccos(cos_gwtheta)
-    t0 *= const.day
+    t0 = t0 * const.day
 
     # antenna patterns
     if antenna_pattern_fn is None:
-- 
2.43.0


From ef5ac2c77c271de4fb03ccb22386a596e7ecd8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 25/52] fix: binary evolution functions modified array
 arguments

---
 enterprise/signals/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 5b2c9ef..669157e 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -371,7 +371,7 @@ def get_edot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dedt = -304 / (15 * mc) * (2 * np.pi * mc * F) ** (8 / 3) * e * (1 + 121 / 304 * e**2) / ((1 - e**2) ** (5 / 2))
 
@@ -390,7 +390,7 @@ def get_Fdot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dFdt = (
         48
@@ -416,7 +416,7 @@ def get_gammadot(F, mc, q, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     # total mass
     m = (((1 + q) ** 2) / q) ** (3 / 5) * mc
@@ -554,8 +554,8 @@ def get_an(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -589,8 +589,8 @@ def get_bn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -618,8 +618,8 @@ def get_cn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
-- 
2.43.0


From 28f7e3bb238240365046861658af3413a56e6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 26/52] fix: stabilized design matrix was NaN for columns of
 zeros

---
 enterprise/signals/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 669157e..86569e6 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -328,6 +328,7 @@ def create_stabletimingdesignmatrix(designmat, fastDesign=True):
     if fastDesign:
 
         norm = np.sqrt(np.sum(Mm**2, axis=0))
+        norm[norm == 0] = 1.0
         Mm /= norm
 
     else:
-- 
2.43.0


From b35a6a1fe0bf10b38660357d32d36c4146cffbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 27/52] fix: linear interpolation basis for TOAs that are all
 at the same time

---
 enterprise/signals/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 86569e6..c7bf70f 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -838,6 +838,10 @@ def linear_interp_basis(toas, dt=30 * 86400):
         M[idx, ii] = (toas[idx] - x[ii + 1]) / (x[ii] - x[ii + 1])
         M[idx, ii + 1] = (toas[idx] - x[ii]) / (x[ii + 1] - x[ii])
 
+    # with all TOAs at the same time there is one node and no interval
+    if len(x) == 1:
+        M[:, 0] = 1
+
     # only return non-zero columns
     idx = M.sum(axis=0) != 0
 
-- 
2.43.0


From b79bb2ddac4f48d22290152c0062c7ebc934d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 28/52] fix: filter_data left out or misordered some of the
 per-TOA data

---
 enterprise/pulsar.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ffac41a..6cd5ad4 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -142,10 +142,20 @@ class BasePulsar(object):
         else:
             mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
 
-        self._toas = self._toas[mask]
-        self._toaerrs = self._toaerrs[mask]
-        self._residuals = self._residuals[mask]
-        self._ssbfreqs = self._ssbfreqs[mask]
+        # the stored (unsorted) data, one entry or row per TOA
+        for attr in [
+            "_toas",
+            "_stoas",
+            "_toaerrs",
+            "_residuals",
+            "_ssbfreqs",
+            "_telescope",
+            "_pos_t",
+            "_planetssb",
+            "_sunssb",
+        ]:
+            if getattr(self, attr, None) is not None:
+                setattr(self, attr, getattr(self, attr)[mask])
 
         self._designmatrix = self._designmatrix[mask, :]
         dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
@@ -157,9 +167,6 @@ class BasePulsar(object):
             for key in self._flags:
                 self._flags[key] = self._flags[key][mask]
 
-        if self._planetssb is not None:
-            self._planetssb = self.planetssb[mask, :, :]
-
         self.sort_data()
 
     def to_feather(self, filename, noisedict=None):
-- 
2.43.0


From 91a2a31627f65b33a4af98f45eeb1b849dcb986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 29/52] fix: filter_data with only one end of the time window

---
 enterprise/pulsar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 6cd5ad4..c4f9bb5 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -137,10 +137,11 @@ class BasePulsar(object):
 
     def filter_data(self, start_time=None, end_time=None):
         """Filter data to create a time-slice of overall dataset."""
-        if start_time is None and end_time is None:
-            mask = np.ones(self._toas.shape, dtype=bool)
-        else:
-            mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
+        mask = np.ones(self._toas.shape, dtype=bool)
+        if start_time is not None:
+            mask = np.logical_and(mask, self._toas >= start_time * 86400)
+        if end_time is not None:
+            mask = np.logical_and(mask, self._toas <= end_time * 86400)
 
         # the stored (unsorted) data, one entry or row per TOA
         for attr in [
-- 
2.43.0


From dcf21ab3768ec4b42ff71301034f01ff1c4149d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 30/52] fix: filter_data dropped columns with zero sum and kept
 the names of dropped columns

---
 enterprise/pulsar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index c4f9bb5..3657571 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -159,8 +159,12 @@ class BasePulsar(object):
                 setattr(self, attr, getattr(self, attr)[mask])
 
         self._designmatrix = self._designmatrix[mask, :]
-        dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
+        # drop the parameters that no remaining TOA depends on
+        dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
+        for attr in ["fitpars", "designmatrix_units"]:
+            if getattr(self, attr, None) is not None:
+                setattr(self, attr, [par for par, keep in zip(getattr(self, attr), dmx_mask) if keep])
 
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
-- 
2.43.0


From fdda0ad81cb0e71ee57a274ae38b854f5eff13de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:09 +0000
Subject: [PATCH 31/52] fix: backend labels built from fe and be flags were cut
 to the width of the widest flag

---
 enterprise/pulsar.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 3657571..e1feccf 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -284,18 +284,18 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
-        # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([self._flags[name].dtype for name in flagnames]))
-
         # go through the flags in reverse order of preference
-        # setting or replacing values for each TOA
+        # setting or replacing values for each TOA (the labels can be wider than any flag)
 
         if "fe" in flagnames and "be" in flagnames:
-            ret[:] = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+            pairs = zip(self._flags["fe"], self._flags["be"])
+            ret = np.array([(a + "_" + b if (a and b) else "") for a, b in pairs], dtype="U")
+        else:
+            ret = np.full(len(self._toas), "", dtype="U")
 
         for flag in ["f", "i", "sys", "g", "group"]:
             if flag in flagnames:
-                ret[:] = np.where(self._flags[flag] == "", ret, self._flags[flag])
+                ret = np.where(self._flags[flag] == "", ret, self._flags[flag])
 
         return ret[self._isort]
 
-- 
2.43.0


From 51c7f6ffc3ace277b4e7bb8c0dd57034bb448e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 32/52] fix: saving pulsars to feather files

---
 enterprise/pulsar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index e1feccf..161bea5 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -743,8 +743,8 @@ class FeatherPulsar:
         return a.tolist() if isinstance(a, np.ndarray) else a
 
     def save_feather(self, filename, noisedict=None):
-        self._toas = self._toas.astype(float)
         pydict = {array: getattr(self, array) for array in FeatherPulsar.columns}
+        pydict["toas"] = self.toas.astype(float)
 
         pydict.update(
             {
@@ -766,9 +766,9 @@ class FeatherPulsar:
         pydict.update({f"flags_{flag}": self.flags[flag] for flag in self.flags})
 
         meta = {}
-        for attr in Pulsar.metadata:
+        for attr in FeatherPulsar.metadata:
             if hasattr(self, attr):
-                meta[attr] = Pulsar.to_list(getattr(self, attr))
+                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
             else:
                 print(f"Pulsar.save_feather: cannot find {attr} in Pulsar {self.name}.")
 
-- 
2.43.0


From d34cb7879c50d468423a93e8d145fb7009bba985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 33/52] fix: draws of sparse conditional coefficients ignored
 the fill-reducing permutation

---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index c7bf70f..0733a88 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -153,7 +153,8 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
-            Li = sps.linalg.inv(ch.L()).toarray().T
+            # Sigma = P^T L L^T P
+            Li = ch.apply_Pt(sps.linalg.inv(ch.L()).toarray().T)
         else:
             Sigma = sl.block_diag(*TNTs) + phiinvs
             TNr = np.concatenate(TNrs)
-- 
2.43.0


From e505189a2d3047563fb159e5ec0a943213ebfec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 34/52] fix: covariance of the coefficient draws when the SVD
 does not converge

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 0733a88..7aca935 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -201,7 +201,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 Sigi = sl.solve(R, Q.T)
                 mn = np.dot(Sigi, d)
                 u, s, _ = sl.svd(Sigi)
-                Li = u * np.sqrt(1 / s)
+                Li = u * np.sqrt(s)
 
             for j in range(n):
                 b = mn + (np.dot(Li, np.random.randn(Li.shape[0])) if variance else 0)
-- 
2.43.0


From 45c0022b9df45800f8b378f3d9829d8a71b3d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 35/52] fix: coefficients of common processes left out or
 misattributed without correlated pulsars

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 7aca935..bcdda66 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -208,7 +208,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 pardict, ntot = {}, 0
                 for sig in model._signals:
-                    if sig.signal_type == "basis":
+                    if sig.signal_type in ["basis", "common basis"]:
                         nb = sig.get_basis(params=params).shape[1]
 
                         if nb + ntot > len(b):
-- 
2.43.0


From 1d32cff15dcd454c11c7ee39a8906f5add6ac2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 36/52] fix: conditional coefficients for arrays with pulsars
 without processes

---
 enterprise/signals/utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index bcdda66..89e1d44 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -54,6 +54,10 @@ class ConditionalGP:
 
         # TO DO: all this could be more efficient
         #        also it's unclear if it works with MarginalizingTimingModel
+        # pulsars without GPs have no coefficients
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if self.pta._commonsignals:
             TNr = np.concatenate(TNrs)
             Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
@@ -64,7 +68,7 @@ class ConditionalGP:
             return ch, mn
         else:
             mns, chs = [], []
-            for TNr, TNT, phiinv in zip(TNrs, TNTs, phiinvs):
+            for TNr, TNT, phiinv in zip(TNrs, TNTs, [phiinv for phiinv in phiinvs if phiinv is not None]):
                 Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
                 ch = sl.cho_factor(Sigma, lower=True)
@@ -147,6 +151,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
     # ...repeated code in the two if branches... refactor at will!
     if pta._commonsignals:
+        # pulsars without GPs have no coefficients
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if common_sparse:
             Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
             TNr = np.concatenate(TNrs)
@@ -190,6 +198,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
         for i, model in enumerate(pta.pulsarmodels):
             phiinv, d, TNT = phiinvs[i], TNrs[i], TNTs[i]
 
+            # pulsars without GPs have no coefficients
+            if TNT is None:
+                continue
+
             Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
             try:
-- 
2.43.0


From 1cf349922e8fa88ec5631bddbdb7c36ada607d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 37/52] fix: wideband timing model refuses TOAs covered by two
 DMX bins when another one is uncovered

---
 enterprise/signals/gp_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a504a41..f75d6e3 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -627,7 +627,7 @@ def WidebandTimingModel(
 
                 check += self._dmwhich[-1]
 
-            if np.sum(check) != self._ntoas:
+            if np.any(check != 1):
                 raise ValueError("WidebandTimingModel: cannot account for all TOAs in DMX intervals.")
 
             if "DM" in psr.fitpars:
-- 
2.43.0


From 4ee1140809a9ea795c741afbef2bcf4bfed11be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 38/52] fix: adding an array to a single pulsar model joins
 them

---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index c1d6b1e..95ea34f 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -808,7 +808,10 @@ def SignalCollection(metasignals):  # noqa: C901
             self._set_cache_parameters()
 
         def __add__(self, other):
-            return PTA([self, other])
+            if hasattr(other, "_signalcollections"):
+                return PTA([self] + other._signalcollections, lnlikelihood=other.lnlikelihood)
+            else:
+                return PTA([self, other])
 
         # TODO: this could be implemented more cleanly
         def _set_cache_parameters(self):
-- 
2.43.0


From 58bc5dbf292044d90319dd617b5d562241001b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 39/52] fix: take B1950 coordinates only for B names, not for J
 names with a B suffix (J1748-2446B)

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 161bea5..ddd40fc 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -97,7 +97,7 @@ class BasePulsar(object):
             ec = Ecliptic(elong, elat)
 
             # check for B name
-            if "B" in self.name:
+            if self.name.startswith("B"):
                 epoch = "1950"
             else:
                 epoch = "2000"
-- 
2.43.0


From 6fe9042fb8935dad1acbfcaa39a2e1dedc768a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 40/52] fix: report DMX parameters of tempo2 pulsars as fitted
 only when they are

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ddd40fc..79a4d99 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -575,7 +575,7 @@ class Tempo2Pulsar(BasePulsar):
                 "DMXerr": float(t2pulsar[par].err),
                 "DMXR1": float(t2pulsar[par[:3] + "R1" + par[3:]].val),
                 "DMXR2": float(t2pulsar[par[:3] + "R2" + par[3:]].val),
-                "fit": par in pars,
+                "fit": par in self.fitpars,
             }
             for par in pars
             if "DMX_" in par
-- 
2.43.0


From 495a184a85fcdd211f577abb063baaa5225b1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 41/52] fix: report frozen DMX parameters of PINT pulsars too
 (as not fitted)

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 79a4d99..87f87e5 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -431,7 +431,7 @@ class PintPulsar(BasePulsar):
                 "DMXR2": float(model[par[:3] + "R2" + par[3:]].value),
                 "fit": par in pars,
             }
-            for par in pars
+            for par in model.params
             if "DMX_" in par
         }
 
-- 
2.43.0


From f0b989734ca41dfafe189e6c8ce86bcab6ab725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 42/52] fix: count the TOAs of tim files that also INCLUDE
 others

---
 enterprise/pulsar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 87f87e5..c8db8de 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -60,11 +60,11 @@ def get_maxobs(timfile):
     with open(timfile) as tfile:
         flines = tfile.readlines()
         lines = [ln for ln in flines if not ln.startswith("C")]
-        if any(["INCLUDE" in ln for ln in lines]):
-            for line in [ln for ln in lines if "INCLUDE" in ln]:
+        for line in lines:
+            if "INCLUDE" in line:
                 maxobs += get_maxobs(line.split()[-1])
-        else:
-            maxobs = sum(1 for line in lines if line.rstrip("\n"))
+            elif line.rstrip("\n"):
+                maxobs += 1
     return maxobs
 
 
-- 
2.43.0


From 95fd5e7018ec18b3d75f9693103f997187414d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 43/52] fix: count the fixed parameters in the PTA summary also
 when they are not listed

---
 enterprise/signals/signal_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 95ea34f..4de3ffb 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -771,12 +771,11 @@ class PTA(object):
                 if "BasisGP" in sig.__class__.__name__:
                     summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(sig.get_basis().shape))
                     summary += "\nN selected toas: {}\n".format(str(len([i for i in sig._masks[0] if i])))
+                copcount += sum(isinstance(par, ConstantParameter) for par in sig._params.values())
                 if include_params:
                     summary += "\n"
                     summary += "params:\n"
                     for par in sig._params.values():
-                        if isinstance(par, ConstantParameter):
-                            copcount += 1
                         summary += "{!s: <90}\n".format(par.__repr__())
                 summary += "_" * 90 + "\n"
         summary += "=" * 90 + "\n"
-- 
2.43.0


From 8c2cbb5d9b608c5eb267cd8ea3ee7035bf772e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 44/52] fix: summarize arrays that include processes with
 explicit coefficients

---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 4de3ffb..0c19c92 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -769,7 +769,10 @@ class PTA(object):
                 row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
                 if "BasisGP" in sig.__class__.__name__:
-                    summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(sig.get_basis().shape))
+                    basis = sig.get_basis()
+                    # processes with explicit coefficients are delays and have no basis here
+                    if basis is not None:
+                        summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(basis.shape))
                     summary += "\nN selected toas: {}\n".format(str(len([i for i in sig._masks[0] if i])))
                 copcount += sum(isinstance(par, ConstantParameter) for par in sig._params.values())
                 if include_params:
-- 
2.43.0


From 3adf6805c461e0000df423efb1f38e1d289c5ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 45/52] fix: pulsars without planet positions (planets=False)
 can be saved and restored, and show None for them

---
 enterprise/pulsar.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index c8db8de..d822ad2 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -322,12 +322,12 @@ class BasePulsar(object):
     @property
     def planetssb(self):
         """Return planetary position vectors at all timestamps"""
-        return self._planetssb[self._isort, :, :]
+        return None if self._planetssb is None else self._planetssb[self._isort, :, :]
 
     @property
     def sunssb(self):
         """Return sun position vector at all timestamps"""
-        return self._sunssb[self._isort, :]
+        return None if self._sunssb is None else self._sunssb[self._isort, :]
 
     @property
     def telescope(self):
@@ -710,16 +710,15 @@ class FeatherPulsar:
 
         for array in FeatherPulsar.vector_columns:
             cols = [c for c in f.column_names if c.startswith(array)]
-            setattr(self, array, np.array([f[col].to_numpy() for col in cols]).swapaxes(0, 1).copy())
+            # arrays that the pulsar did not have (see planets=False) are not in the file
+            value = np.array([f[col].to_numpy() for col in cols]).swapaxes(0, 1).copy() if cols else None
+            setattr(self, array, value)
 
         for array in FeatherPulsar.tensor_columns:
             rows = sorted(set(["_".join(c.split("_")[:-1]) for c in f.column_names if c.startswith(array)]))
             cols = [[c for c in f.column_names if c.startswith(row)] for row in rows]
-            setattr(
-                self,
-                array,
-                np.array([[f[col].to_numpy() for col in row] for row in cols]).swapaxes(0, 2).swapaxes(1, 2).copy(),
-            )
+            value = np.array([[f[col].to_numpy() for col in row] for row in cols]) if cols else None
+            setattr(self, array, None if value is None else value.swapaxes(0, 2).swapaxes(1, 2).copy())
 
         self.flags = {}
         for array in [c for c in f.column_names if c.startswith("flags_")]:
@@ -750,6 +749,7 @@ class FeatherPulsar:
             {
                 f"{array}_{i}": getattr(self, array)[:, i]
                 for array in FeatherPulsar.vector_columns
+                if getattr(self, array) is not None
                 for i in range(getattr(self, array).shape[1])
             }
         )
@@ -758,6 +758,7 @@ class FeatherPulsar:
             {
                 f"{array}_{i}_{j}": getattr(self, array)[:, i, j]
                 for array in FeatherPulsar.tensor_columns
+                if getattr(self, array) is not None
                 for i in range(getattr(self, array).shape[1])
                 for j in range(getattr(self, array).shape[2])
             }
-- 
2.43.0


From 373313e6c9e2e09532e4142f3c90f27a743cdbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 46/52] fix: tempo2 pulsars with a single TOA lost the array
 shape of their data

---
 enterprise/pulsar.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index d822ad2..a32f980 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -510,13 +510,13 @@ class Tempo2Pulsar(BasePulsar):
         self.planets = planets
         self.name = str(t2pulsar.name)
 
-        self._toas = np.double(t2pulsar.toas()) * 86400
+        self._toas = np.array(t2pulsar.toas(), dtype="float64") * 86400
         # saving also stoas (e.g., for DMX comparisons)
-        self._stoas = np.double(t2pulsar.stoas) * 86400
-        self._residuals = np.double(t2pulsar.residuals())
-        self._toaerrs = np.double(t2pulsar.toaerrs) * 1e-6
-        self._designmatrix = np.double(t2pulsar.designmatrix())
-        self._ssbfreqs = np.double(t2pulsar.ssbfreqs()) / 1e6
+        self._stoas = np.array(t2pulsar.stoas, dtype="float64") * 86400
+        self._residuals = np.array(t2pulsar.residuals(), dtype="float64")
+        self._toaerrs = np.array(t2pulsar.toaerrs, dtype="float64") * 1e-6
+        self._designmatrix = np.array(t2pulsar.designmatrix(), dtype="float64")
+        self._ssbfreqs = np.array(t2pulsar.ssbfreqs(), dtype="float64") / 1e6
         self._telescope = np.char.decode(t2pulsar.telescope(), encoding="ascii")
 
         # fitted parameters
-- 
2.43.0


From d68f3717022ddbc40dcb878616ab03c5a2e517da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 47/52] fix: evaluate nested functions on the selected TOAs

---
 enterprise/signals/parameter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index ac1879d..0b6a6f1 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -557,6 +557,9 @@ def Function(func, name="", **func_kwargs):
                         f = self._funcs[kw]
                         fargs = {par: val for par, val in callargs.items() if par in f.func_kwargs}
                         fargs["params"] = params
+                        # nested functions see the same selection of TOAs
+                        if "mask" in callargs:
+                            fargs["mask"] = callargs["mask"]
                         kwargs[kw] = f(**fargs)
 
             # pass our pulsar if we have one
-- 
2.43.0


From 77330c19fdef01ed60419b7438009c881d54baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 48/52] fix: share empty arrays (no flags, no columns) of
 pulsars with other processes

---
 enterprise/pulsar_inflate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index fda5fc6..fd81667 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -37,7 +37,8 @@ class PulsarInflater:
     def __init__(self, array):
         self.dtype, self.shape, self.nbytes = array.dtype, array.shape, array.nbytes
 
-        shm = shared_memory.SharedMemory(create=True, size=array.nbytes)
+        # empty arrays (no flags, no columns) need a block too
+        shm = shared_memory.SharedMemory(create=True, size=max(array.nbytes, 1))
         self.shmname = shm.name
 
         # shm.buf[:array.nbytes] = array.view(dtype='uint8').flatten()
-- 
2.43.0


From 736e183aa33fd3e8c73c7712a30c8bc0736c362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 49/52] fix: common process with a given coefficient vector
 follows the vector whatever its name

---
 enterprise/signals/gp_signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index f75d6e3..6b7a5b0 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -357,7 +357,8 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
 
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # a given coefficient vector can have any name
+                return [par.name for par in self._coefficients.values()]
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From d7123b7fdd9c857bb4f754d7b65f7249afcd8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 50/52] fix: a failed evaluation leaves cached bases and other
 cached values as they were

---
 enterprise/signals/gp_signals.py  | 6 ++++--
 enterprise/signals/signal_base.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 6b7a5b0..cf27987 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -95,10 +95,12 @@ def BasisGP(
         # than the last time
         @signal_base.cache_call("basis_params", limit=1)
         def _construct_basis(self, params={}):
-            basis, self._labels = {}, {}
+            # keep the current state if this fails, since it remains cached
+            basis, labels = {}, {}
             for key, mask in zip(self._keys, self._masks):
-                basis[key], self._labels[key] = self._bases[key](params=params, mask=mask)
+                basis[key], labels[key] = self._bases[key](params=params, mask=mask)
 
+            self._labels = labels
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((len(self._masks[0]), nc))
 
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 0c19c92..3026d34 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1111,8 +1111,9 @@ def cache_call(attrs, limit=2):
                 msg = "Setting cache for {} in {}: {}".format(attrs, self.__class__, key)
                 logger.debug(msg)
 
-                cache_list.append(key)
+                # a failed evaluation must not leave its key behind
                 cache[key] = func(self, params)
+                cache_list.append(key)
 
                 if len(cache_list) > limit:
                     _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
-- 
2.43.0


From 899da4d9e5cda188eb5cb01fef94030e155dd72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 51/52] fix: conditional draws of models with explicit
 coefficients

---
 enterprise/signals/utils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 89e1d44..d8d47ed 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -102,6 +102,11 @@ class ConditionalGP:
                         continue
 
                     sb = sig.get_basis(params=params)
+
+                    # explicit coefficients are not drawn
+                    if sb is None:
+                        continue
+
                     nb = sb.shape[1]
 
                     if nb + ntot > len(b):
@@ -178,7 +183,13 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
             for i, model in enumerate(pta.pulsarmodels):
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        basis = sig.get_basis(params=params)
+
+                        # explicit coefficients are not drawn
+                        if basis is None:
+                            continue
+
+                        nb = basis.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
@@ -221,7 +232,13 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 pardict, ntot = {}, 0
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        basis = sig.get_basis(params=params)
+
+                        # explicit coefficients are not drawn
+                        if basis is None:
+                            continue
+
+                        nb = basis.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
-- 
2.43.0


From 202a6dcfe2abddc3ef02b9bf6ce6a999491c475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 52/52] fix: conditional draws of arrays without any process to
 draw

---
 enterprise/signals/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index d8d47ed..80e5382 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -80,6 +80,10 @@ class ConditionalGP:
     def _sample_conditional(self, params, n=1, gp=False, variance=True):
         ch, mn = self._make_conditional(params)
 
+        # no pulsar has GPs to draw
+        if len(mn) == 0:
+            return [{} for j in range(n)]
+
         ret = []
         for j in range(n):
             # since Sigma = L L^T, Sigma^-1 = L^-T L^-1
@@ -253,6 +257,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 ret[j].update(pardict)
 
+        # no pulsar has GPs to draw
+        if not ret:
+            ret = [params.copy() for j in range(n)]
+
         return ret[0] if n == 1 else ret
 
 
-- 
2.43.0

