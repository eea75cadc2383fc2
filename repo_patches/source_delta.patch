From 17a77aaaf1fb4026a52e8787e2251d66a4da69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 01/29] fix: StructureFunction sets H to None when 2 is not in
 q

As documented; it raised IndexError, so wavelet_analysis crashed for every
p_exp other than 2 and mf_analysis for every q without 2.
---
 pymultifracs/structurefunction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 53ac51b..86b85dd 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -123,6 +123,9 @@ class StructureFunction(MultiResolutionQuantityBase):
             self.intercept[ind_q] = intercept
 
     def _get_H(self):
+        if not np.any(self.q == 2):
+            return None
+
         return (self.zeta[self.q == 2][0] / 2) - self.gamint
 
     def get_intercept(self):
-- 
2.43.0


From 966699932b36cb0410170b3c553a416a9d20f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 02/29] fix: StructureFunction sets its documented values and
 nj attributes

compute_hurst and Signal.hurst read values and raised AttributeError.
---
 pymultifracs/structurefunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 86b85dd..139a2bd 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -76,6 +76,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
+        self.nj = mrq.nj
         self.nrep = mrq.nrep
         self.j = np.array(list(mrq.values))
 
@@ -97,6 +98,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             values[:, ind_j, :] = s_j
 
+        self.values = values
         self.logvalues = np.log2(values)
 
     def _compute_zeta(self, mrq):
-- 
2.43.0


From bbb6f742b93558f6aa3e9161992b96ad2615b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 03/29] fix: return uncorrected p-leaders when eta_p <= 0
 instead of crashing

---
 pymultifracs/wavelet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 661f6c9..5a67f37 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -52,7 +52,7 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-        return wt_leaders
+        return wt_leaders, eta_p
 
     JJ = np.arange(1, max_level + 1)
     J1LF = 1
-- 
2.43.0


From ca5674275387ca069136b3b0c4b685ace63e875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 04/29] fix: minimal_mf_analysis accepts its default q, lists
 and missing leaders

---
 pymultifracs/mfa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index 697053c..76e7322 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -154,6 +154,9 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     if q is None:
         q = [2]
 
+    if isinstance(q, list):
+        q = np.array(q)
+
     parameters = {
         'q': q,
         'n_cumul': n_cumul,
@@ -165,6 +168,9 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     dwt_struct = StructureFunction.from_dict({'mrq': wt_coefs, **parameters})
     dwt = MFractalVar(dwt_struct, None, None, None)
 
+    if wt_leaders is None:
+        return MFractalData(dwt, None)
+
     lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
     lwt = MFractalVar(None, lwt_cumul, None, None)
 
-- 
2.43.0


From e76bbef43b8ccdb8956726a48c2e505f7b007707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 05/29] fix: bivariate_analysis returns lwt=None without
 leaders instead of crashing

---
 pymultifracs/bivariate/bimfa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 7c983b1..0259264 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -38,6 +38,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
         lwt = MFractalBiVar(lwt_bisf, lwt_bicm)
 
+    else:
+
+        lwt = None
+
     return MFractalData(dwt, lwt)
 
 
-- 
2.43.0


From ca60f93ec071e174e0f2d7e05f7b21df91635682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 06/29] fix: bivariate analysis accepts its default exponents
 and lists

---
 pymultifracs/bivariate/bimfa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 0259264..5df00e7 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -1,5 +1,7 @@
 from collections import namedtuple
 
+import numpy as np
+
 from ..mfa import MFractalData
 from ..wavelet import wavelet_analysis
 from .bivariate_cumulants import BiCumulants
@@ -12,6 +14,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
     j2 = min(WT1.j2_eff, WT2.j2_eff)
 
+    # The default exponents are the ones needed to compute the coherence
+    q1 = np.array([0, 1, 2] if q1 is None else q1)
+    q2 = np.array([0, 1, 2] if q2 is None else q2)
+
     parameters = {
         'q1': q1,
         'q2': q2,
-- 
2.43.0


From 1846cfa7d00c8af242244f18f1a0b9926aee7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 07/29] fix: BiStructureFunction sets coherence to None when
 q1, q2 lack 0, 1 or 2

It raised IndexError, so no other exponents could be analysed.
---
 pymultifracs/bivariate/bivariate_structurefunction.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index e9b5169..eb49248 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -65,9 +65,14 @@ class BiStructureFunction(MultiResolutionQuantityBase):
                         np.nanmean(fast_power(np.abs(mrq1.values[j]), q1)
                                    * fast_power(np.abs(mrq2.values[j]), q2))
 
-        self.coherence = (values[self.q1 == 1, self.q2 == 1][0]
-                          / np.sqrt((values[self.q1 == 2, self.q2 == 0])
-                                    * (values[self.q1 == 0, self.q2 == 2])))[0]
+        if all(np.any(q == val) for q in (self.q1, self.q2)
+               for val in (0, 1, 2)):
+            self.coherence = (values[self.q1 == 1, self.q2 == 1][0]
+                              / np.sqrt((values[self.q1 == 2, self.q2 == 0])
+                                        * (values[self.q1 == 0,
+                                                  self.q2 == 2])))[0]
+        else:
+            self.coherence = None
 
         self.logvalues = np.log2(abs_values)
 
-- 
2.43.0


From 8c677af2130c796d948fc074d93a8a74bff5ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 08/29] fix: BiCumulants sets rho to None when second order
 cumulants are absent

---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 6190d66..1898f82 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -133,7 +133,7 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def _compute_rho(self):
 
-        if self.formalism == 'wavelet coef':
+        if self.formalism == 'wavelet coef' or self.n_cumul < 2:
             self.RHO_MF = None
             self.rho_mf = None
         else:
-- 
2.43.0


From d643d7accf760dc34b0a4418b1705f9ec724c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 09/29] fix: gaussian_chol uses the lower Cholesky factor

scipy returns the upper factor U by default, and U @ z has covariance
U U^T, not the requested U^T U.
---
 pymultifracs/simul/pzutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/pzutils.py b/pymultifracs/simul/pzutils.py
index 6f620d6..50bd86e 100644
--- a/pymultifracs/simul/pzutils.py
+++ b/pymultifracs/simul/pzutils.py
@@ -51,6 +51,6 @@ def gaussian_chol(cov, N, R, z=None):
     '''
     if z is None:
         z = np.random.randn(N, R)
-    L = spla.cholesky(spla.toeplitz(cov))
+    L = spla.cholesky(spla.toeplitz(cov), lower=True)
     x = L @ z
     return x
-- 
2.43.0


From 46c5860f4ca3d048230bb140c20ecc7735d54f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 10/29] fix: fgn passes z0 to the circulant embedding method

It was silently ignored, also in mrw(z0=...).
---
 pymultifracs/simul/fbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/fbm.py b/pymultifracs/simul/fbm.py
index 4921210..813614a 100644
--- a/pymultifracs/simul/fbm.py
+++ b/pymultifracs/simul/fbm.py
@@ -65,7 +65,7 @@ def fgn(shape, H, sigma=1, dt=None, method='cme', z0=None):
     # fbm = np.cumsum(x[:N, :], axis=0)
 
     if method == 'cme':
-        fgn = gaussian_cme(r, N, R)
+        fgn = gaussian_cme(r, N, R, z0)
     elif method == 'chol':
         fgn = gaussian_chol(r, N, R, z0)
     else:
-- 
2.43.0


From ef078875f1f1fee96f4b66fee1d89ced09574c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 11/29] fix: skewed_mrw draws 2N increments, as
 skewness_convolution expects

2N+1 made the convolution raise ValueError for every call.
---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index f70fc4d..70069d0 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -137,7 +137,7 @@ def skewed_mrw(shape, H, lam, L,  K0=1, alpha=1, sigma=1, dt=1, beta=1,
     w = w - np.mean(w, axis=0) - r * lam**2 * np.log(L / dt)
 
     # 2) fGn e
-    e = fgn((2*N + 1, R), H, sigma, dt)
+    e = fgn((2*N, R), H, sigma, dt)
 
     # 3) Correlate components
     past = skewness_convolution(e, K0, alpha, beta, dt)
-- 
2.43.0


From 3511ab3944cdbdf82ab69b0d2d70abaf8c1c5665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 12/29] fix: welch_estimation frequency axis for odd n_fft

---
 pymultifracs/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 174c06f..9879950 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -207,7 +207,7 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
         n_fft = seg_size
 
     # Frequency
-    freq = fs * np.linspace(0, 0.5, n_fft // 2 + 1)
+    freq = fs * np.arange(n_fft // 2 + 1) / n_fft
 
     # PSD
     _, psd = welch(signal,
-- 
2.43.0


From e4d0ec3f0cb1563f40e6139875d450b3a8f4d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 13/29] fix: welch_estimation accepts signals shorter than a
 segment

The overlap was computed from the requested segment size and scipy
rejected it, e.g. for the default n_fft and 1024 samples.
---
 pymultifracs/psd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 9879950..5d67f40 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -206,6 +206,9 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
     if n_fft < seg_size:
         n_fft = seg_size
 
+    # Segments can not be longer than the signal
+    seg_size = min(seg_size, len(signal))
+
     # Frequency
     freq = fs * np.arange(n_fft // 2 + 1) / n_fft
 
-- 
2.43.0


From ed91f93659e40d2cf8ec5bc44a80cb02959b9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 14/29] fix: estimate_beta accepts bands containing the zero
 frequency

---
 pymultifracs/fractal_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index af1b8a4..2ea2afa 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -127,7 +127,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
     # Band-pass the PSD
 
     support = np.logical_and(freq_band[0] <= freq, freq <= freq_band[1])
-    freq = freq[support].reshape(-1, 1)
+    freq = freq[support]
     psd = psd[support]
 
 # Move this input sanitization to the megfractal package instead
@@ -137,6 +137,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
 
     # Log the values
     freq, psd = _log_psd(freq, psd, log)
+    freq = freq.reshape(-1, 1)
 
     # Fit ridge regressor
     # regressor = Ridge()
-- 
2.43.0


From 14160d0219fb13e9882716a1163a01468095d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 15/29] fix: Signal.estimate_wavelet_psd stores its parameters
 in wt_psd_param

They overwrote those of the wavelet analysis, so that hurst, hmin and
mf_analysis failed afterwards. They are now stored once the PSD has been
computed, so that a failed call does not relabel the previous PSD.
---
 pymultifracs/signal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 53cde98..5b672e7 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,11 +113,10 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_param = param
-
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
                                              j2=j2)
+            self.wt_psd_param = param
 
         return self.wt_psd
 
-- 
2.43.0


From e0cd6e96e153ef51dfd95c2f0ac7199de28e8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 16/29] fix: Signal does not relabel cached results when a
 computation fails

After a failing call, repeating it returned the previous result, computed
for other parameters.
---
 pymultifracs/signal.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 5b672e7..1b3191a 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -126,11 +126,10 @@ class Signal:
 
         if self.welch_psd is None or self.welch_param != param:
 
-            self.welch_param = param
-
             self.welch_psd = welch_estimation(self.data, self.fs,
                                               n_fft=n_fft,
                                               seg_size=seg_size)
+            self.welch_param = param
 
         return self.welch_psd
 
@@ -174,9 +173,9 @@ class Signal:
 
         if self.wt_param is None or self.wt_param != new_param:
 
-            self.wt_param = new_param
             self.wt_transform = wavelet_analysis(self.data,
-                                                 **self.wt_param._asdict())
+                                                 **new_param._asdict())
+            self.wt_param = new_param
 
         return self.wt_transform
 
-- 
2.43.0


From 4e1b8965801effbd21850ecd686cb3e6eb4a63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 17/29] fix: Signal.mf_analysis

It passed arguments mf_analysis does not take (every call raised
TypeError), did not return saved results, returned results of outdated
wavelet transforms, let unsaved calls change the parameters of the saved
result, and failed to compare q arrays of different lengths or types.
---
 pymultifracs/signal.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 1b3191a..24c96ee 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -39,9 +39,9 @@ def same_params(old_params, new_params):
         new_param = getattr(new_params, param)
 
         if (isinstance(old_param, np.ndarray)
-           or isinstance(new_params, np.ndarray)):
+           or isinstance(new_param, np.ndarray)):
 
-            same = (old_param == new_param).all()
+            same = np.array_equal(old_param, new_param)
 
         else:
 
@@ -177,6 +177,10 @@ class Signal:
                                                  **new_param._asdict())
             self.wt_param = new_param
 
+            # The multifractal analysis of the previous transform is outdated
+            self.mf_param = None
+            self.multi_fractal = None
+
         return self.wt_transform
 
     def wavelet_analysis(self, j1, j2, normalization, gamint, weighted,
@@ -224,16 +228,16 @@ class Signal:
 
         self._check_wt_transform()
 
-        new_param = MFParameters(q, n_cumul)
+        # q is copied since the caller may modify it later on
+        new_param = MFParameters(np.array(q), n_cumul)
 
         if self.multi_fractal is None or not(same_params(self.mf_param,
                                                          new_param)):
 
-            self.mf_param = new_param
-
             multi_fractal = mf_analysis(
-                **self.wt_transform._asdict(),
-                p_exp=self.wt_param.p_exp,
+                self.wt_transform.wt_coefs,
+                self.wt_transform.wt_leaders,
+                self.wt_transform.j2_eff,
                 j1=self.wt_param.j1,
                 weighted=self.wt_param.weighted,
                 q=q,
@@ -241,9 +245,12 @@ class Signal:
             )
 
             if save:
+                self.mf_param = new_param
                 self.multi_fractal = multi_fractal
 
-        return multi_fractal
+            return multi_fractal
+
+        return self.multi_fractal
 
     def hurst(self):
         # TODO store Hurst exponent
-- 
2.43.0


From bc90875c60a8aaf985e02c1fd13747bbf3bb22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 18/29] fix: structure function and cumulant plots

Panels were laid out for the exponents without q=0 but indexed with it
(IndexError or misplaced panels), and plotting a second time failed since
matplotlib refuses to reuse the figure.
---
 pymultifracs/cumulants.py         | 3 ++-
 pymultifracs/structurefunction.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/cumulants.py b/pymultifracs/cumulants.py
index e5adbee..042dbf1 100644
--- a/pymultifracs/cumulants.py
+++ b/pymultifracs/cumulants.py
@@ -186,7 +186,8 @@ class Cumulants(MultiResolutionQuantityBase):
         fig, axes = plt.subplots(plot_dim_1,
                                  plot_dim_2,
                                  num=fignum,
-                                 squeeze=False)
+                                 squeeze=False,
+                                 clear=True)
 
         fig.suptitle(self.formalism + r' - cumulants $C_m(j)$')
 
diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 139a2bd..4007b6e 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -159,12 +159,14 @@ class StructureFunction(MultiResolutionQuantityBase):
                                  plot_dim_2,
                                  num=figlabel,
                                  squeeze=False,
+                                 clear=True,
                                  figsize=figsize)
 
         fig.suptitle(self.formalism +
                      r' - structure functions $\log_2(S(j,q))$')
 
         x = self.j
+        ind_ax = 0
         for ind_q, q in enumerate(self.q):
 
             if q == 0.0 and ignore_q0:
@@ -172,7 +174,8 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             y = self.logvalues[ind_q, :]
 
-            ax = axes[ind_q % nrow][ind_q // nrow]
+            ax = axes[ind_ax % nrow][ind_ax // nrow]
+            ind_ax += 1
             ax.plot(x, y, 'r--.')
             ax.set_xlabel('j')
             ax.set_ylabel(f'q = {q:.3f}')
@@ -191,7 +194,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                         linestyle='-', linewidth=2, label=legend)
                 ax.legend()
 
-        for j in range(ind_q + 1, len(axes.flat)):
+        for j in range(ind_ax, len(axes.flat)):
             fig.delaxes(axes[j % nrow][j // nrow])
         plt.draw()
 
-- 
2.43.0


From c76c08e876744af2551b465c4f1fa625c48546b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 19/29] fix: plot_hmin

Every call failed: missing return_y, a map passed to matplotlib and an
invalid format of the legend.
---
 pymultifracs/estimation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/estimation.py b/pymultifracs/estimation.py
index a4f7b89..9157111 100644
--- a/pymultifracs/estimation.py
+++ b/pymultifracs/estimation.py
@@ -52,7 +52,8 @@ def estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn=True,
 
 def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
-    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn)
+    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn,
+                                       return_y=True)
     x = np.arange(j1, j2_eff+1)
 
     # plot log_sup_coeffs
@@ -68,9 +69,9 @@ def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
     # plot regression line
     reg_x = [j1, j2_eff]
-    reg_y = map(lambda x: hmin*x + intercept, reg_x)
+    reg_y = [hmin*x + intercept for x in reg_x]
 
-    legend = f'$h_\\mathrm{min}$ = {hmin:.5f}'
+    legend = f'$h_\\mathrm{{min}}$ = {hmin[0]:.5f}'
     plt.plot(reg_x, reg_y, color='k', linestyle='-', linewidth=2, label=legend)
     plt.legend()
     plt.draw()
-- 
2.43.0


From 90c7e23cfad14ceeca1fd8683514d6ffca314301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 20/29] fix: plot_fractal legend

The slope of the wavelet PSD is an array of one element, which can not be
formatted with .2f.
---
 pymultifracs/fractal_analysis.py | 2 +-
 pymultifracs/signal.py           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index 2ea2afa..cb0da5f 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -59,7 +59,7 @@ def plot_fractal(signal, s_freq, log='log2', freq_band=(0.01, 2), n_moments=2,
     # Plot
     freq = [freq_fourier, freq_wavelet]
     psd = [psd_fourier, psd_wavelet]
-    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta:.2f}']
+    legend = ['Fourier', 'Wavelet', f'Slope: {np.ravel(slope.beta)[0]:.2f}']
 
     log_plot(freq, psd, legend, slope=[(slope.freq, psd_slope)], log=log,
              lowpass_freq=lowpass_freq)
diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 24c96ee..5cd11a5 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -154,7 +154,8 @@ class Signal:
 
         log_plot([self.welch_psd.freq, self.wt_psd.freq],
                  [self.welch_psd.psd, self.wt_psd.psd],
-                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta:.2f}'],
+                 ['Fourier', 'Wavelet',
+                  f'Slope: {np.ravel(self.fractal.beta)[0]:.2f}'],
                  slope=[(self.fractal.freq, psd_slope)],
                  log=self.log)
 
-- 
2.43.0


From 718108b15538c788f99feabf15001df35b71d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 21/29] fix: bivariate plots

Single-row layouts and the 3D axes raised errors, and the legend of c11
showed the natural-log slope while all others show log-cumulants.
---
 pymultifracs/bivariate/bivariate_cumulants.py         | 7 ++++---
 pymultifracs/bivariate/bivariate_structurefunction.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 1898f82..989e2ee 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -142,7 +142,8 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def plot(self):
 
-        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, figsize=(12, 7))
+        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, figsize=(12, 7),
+                                 squeeze=False)
 
         j_support = np.arange(self.j1, self.j2 + 1)
 
@@ -187,7 +188,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         plt.plot(j_support, ((j_support * self.slope[1, 1])
                              + self.intercept[1, 1]),
                  **slope_param,
-                 label=f'c11: {self.slope[1, 1]:.2f}')
+                 label=f'c11: {self.log_cumulants[1, 1]:.2f}')
         plt.legend()
         plt.ylabel('$C11$(j)', size='large')
         plt.xlabel('j', size='large')
@@ -245,7 +246,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         cmap = cmap or plt.cm.coolwarm  # pylint: disable=no-member
 
         fig = plt.figure(figsize=(10, 10))
-        ax = fig.gca(projection='3d')
+        ax = fig.add_subplot(projection='3d')
 
         h_x = h[L.max(axis=0) >= 0]
         h_y = h[L.max(axis=1) >= 0]
diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index eb49248..72520ed 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -105,7 +105,8 @@ class BiStructureFunction(MultiResolutionQuantityBase):
 
         fig, ax = plt.subplots(len(self.q1), len(self.q2), sharex=True,
                                figsize=(len(self.q1) * 5 + 2,
-                                        len(self.q2) * 3 + 2))
+                                        len(self.q2) * 3 + 2),
+                               squeeze=False)
 
         j_support = np.arange(self.j1, self.j2+1)
 
-- 
2.43.0


From 88276a74dce4c7492c6639e8642501f4b4bd7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 22/29] fix: plot_legendre passes edgecolors twice to recent
 matplotlib

---
 pymultifracs/bivariate/bivariate_cumulants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 989e2ee..a53a84c 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -265,7 +265,8 @@ class BiCumulants(MultiResolutionQuantityBase):
                                vmin=0, vmax=1,
                                rstride=1, cstride=1,
                                facecolors=colors, shade=False, linestyle='-',
-                               edgecolors='black', zorder=1)
+                               zorder=1)
+        surf.set_edgecolor('black')
         ax.set_zlim(0, 1)
         ax.view_init(elev=45)
 
-- 
2.43.0


From 6e511451d1e544dbe929c9b6fdf67214a5ff16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 23/29] fix: scale2freq accepts integer arrays and numpy
 integers

---
 pymultifracs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 2f9dcd9..3ba564d 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -11,7 +11,7 @@ import numpy as np
 
 
 def scale2freq(scale, sfreq):
-    return (3/4) * sfreq * (2 ** -scale)
+    return (3/4) * sfreq * (2. ** -scale)
 
 
 def freq2scale(freq, sfreq):
-- 
2.43.0


From 35554d7461477a2a92d98b39aa1baacb5c6a773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 24/29] fix: no invalid powers of signed coefficients in
 BiStructureFunction

---
 pymultifracs/bivariate/bivariate_structurefunction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index 72520ed..3c2fc3e 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -56,9 +56,12 @@ class BiStructureFunction(MultiResolutionQuantityBase):
             for ind_q2, q2 in enumerate(self.q2):
                 for ind_j, j in enumerate(self.j):
 
-                    values[ind_q1, ind_q2, ind_j] = \
-                        np.nanmean(fast_power(mrq1.values[j], q1)
-                                   * fast_power(mrq2.values[j], q2))
+                    # Only the signed moments of orders 0, 1 and 2 are used,
+                    # other powers may not be defined on negative values
+                    if q1 in (0, 1, 2) and q2 in (0, 1, 2):
+                        values[ind_q1, ind_q2, ind_j] = \
+                            np.nanmean(fast_power(mrq1.values[j], q1)
+                                       * fast_power(mrq2.values[j], q2))
 
                     # s_j_q1_q2
                     abs_values[ind_q1, ind_q2, ind_j] = \
-- 
2.43.0


From 3ef0cab60d7f13c911fdaf0314f52cf795a5fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 25/29] fix: log_plot labels the frequency ticks when the zero
 frequency is dropped

---
 pymultifracs/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 5d67f40..5c392f1 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -155,7 +155,7 @@ def log_plot(freq_list, psd_list, legend=None, fmt=None, color=None, slope=[],
         if xticks is not None and i == len(freq_list) - 1:
             ax.set_xticks(log_freq)
             ax.set_xticklabels([f'{fr:.2f}' if fr < 1 else f'{fr:.1f}'
-                                for fr in freq])
+                                for fr in freq[freq != 0]])
             # plt.xticks(log_freq, [f'{fr:.2f}' for fr in freq])
 
     if color is None:
-- 
2.43.0


From 7da58eb3d97fbb7a23d42a8706427cc231019e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 26/29] fix: mrw2D's log-volatility has the documented
 covariance instead of 1/N^2 of it

---
 pymultifracs/simul/mrw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 70069d0..673229c 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -260,7 +260,9 @@ def mrw2D(shape, H, lam, L,  sigma=1):
     L = np.fft.fft2(corr)
 
     z1 = np.random.randn(N, N, R) + 1j * np.random.randn(N, N, R)
-    w = np.exp(np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]), axes=(0, 1))))
+    # The inverse transform divides by N^2, whereas white noise is scaled by N
+    w = np.exp(N * np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]),
+                                        axes=(0, 1))))
 
     # Increment process:
     X = np.random.randn(N, N, R) * w
-- 
2.43.0


From 58409c5fe6f5c268841aaa0cc4bf63e0bf10e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 27/29] fix: mrw2D takes sigma into account

---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 673229c..6e52d5c 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -265,7 +265,7 @@ def mrw2D(shape, H, lam, L,  sigma=1):
                                         axes=(0, 1))))
 
     # Increment process:
-    X = np.random.randn(N, N, R) * w
+    X = sigma * np.random.randn(N, N, R) * w
 
     # Fractional integration to produce motion:
     BX = fract_int_2d(X, H + 1)
-- 
2.43.0


From fdfe8471828180ed9253eadff83b7d57e1d2b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:56 +0000
Subject: [PATCH 28/29] fix: plot_legendre uses the h_support and figsize it is
 given

---
 pymultifracs/bivariate/bivariate_cumulants.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index a53a84c..778b70e 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -232,8 +232,7 @@ class BiCumulants(MultiResolutionQuantityBase):
     def plot_legendre(self, h_support=(0, 1.5), resolution=30,
                       figsize=(10, 10), cmap=None):
 
-        h, L = self.compute_legendre(h_support=(0, 1.5),
-                                     resolution=200)
+        h, L = self.compute_legendre(h_support, resolution=200)
 
         h_x = h[L.max(axis=0) >= 0]
         h_y = h[L.max(axis=1) >= 0]
@@ -245,7 +244,7 @@ class BiCumulants(MultiResolutionQuantityBase):
 
         cmap = cmap or plt.cm.coolwarm  # pylint: disable=no-member
 
-        fig = plt.figure(figsize=(10, 10))
+        fig = plt.figure(figsize=figsize)
         ax = fig.add_subplot(projection='3d')
 
         h_x = h[L.max(axis=0) >= 0]
-- 
2.43.0


From d1b4e06ef911b06e506af95445b5bf6ad2bf548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 29/29] fix: the spectrum plot titles and saves the figure of
 the axes it is given

---
 pymultifracs/mfspectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/mfspectrum.py b/pymultifracs/mfspectrum.py
index 23c4d13..635f5b4 100644
--- a/pymultifracs/mfspectrum.py
+++ b/pymultifracs/mfspectrum.py
@@ -163,8 +163,8 @@ class MultifractalSpectrum(MultiResolutionQuantityBase):
         ax.set_ylabel('D(h)')
         ax.set_ylim((0, 1.05))
         ax.set_xlim((0, 1.5))
-        plt.suptitle(self.formalism + ' - multifractal spectrum')
+        ax.figure.suptitle(self.formalism + ' - multifractal spectrum')
         plt.draw()
 
         if filename is not None:
-            plt.savefig(filename)
+            ax.figure.savefig(filename)
-- 
2.43.0

