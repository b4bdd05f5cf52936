From 96d510787bf7e4aa44affcdcf68244598c5fa9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 01/22] fix: log posterior uses the Gaussian log likelihood
 -L2/2

The gradient of the data fidelity is that of L2/2, so the reported (and, in
PxMALA, targeted) log posterior did not match the one being sampled. L2 is a
quadratic form of a Hermitian matrix, so it is also made explicitly real.
---
 pxmcmc/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 45cf316..5632620 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -76,9 +76,9 @@ class PxMCMC:
         :param preds: vector of data predictions from model X
         """
         diff = self.forward.data - preds
-        L2 = np.vdot(diff, self.forward.invcov @ diff)
+        L2 = np.vdot(diff, self.forward.invcov @ diff).real
         prior = self.prior.prior(X)
-        logPi = -self.mu * prior - L2
+        logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-- 
2.43.0


From 8025ffeadb050431e5150f3f5f2c6425c5cd2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 02/22] fix: PxMALA saves the current state when a proposal is
 rejected

Only saving accepted proposals biases the saved chain and does not respect the
thinning parameter.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 5632620..ac81cbe 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -260,7 +260,7 @@ class PxMALA(MYULA):
                 self.deltas_trace.append(self.delta)
 
             if i >= self.nburn:
-                if (self.ngap == 0 or (i - self.nburn) % self.ngap == 0) and accept:
+                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:
                     self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)
                     j += 1
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-- 
2.43.0


From 1fd9a778bb396d7dc0e81249c038bcc508627260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 03/22] fix: PxMALA transition density matches its proposal

Proposals are N(X + delta * gradlogpi, 2 * delta), but the log transition
density used half the drift, a prefactor proportional to delta and the square
of the squared norm, so the acceptance ratio was not Metropolis-Hastings.
---
 pxmcmc/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index ac81cbe..7ae307b 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -284,8 +284,8 @@ class PxMALA(MYULA):
         """
         gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
         return (
-            -(1 / 2 * self.delta)
-            * np.sum((X2 - X1 - (self.delta / 2) * gradlogpiX1) ** 2) ** 2
+            -np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2)
+            / (4 * self.delta)
         )
 
 
-- 
2.43.0


From 0ec9591783b745b5e3590c26dff8586dba2cb4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 04/22] fix: SKROCK recursion follows the SK-ROCK scheme

K_j = mu_j delta gradlogpi(K_{j-1}) + nu_j K_{j-1} + k_j K_{j-2} with
mu_j, nu_j built from T_{j-1}(omega_0) / T_j(omega_0) and k_j = 1 - nu_j.
---
 pxmcmc/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 7ae307b..02902c2 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -363,8 +363,7 @@ class SKROCK(PxMCMC):
                 * self.delta
                 * self._gradlogpi(self._K_recursion(X, s - 1, Z))
                 + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s]
-                - self._K_recursion(X, s - 2, Z)
+                + self.ks[s] * self._K_recursion(X, s - 2, Z)
             )
 
     def _recursion_coefs(self):
@@ -377,7 +376,7 @@ class SKROCK(PxMCMC):
         self.ks[1] = self.s * self.omega_1 / self.omega_0
 
         for j in range(2, self.s + 1):
-            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_1, j)
+            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_0, j)
             self.mus[j] = 2 * self.omega_1 * cheb_ratio
             self.nus[j] = 2 * self.omega_0 * cheb_ratio
-            self.ks[j] = 1 - self.nus[0]
+            self.ks[j] = 1 - self.nus[j]
-- 
2.43.0


From 390f0a6e2227ee99cc1d27b5e5c18f3bc3d63c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 05/22] fix: full covariance matrices are accepted

scipy.sparse.linalg.inv rejects the dense array that the surrounding check
requires, so the documented covariance matrix option always raised.
---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 3f3bbd3..16be580 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -75,7 +75,7 @@ class ForwardOperator:
         if isinstance(sig_d, np.ndarray) and len(sig_d.shape) == 2:
             if sig_d.shape[0] != sig_d.shape[1]:
                 raise ValueError("Covariance matrix should be square")
-            return sparse.linalg.inv(sig_d)
+            return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
         if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-- 
2.43.0


From b67b21af09b5a544f904cbc0cb1d3ceed1a7ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 06/22] fix: data variances stay real for complex data

A complex variance rotates the gradient of the data fidelity by -45 degrees and
makes the L2 norm and log posterior complex.
---
 pxmcmc/forward.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 16be580..c836116 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -78,8 +78,6 @@ class ForwardOperator:
             return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
-        if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-            var = var / np.sqrt(2) * (1 + 1j)
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
-- 
2.43.0


From 40f89af7861f09481228aee45cf3b9762701aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 07/22] fix: saved predictions keep the imaginary part of
 complex data

---
 pxmcmc/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 02902c2..c5fce17 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -115,7 +115,8 @@ class PxMCMC:
             self.logPi = np.zeros(self.nsamples)
         if "predictions" in self.track:
             self.preds = np.zeros(
-                (self.nsamples, len(self.forward.data)), dtype=float
+                (self.nsamples, len(self.forward.data)),
+                dtype=complex if np.iscomplexobj(self.forward.data) else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From cf3f952395047e0376a1f0e93e087f5f4d61112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 08/22] fix: chains of real parameters stay real

With complex=False, complex gradients or proxes (e.g. weak lensing) made the
state complex, while only its real part was saved next to the log posterior and
predictions of the complex state.
---
 pxmcmc/mcmc.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index c5fce17..1d2b8a1 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -82,12 +82,20 @@ class PxMCMC:
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-        gradf = (X - self.prior.proxf(X)) / self.lmda
+        gradf = (X - self._calc_proxf(X)) / self.lmda
         if preds is None:
             preds = self.forward.forward(X)
-        gradg = self.forward.calc_gradg(preds)
+        gradg = self._calc_gradg(preds)
         return -gradf - gradg
 
+    def _calc_gradg(self, preds):
+        gradg = self.forward.calc_gradg(preds)
+        return gradg if self.complex else np.real(gradg)
+
+    def _calc_proxf(self, X):
+        proxf = self.prior.proxf(X)
+        return proxf if self.complex else np.real(proxf)
+
     def _print_progress(self, i, logpi, **kwargs):
         print(
             f"{i+1:,}/{self.nsamples:,} - logposterior: {logpi:.8e} - "
@@ -156,8 +164,8 @@ class MYULA(PxMCMC):
         j = 0  # saved samples (excludes burn-in and thinned samples)
         X_curr, curr_preds = self._initial_sample(start_point)
         while j < self.nsamples:
-            gradg = self.forward.calc_gradg(curr_preds)
-            proxf = self.prior.proxf(X_curr)
+            gradg = self._calc_gradg(curr_preds)
+            proxf = self._calc_proxf(X_curr)
             X_prop = self.chain_step(X_curr, proxf, gradg)
             prop_preds = self.forward.forward(X_prop)
 
@@ -225,14 +233,14 @@ class PxMALA(MYULA):
         i = 0
         j = 0
         X_curr, curr_preds = self._initial_sample(start_point)
-        gradg_curr = self.forward.calc_gradg(curr_preds)
-        proxf_curr = self.prior.proxf(X_curr)
+        gradg_curr = self._calc_gradg(curr_preds)
+        proxf_curr = self._calc_proxf(X_curr)
         logpiXc, L2Xc, priorXc = self.logpi(X_curr, curr_preds)
         while j < self.nsamples:
             X_prop = self.chain_step(X_curr, proxf_curr, gradg_curr)
             prop_preds = self.forward.forward(X_prop)
-            gradg_prop = self.forward.calc_gradg(prop_preds)
-            proxf_prop = self.prior.proxf(X_prop)
+            gradg_prop = self._calc_gradg(prop_preds)
+            proxf_prop = self._calc_proxf(X_prop)
 
             logtransXcXp = self.calc_logtransition(
                 X_curr, X_prop, proxf_curr, gradg_curr
-- 
2.43.0


From 2a6268c5e4960e3da0380f7365f5a8b397333e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 09/22] fix: progress reports do not need every quantity to be
 tracked

MYULA and SKROCK raised AttributeError when printing progress if logposterior,
L2 or prior was not in the track list. SKROCK also reported unset values during
burn-in.
---
 pxmcmc/mcmc.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 1d2b8a1..777381f 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -178,12 +178,7 @@ class MYULA(PxMCMC):
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                    self._print_progress(
-                        j - 1,
-                        self.logPi[j - 1],
-                        L2=self.L2s[j - 1],
-                        prior=self.priors[j - 1],
-                    )
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
             else:
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                     print("Burning in...")
@@ -333,13 +328,11 @@ class SKROCK(PxMCMC):
                     logPi, L2, prior = self.logpi(X_curr, curr_preds)
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
-            if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                self._print_progress(
-                    j - 1,
-                    self.logPi[j - 1],
-                    L2=self.L2s[j - 1],
-                    prior=self.priors[j - 1],
-                )
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
+            else:
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    print("Burning in...")
             i += 1
 
         print("\nDONE")
-- 
2.43.0


From c59bb6a74a11afb040586ca29fd66ea3a1903c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 10/22] fix: analysis prior is the L1 norm of the transformed
 sample

The analysis prox is that of the L1 norm of adj(X), but the prior value used in
the log posterior was the L1 norm of X itself.
---
 pxmcmc/prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 661011d..327c64d 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -32,6 +32,8 @@ class L1:
         :param X: MCMC sample
         :return: log prior
         """
+        if self.setting == "analysis":
+            X = self.adj(X)
         return sum(abs(X))
 
     def proxf(self, X):
-- 
2.43.0


From e034ba3017e7cf91ed49f56ce71d4462409474bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 11/22] fix: power weighted prior and prox use the same weights

The threshold was scaled by the quadrature weights times the power weights, and
the prior by the square of the power weights. Both now use the power weights.
Thresholds given as an array are no longer overwritten.
---
 pxmcmc/prior.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 327c64d..8f3b13a 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -80,7 +80,7 @@ class S2_Wavelets_L1(L1):
             self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
@@ -107,10 +107,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             self._get_weights()
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
-
-    def prior(self, X):
-        return super().prior(self.map_weights * X)
+        self.T = T * self.map_weights
 
     def _get_weights(self):
         scaling_weights = self._calculate_scaling_weights()
-- 
2.43.0


From 72cd72a96c3393bb4ba5633606a15a5cd13170e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 12/22] fix: power weights use the bandlimits of the requested
 dirs and spin

---
 pxmcmc/prior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 8f3b13a..b17de93 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -127,7 +127,9 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
         return weights
 
     def _calculate_wavelet_weights(self):
-        bls = _multires_bandlimits(self.L, self.B, self.J_min)
+        bls = _multires_bandlimits(
+            self.L, self.B, self.J_min, self.dirs, self.spin
+        )
         _, psi_lm = pys2let.wavelet_tiling(self.B, self.L, self.dirs, self.J_min, self.spin)
         wavelet_powers = np.array(
             [np.vdot(lm, lm).real for lm in psi_lm.T]
-- 
2.43.0


From 3f90cc3744c64ceca7d7ba786560e889500cd7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 13/22] fix: credible region is the set of highest posterior
 samples

The region held the samples with the lowest log posterior, excluding the MAP.
---
 pxmcmc/uncertainty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/uncertainty.py b/pxmcmc/uncertainty.py
index 36297d5..6e08ff6 100644
--- a/pxmcmc/uncertainty.py
+++ b/pxmcmc/uncertainty.py
@@ -48,9 +48,9 @@ def credible_region_threshold(logpis, alpha=0.05):
     :param float `alpha`: confidence level
     :return: log posterior threshold
     """
-    return np.quantile(logpis, 1 - alpha)
+    return np.quantile(logpis, alpha)
 
 
 def in_credible_region(logpi, threshold):
     """:meta private:"""
-    return True if logpi <= threshold else False
+    return True if logpi >= threshold else False
-- 
2.43.0


From 1e93dac48c3e463cbff2d2479cd402b8a657b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 14/22] fix: hard thresholding does not overwrite its input

---
 pxmcmc/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 5af11de..6fdf78e 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -74,6 +74,7 @@ def hard(X, T=0.1):
 
     :meta private:
     """
+    X = np.array(X)
     X_srt = np.sort(abs(X))
     thresh_ind = int(T * len(X))
     thresh_val = X_srt[-thresh_ind]
-- 
2.43.0


From 788fb07caaf79b2066b55ea41959071692f01605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 15/22] fix: plot_map works with current matplotlib

matplotlib.cm.get_cmap was removed in matplotlib 3.9.
---
 pxmcmc/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index de70c24..d587e45 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -1,7 +1,6 @@
 import numpy as np
 import healpy as hp
 import matplotlib.pyplot as plt
-from matplotlib import cm
 import copy
 import pyssht
 import pys2let
@@ -44,7 +43,7 @@ def plot_map(
 
     :return: matplotlib figure
     """
-    cmap = copy.copy(cm.get_cmap(cmap))
+    cmap = copy.copy(plt.get_cmap(cmap))
     cmap.set_bad(alpha=0)
 
     if oversample:
-- 
2.43.0


From e2dbbec9831c24fac0001fcf87ae7f84c14e3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 16/22] fix: plot_map does not write the mask into the map it
 is given

---
 pxmcmc/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index d587e45..1455c6e 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -58,6 +58,7 @@ def plot_map(
         vmin = -cbar_end
 
     if mask is not None:
+        f = f.copy()
         f[mask] = np.nan
     f_plt, _ = pyssht.mollweide_projection(f, L)
     fig = plt.figure(figsize=(20, 10))
-- 
2.43.0


From 25ead5c02b308a9a0e1126700ad8e25ea0dc8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 17/22] fix: weak lensing mask shape is checked before the mask
 is used

---
 pxmcmc/measurements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 207b88f..993ed7f 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -197,15 +197,15 @@ class WeakLensing(WeakLensingHarmonic):
         else:
             self.mask = mask.astype(bool)
 
+        if self.mask.shape != self.shape:
+            raise ValueError("Shape of mask map is incorrect!")
+
         # Define observational covariance
         if ngal is None:
             self.inv_cov = self.mask_forward(np.ones(self.shape))
         else:
             self.inv_cov = self.ngal_to_inv_cov(ngal)
 
-        if self.mask.shape != self.shape:
-            raise ValueError("Shape of mask map is incorrect!")
-
     def forward(self, kappa):
         """Spherical weak lensing measurement operator
 
-- 
2.43.0


From 3d5071204f1f0b325f2c63d4264e515add109849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 18/22] fix: weak lensing masking rejects NaN signals

An object is always itself, so the documented ValueError was never raised.
---
 pxmcmc/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 993ed7f..8f740d7 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -252,7 +252,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is of incorrect shape.
 
         """
-        if f is not f:
+        if np.any(np.isnan(f)):
             raise ValueError("Signal is NaN.")
 
         if f.shape != self.shape:
@@ -272,7 +272,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is nan
 
         """
-        if x is not x:
+        if np.any(np.isnan(x)):
             raise ValueError("Signal is NaN.")
 
         f = np.zeros(self.shape, dtype=complex)
-- 
2.43.0


From 9c21084bde00b73fd4cbdc6f640e3562605e3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 19/22] fix: earthtopography plot.py --save_npy

---
 experiments/earthtopography/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index aa92ed7..b3abfbd 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -37,8 +37,8 @@ parser.add_argument(
 args = parser.parse_args()
 
 
-def filename(name):
-    return f"{args.directory}/{name}{args.suffix}.png"
+def filename(name, ext="png"):
+    return f"{args.directory}/{name}{args.suffix}.{ext}"
 
 
 # Load results file and extract global parameters
-- 
2.43.0


From e37493bff96526edb0ca715adac77a189a78479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:00 +0000
Subject: [PATCH 20/22] fix: count the coefficients of the transform that is
 used (harmonic wavelets)

---
 pxmcmc/transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/transforms.py b/pxmcmc/transforms.py
index ec288b3..3ff8498 100644
--- a/pxmcmc/transforms.py
+++ b/pxmcmc/transforms.py
@@ -97,7 +97,7 @@ class SphericalWaveletTransform(Transform):
             self.inv = pys2let.synthesis_wav2px
             self.inv_adj = pys2let.synthesis_adjoint_px2wav
 
-        self._get_ncoefs()
+        self._get_ncoefs(self.L ** 2 if harmonic else pyssht.sample_length(self.L))
 
     def forward(self, X):
         """
@@ -153,14 +153,14 @@ class SphericalWaveletTransform(Transform):
         X = self.fwd_adj(wav, scal, **self.params)
         return X
 
-    def _get_ncoefs(self):
+    def _get_ncoefs(self, nsignal):
         """
         Counts the number of wavelet and scaling coefs for
         the multiresolution algorithm
 
-        TODO: CHECK THIS FOR HARMONIC
+        :param int nsignal: number of pixels (or harmonic coefficients) of the transformed signal
         """
-        f_mw = np.empty(pyssht.sample_length(self.L), dtype=complex)
-        f_wav, f_scal = pys2let.analysis_px2wav(f_mw, **self.params)
+        f = np.empty(nsignal, dtype=complex)
+        f_wav, f_scal = self.fwd(f, **self.params)
         self.nwav, self.nscal = (f_wav.shape[0], f_scal.shape[0])
         self.ncoefs = self.nwav + self.nscal
-- 
2.43.0


From 0cac599f1965fc25c46688e887cd7811c4603f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 21/22] fix: evolution plots of chains that stay at their
 highest posterior

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 1455c6e..3d331e6 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -147,7 +147,7 @@ def plot_evolution(logposteriors, L2s, L1s, figsize=(10, 8)):
 
     :return: matplotlib figure
     """
-    MAP_idx = np.where(logposteriors == max(logposteriors))
+    MAP_idx = np.argmax(logposteriors)
     fig = plt.figure(figsize=figsize)
     plt.subplot(3, 1, 1)
     plt.plot(-logposteriors)
-- 
2.43.0


From e28a480bc154045899b916896c49315c68a9efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 22/22] fix: wavelet maps can be plotted at their own bandlimit

---
 pxmcmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 3d331e6..612e9e7 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -109,7 +109,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     else:
         base_title = ""
     map_args["title"] = f"{base_title} Scaling function"
-    figs.append(plot_map(f_scal.reshape(pyssht.sample_shape(bls[0])), **map_args))
+    figs.append(plot_map(f_scal.real.copy().reshape(pyssht.sample_shape(bls[0])), **map_args))
 
     if same_scale:
         map_args["vmax"] = np.max(f_wav).real
@@ -119,7 +119,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
         scale_length = pyssht.sample_length(bl)
         wav = f_wav[scale_start : scale_start + scale_length]
         map_args["title"] = f"{base_title} Wavelet scale {i}"
-        figs.append(plot_map(wav.reshape(pyssht.sample_shape(bl)), **map_args))
+        figs.append(plot_map(wav.real.copy().reshape(pyssht.sample_shape(bl)), **map_args))
         scale_start += scale_length
 
     return figs
-- 
2.43.0

