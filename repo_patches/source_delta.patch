From b55f0532592e0b8648e7d2b99ad916a567898f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 01/22] fix: accept a scalar system noise in Lorenz63 /
 Lorenz96

After np.asarray() a scalar is a 0-d array, for which np.isscalar() is False,
so the shipped L63 / L96 parameter files were rejected.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index b1133ac..f62d84a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -65,7 +65,7 @@ class Lorenz63(StochasticProcess):
         theta = np.asarray(theta)
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(3)
 
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index e6be786..5212d4a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -143,7 +143,7 @@ class Lorenz96(StochasticProcess):
         self.dim_d = dim_d
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(dim_d)
 
-- 
2.43.0


From 5832572059c0acf3fba4975a884ead2efd2d8170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 02/22] fix: use the full coefficient of <x^6> in the
 Double-Well energy

<(f-g)^2> has the term 16*<x^6>; the gradients already use 16.
---
 src/dynamics/double_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 884b569..712fc49 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -211,7 +211,7 @@ class DoubleWell(StochasticProcess):
         Ex6 = gauss_mom(order=6)
 
         # Auxiliary variable.
-        var_q = 8.0 * (Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
+        var_q = 8.0 * (2.0 * Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
 
         # Energy from the sDyn: Eq(7)
         Esde = 0.5 * my_trapz(var_q, dt, obs_t) / self._sigma
-- 
2.43.0


From 18fcb08ac399abb83dce89e7c292bea22cd471a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 03/22] fix: RK2 forward variance predictor must use A(t), not
 S(t)

---
 src/numerics/runge_kutta2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index 8e55d57..f93ecc8 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -93,7 +93,7 @@ class RungeKutta2(OdeSolver):
                                          a_mid, b_mid)
 
             # -Eq(10)- NEW "variance" point.
-            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, sk, sigma)),
+            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, ak, sigma)),
                                          a_mid, sigma)
         # _end_for_
 
-- 
2.43.0


From 3681f7695c8beb131cb96eca08909f143a4e779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 04/22] fix: the equation of lam(t) is the adjoint of the mean
 equation: A'*lam

lam.dot(A.T) is A*lam, which is the wrong product when A is not symmetric.
---
 src/numerics/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/ode_solver.py b/src/numerics/ode_solver.py
index 9dd7204..7ed15d1 100644
--- a/src/numerics/ode_solver.py
+++ b/src/numerics/ode_solver.py
@@ -71,10 +71,10 @@ class OdeSolver(object):
 
         :param lam_t: Lagrange multiplier lam(t).
 
-        :return: - dEf_dm + (lam * A.T)
+        :return: - dEf_dm + (lam * A)
         """
         # Switch according to single_dim.
-        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at.T)
+        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at)
     # _end_def_
 
     def fun_psi(self, df_ds: np.ndarray, at: np.ndarray,
-- 
2.43.0


From 30e341e641eb1335c76e0d080cc6f90ac3165383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 05/22] fix: off-diagonal elements of the L63 energy gradient
 w.r.t. S(t)

S_xy enters the energy once as S_xy and once as S_yx, so each of the two
matrix elements takes half of the derivative w.r.t. the shared value.
---
 src/dynamics/lorenz_63.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f62d84a..5cdeae0 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -561,9 +561,10 @@ class Lorenz63(StochasticProcess):
                iSz * ((vB - A33) ** 2) * dEzz_dSzz
 
         # Gradient of the energy with respect to the marginal covariance.
-        dEsde_ds = 0.5 * np.array([[dSxx, dSxy, dSxz],
-                                   [dSxy, dSyy, dSyz],
-                                   [dSxz, dSyz, dSzz]])
+        # NOTE: Each off-diagonal value is shared by two elements of S(t).
+        dEsde_ds = 0.5 * np.array([[dSxx, 0.5 * dSxy, 0.5 * dSxz],
+                                   [0.5 * dSxy, dSyy, 0.5 * dSyz],
+                                   [0.5 * dSxz, 0.5 * dSyz, dSzz]])
         # --->
         return Efg, dEsde_dm, dEsde_ds
 
-- 
2.43.0


From 44d7030ae56cdd425f87f0eb8cec1addec421b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 06/22] fix: shift the Lorenz96 state along its own axis for
 batches of states

np.roll() without an axis rolls the flattened array, so with the (dim_m x dim_d)
sigma points the cyclic neighbours were taken from other sigma points.
---
 src/dynamics/lorenz_96.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 5212d4a..66d9c80 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -82,19 +82,21 @@ def E96_drift_dx(x: np.ndarray) -> np.ndarray:
     return Ex
 # _end_def_
 
-@njit
 def l96(x: np.ndarray, u: np.ndarray) -> np.ndarray:
     """
     The Lorenz 96 model function.
 
-    :param x: state vector (dim_d x 1).
+    :param x: state vector (dim_d), or a batch of
+    state vectors (dim_m x dim_d).
 
     :param u: additional parameters (theta).
 
     :return: One step ahead in the equation.
     """
-    # Get the shifted values.
-    fwd_1x, bwd_1x, bwd_2x = shift_vectors(x)
+    # Get the shifted values (along the state dimensions).
+    fwd_1x = np.roll(x, -1, axis=-1)
+    bwd_1x = np.roll(x, +1, axis=-1)
+    bwd_2x = np.roll(x, +2, axis=-1)
 
     # Return one step ahead Diff.Eq.
     return (fwd_1x - bwd_2x) * bwd_1x - x + u
-- 
2.43.0


From 22cc05083a0ddef457453522d0fd6aecb8f9ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 07/22] fix: nD Gaussian likelihood: S(t) at the observation
 times, and the operator H

The energy used S[n] (n-th time point) in place of S(tn), applied H to the
residual from the wrong side, and ignored H and the off-diagonal noise in the
trace term, in disagreement with gradients_nd().
---
 src/var_bayes/gaussian_like.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 4ec0384..bcb6da7 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -116,13 +116,13 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
 
-        # Extract the diagonal elements.
-        diag_inv_rn = inv_rn.diagonal()
+        # Pre-compute this only once.
+        inv_rn_h = H.T.dot(inv_rn).dot(H)
 
         # Pre-compute this only once.
         Z = W.dot(inv_chol_factor.T)
@@ -130,19 +130,13 @@ class GaussianLikelihood(Likelihood):
         # Energy term from the observations.
         Eobs = 0.0
 
-        # Get the diagonal elements.
-        # NOTE: Array s is 3-dimensional. The following command
-        # returns the diagonal elements on the first dimensions.
-        # I.e. np.diag(s[0, :, :]), ... , np.diag(s[n-1, :, :])
-        sn_diag = np.diagonal(s, axis1=1, axis2=2)
-
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Inner product: z * z.T
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[n])
+            Eobs += zn_sq + np.sum(inv_rn_h * s[tn])
         # _end_for_
 
         # Compute the final including the constants.
@@ -219,7 +213,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, _ = chol_inv(self.noise)
-- 
2.43.0


From 49483ac2fcce2436157c9b108e51f1f487dbf57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 08/22] fix: 1D Gaussian likelihood: use the observation
 operator consistently

Only the gradient w.r.t. the mean used H; the energy and the gradient w.r.t.
the variance ignored it.
---
 src/var_bayes/gaussian_like.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index bcb6da7..0c3a190 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -80,6 +80,9 @@ class GaussianLikelihood(Likelihood):
         # from the parent class (Likelihood).
         obs_y, obs_t = self.values, self.times
 
+        # Observation operator.
+        H = self.operator
+
         # Total number of observations.
         dim_m = obs_t.size
 
@@ -88,7 +91,7 @@ class GaussianLikelihood(Likelihood):
         Ex2 = (m[obs_t] ** 2) + s[obs_t]
 
         # Energy from the observations.
-        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2) / self.noise +\
+        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + (H ** 2) * Ex2) / self.noise +\
                0.5 * dim_m * (GaussianLikelihood.LOG2PI + np.log(self.noise))
 
         # Energy term from the observations.
@@ -179,10 +182,10 @@ class GaussianLikelihood(Likelihood):
         dEobs_dr = np.zeros(dim_n)
 
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - W / self.noise
+        dEobs_dm[obs_t] = - H * W / self.noise
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 / self.noise
+        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
         dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
-- 
2.43.0


From 5fb0ab347e6c5072b17676b88eee456eaefd3201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 09/22] fix: initial state energy KL0 (1D and nD)

1D: the entropy term is 0.5*log(s0), as in gradients_1d().
nD: the quadratic term needs the outer product of z0 (1-D vector), and
log_det() of a product of two covariances is not a Cholesky log-determinant.
---
 src/var_bayes/prior_kl0.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 525c74c..a8d75af 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -57,7 +57,7 @@ class PriorKL0(object):
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = - np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
+        kl0 = - 0.5 * np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
               0.5 / self.tau0 * (z0 ** 2 + s0)
 
         # Kullback-Liebler at t=0.
@@ -77,15 +77,12 @@ class PriorKL0(object):
         # Inverse of tau0 matrix.
         inv_tau0, _ = chol_inv(self.tau0)
 
-        # Inverted.
-        inv_s0, _ = chol_inv(s0)
-
         # Energy of the initial moment.
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = 0.5 * (log_det(self.tau0.dot(inv_s0)) +
-                     np.sum(np.diag(inv_tau0.dot(z0.T.dot(z0) +
+        kl0 = 0.5 * (log_det(self.tau0) - log_det(s0) +
+                     np.sum(np.diag(inv_tau0.dot(np.outer(z0, z0) +
                                                  s0 - self.tau0))))
         # Kullback-Liebler at t=0.
         return kl0
-- 
2.43.0


From 24be9b2dbab5e2932e927b934e5546a2d5b7ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 10/22] fix: a random seed of zero is a seed

The truth value of the seed was tested, so zero gave an unseeded generator.
---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index ada9ed5..c83ef48 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -18,7 +18,7 @@ class StochasticProcess(object):
         :param single_dim: single dimensional flag.
         """
         # Create a random number generator.
-        if r_seed:
+        if r_seed is not None:
             self.rand_g = default_rng(SeedSequence(r_seed))
         else:
             self.rand_g = default_rng()
-- 
2.43.0


From af50d0240328cfe3c449f306c6290323d4f06ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 11/22] fix: report mismatched moment arrays with the intended
 error

The malformed replacement field '{2)' made format() raise ValueError.
---
 src/var_bayes/gaussian_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index a8dea14..099e741 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -28,7 +28,7 @@ class GaussianMoments(object):
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
             raise RuntimeError(" {0}: Input arrays shape mismatch."
-                               " {1} != {2)".format(self.__class__.__name__,
+                               " {1} != {2}".format(self.__class__.__name__,
                                                     m_arr.shape, v_arr.shape))
         # _end_if_
 
-- 
2.43.0


From b139f7419d1b92167aaa1b82af00f0fa15c0f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 12/22] fix: use the lower Cholesky factor for the driving
 noise of L63 / L96

scipy.linalg.cholesky() returns the upper factor by default, and R.dot(z) does
not have covariance Sigma*dt when Sigma is not diagonal.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 5cdeae0..dc44fc6 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -209,7 +209,7 @@ class Lorenz63(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : Input matrix was not positive definite."
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 66d9c80..13afe6d 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -290,7 +290,7 @@ class Lorenz96(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : The input matrix was not positive definite."
-- 
2.43.0


From f1c542b0a75cddf47d3b5307026e560f45c1c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 13/22] fix: unscented transform: covariance estimate and the
 scale of the fallback

The deviations are (I - 1*w)y, so Q = w_m.T * W * w_m. The diagonal fallback
did not scale the covariance by (dim_d + k), as the weights assume.
---
 src/numerics/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 8a48a63..73dd7b5 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -276,7 +276,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     except LinAlgError:
         # If the original fails, apply only to
         # the diagonal elements of the covariance.
-        sPxx = cholesky(x_cov * np.eye(dim_d)).T
+        sPxx = cholesky((dim_d + k) * x_cov * np.eye(dim_d)).T
     # _end_if_
 
     # Replicate the array.
@@ -300,7 +300,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
 
     # Compute the approximate covariance.
     w_m = np.eye(dim_m) - np.tile(weights, (dim_m, 1))
-    Q = w_m.dot(np.diag(weights.ravel())).dot(w_m.T)
+    Q = w_m.T.dot(np.diag(weights.ravel())).dot(w_m)
 
     # Compute the new approximate covariance.
     y_cov = y.T.dot(Q).dot(y)
-- 
2.43.0


From db39f367877e72ef70f5bd4ae18a77e70c89116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 14/22] fix: sigma setters of L63 / L96 accept only positive
 definite matrices

np.all() rejected only matrices with no positive eigenvalue at all; the others
were stored before the inversion failed, next to a stale inverse.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index dc44fc6..76e6629 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -149,7 +149,7 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 13afe6d..d4a62fe 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -228,7 +228,7 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Make the change.
-- 
2.43.0


From 93be02fc6f709ac13147708e8737c229185700e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 15/22] fix: backward ODEs: account for an observation at the
 final time

The jump of the Lagrange multipliers was added at t-1 only, so the gradient
of an observation at t=tf was lost.
---
 src/numerics/euler.py        | 3 +++
 src/numerics/heun.py         | 3 +++
 src/numerics/runge_kutta2.py | 3 +++
 src/numerics/runge_kutta4.py | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/numerics/euler.py b/src/numerics/euler.py
index 09098ae..4637c42 100644
--- a/src/numerics/euler.py
+++ b/src/numerics/euler.py
@@ -128,6 +128,9 @@ class Euler(OdeSolver):
             psi = np.zeros((dim_n, dim_d, dim_d))
         # _end_if_
 
+        # Observation at the final time (t=tf), if any.
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Discrete time step.
         dt = self.dt
 
diff --git a/src/numerics/heun.py b/src/numerics/heun.py
index 5c21d17..027afd2 100644
--- a/src/numerics/heun.py
+++ b/src/numerics/heun.py
@@ -146,6 +146,9 @@ class Heun(OdeSolver):
             psi = np.zeros((dim_n, dim_d, dim_d))
         # _end_if_
 
+        # Observation at the final time (t=tf), if any.
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Discrete time step.
         dt = self.dt
 
diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index f93ecc8..19a3ace 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -164,6 +164,9 @@ class RungeKutta2(OdeSolver):
 
         # _end_if_
 
+        # Observation at the final time (t=tf), if any.
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/runge_kutta4.py b/src/numerics/runge_kutta4.py
index e0ffbee..7eb7e24 100644
--- a/src/numerics/runge_kutta4.py
+++ b/src/numerics/runge_kutta4.py
@@ -175,6 +175,9 @@ class RungeKutta4(OdeSolver):
             dEsk_mid = np.concatenate((dEsk_mid, np.zeros((1, dim_d, dim_d))), axis=0)
         # _end_if_
 
+        # Observation at the final time (t=tf), if any.
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
-- 
2.43.0


From a7a91596a38237bc36053419b26159997ce12f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 16/22] fix: store the posterior that belongs to the returned
 parameters

If the last step of the optimizer is rejected, the moments (and multipliers)
kept by VarGP are those of the rejected point.
---
 src/var_bayes/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0cc56b7..1c35397 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -239,6 +239,10 @@ class Simulation(object):
         # Print final duration in seconds.
         print(f" Elapsed time: {(time_tf - time_t0):.2f} seconds.", end='\n')
 
+        # The last point that was evaluated by the optimizer is not always
+        # the returned one. Make sure that the output corresponds to 'x'.
+        fx = vgpa.free_energy(x)
+
         # Unpack optimization output data.
         if self.m_data["model"].single_dim:
             # Get the dimensions.
-- 
2.43.0


From d2ce25756773333ef8deeefc5f6b7e5602a669a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 17/22] fix: run with given observations

The observation noise was set only for sampled observations, and the columns
of the data file are not named 0 and 1.
---
 src/var_bayes/simulation.py | 11 +++++++++++
 vgpa_main.py                |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 1c35397..444a9ee 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -146,6 +146,17 @@ class Simulation(object):
         if data is not None:
             self.m_data["obs_t"] = data[0]
             self.m_data["obs_y"] = data[1]
+
+            # Observation noise (co)-variance.
+            obs_noise = np.asarray(self.m_data["noise"]["obs"])
+
+            # Adjust it to the dimensions of the observations.
+            if not self.m_data["single_dim"]:
+                dim_o = np.shape(data[1])[-1]
+                obs_noise = np.diag(obs_noise) if obs_noise.ndim == 1 else obs_noise * np.eye(dim_o)
+            # _end_if_
+
+            self.m_data["obs_noise"] = obs_noise
         else:
             # Sample observations from the trajectory.
             obs_t, obs_y, obs_noise = self.m_data["model"].collect_obs(self.m_data["obs_setup"]["density"],
diff --git a/vgpa_main.py b/vgpa_main.py
index 77193b8..16d4fd8 100755
--- a/vgpa_main.py
+++ b/vgpa_main.py
@@ -111,6 +111,9 @@ def main(params_file=None, data_file=None):
             # The file should have two columns.
             obs_data = pd.read_csv(input_file,
                                    names=["t", "Yt"])
+
+            # Split the observation times / values.
+            obs_data = (obs_data["t"].to_numpy(), obs_data["Yt"].to_numpy())
         # _end_with_
     # _end_if_
 
-- 
2.43.0


From 7f3d6de23f69a321d1ae0d504b58db8960c6f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 18/22] fix: collect observations of a single (masked)
 dimension

With one observed dimension out of many the array is (dim_m x 1), and adding a
noise vector of length dim_m fails.
---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index c83ef48..1fd6033 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -187,7 +187,7 @@ class StochasticProcess(object):
         dim_d = 1 if obs_y.ndim == 1 else obs_y.shape[-1]
 
         # Add noise according to the observation dimensions.
-        if dim_d == 1:
+        if obs_y.ndim == 1:
             # Scalar value.
             obs_noise = rn
 
-- 
2.43.0


From 866a56d9646ac4155373201bb3af0d0b099849d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:00 +0000
Subject: [PATCH 19/22] fix: initial guess with an observation at the first or
 last time

---
 src/var_bayes/variational.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/variational.py b/src/var_bayes/variational.py
index bc3e76c..b2c69f1 100644
--- a/src/var_bayes/variational.py
+++ b/src/var_bayes/variational.py
@@ -86,10 +86,13 @@ class VarGP(object):
         # Replicate the first and last time points.
         time_x = [time_window[0], *time_window[self.obs_t], time_window[-1]]
 
+        # An observation might already be at the first (or last) time point.
+        time_x, idx = np.unique(time_x, return_index=True)
+
         # Switch according to the dimensionality.
         if self.model.single_dim:
             # Replicate the first and last observations.
-            obs_z = np.hstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))
+            obs_z = np.hstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))[idx]
 
             # Linear variational parameters.
             a0 = 0.5 * (self.model.sigma / 0.25) * np.ones(self.dim_n)
@@ -102,7 +105,7 @@ class VarGP(object):
             b0 = fb0(time_window)
         else:
             # Replicate the first and last observations.
-            obs_z = np.vstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))
+            obs_z = np.vstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))[idx]
 
             # Cubic spline extrapolation for
             # each dimension separately.
-- 
2.43.0


From 1a7293868eb1bb017e83069e67d95d08e2e37c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 20/22] fix: load the datasets with their own type

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 444a9ee..b7d2047 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -352,7 +352,7 @@ def load(filename=None):
 
         # Extract all the data.
         for key in input_file:
-            sim_data[key] = np.array(input_file[key], dtype=object)
+            sim_data[key] = np.array(input_file[key])
         # _end_for_
 
     # _end_with_
-- 
2.43.0


From 5ccd7b86433f928396f3bd41f16f50c42b5f6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 21/22] fix: save results that are zero-dimensional arrays

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index b7d2047..ffc8c8f 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -313,7 +313,7 @@ class Simulation(object):
                 for key in data:
 
                     # Convert scalars to 1D arrays.
-                    if np.isscalar(data[key]):
+                    if np.ndim(data[key]) == 0:
                         data[key] = np.atleast_1d(data[key])
                     # _end_if_
 
-- 
2.43.0


From aacadc4259d93fca8254694a9363742d74653f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:19 +0000
Subject: [PATCH 22/22] fix: refuse a non-symmetric system noise matrix (its
 stored inverse was not its inverse)

---
 src/dynamics/lorenz_63.py | 12 ++++++++++++
 src/dynamics/lorenz_96.py | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 76e6629..b2e5c18 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -88,6 +88,12 @@ class Lorenz63(StochasticProcess):
                              f" Wrong matrix dimensions: {self._sigma.shape}")
         # _end_if_
 
+        # Check for symmetry (the inverse uses only one triangle).
+        if not np.allclose(self._sigma, self._sigma.T):
+            raise RuntimeError(f" {self.__class__.__name__}:"
+                               f" Noise matrix {self._sigma} is not symmetric.")
+        # _end_if_
+
         # Check for positive definiteness.
         if np.any(np.linalg.eigvals(self._sigma) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
@@ -148,6 +154,12 @@ class Lorenz63(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}.")
         # _end_if_
 
+        # Check for symmetry (the inverse uses only one triangle).
+        if not np.allclose(new_value, new_value.T):
+            raise RuntimeError(f" {self.__class__.__name__}:"
+                               f" Noise matrix {new_value} is not symmetric.")
+        # _end_if_
+
         # Check for positive definiteness.
         if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index d4a62fe..639a5d1 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -168,6 +168,12 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {self._sigma.shape}")
         # _end_if_
 
+        # Check for symmetry (the inverse uses only one triangle).
+        if not np.allclose(self._sigma, self._sigma.T):
+            raise RuntimeError(f" {self.__class__.__name__}:"
+                               f" Noise matrix {self._sigma} is not symmetric.")
+        # _end_if_
+
         # Check for positive definiteness.
         if np.all(np.linalg.eigvals(self._sigma) > 0.0):
             # This is a better way to invert Sigma.
@@ -227,6 +233,12 @@ class Lorenz96(StochasticProcess):
             raise ValueError(f" {self.__class__.__name__}:"
                              f" Wrong matrix dimensions: {new_value.shape}")
 
+        # Check for symmetry (the inverse uses only one triangle).
+        if not np.allclose(new_value, new_value.T):
+            raise RuntimeError(f" {self.__class__.__name__}:"
+                               f" Noise matrix {new_value} is not symmetric.")
+        # _end_if_
+
         # Check for positive definiteness.
         if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
-- 
2.43.0

