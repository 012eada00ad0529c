From 300dbf94c78749d06a1b7ed803bc47b895311300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 01/28] fix: use the Student-t degrees of freedom convention of
 the matching density

The real fixed point solved the complex likelihood equation and vice versa.
---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b2508dd..8101c13 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -246,9 +246,9 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
-        tau = df/2 + np.real(tau)
+        tau = df + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df/2+p)/N) * temp@temp.T
+        sigma_new = ((df+p)/N) * temp@temp.T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
@@ -850,9 +850,9 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
-        tau = df + np.real(tau)
+        tau = df/2 + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df+p)/N) * temp@temp.conj().T
+        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
-- 
2.43.0


From 09db620799ff296bc8c7a31ab2161878cdff41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 02/28] fix: Huber M-estimators weight samples by u(d) and use
 the right thresholds

Samples were divided by sqrt(u(d)) instead of multiplied, and the real
threshold and consistency factor used the complex convention.
---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 8101c13..4a79c48 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,8 +158,8 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         sigma = init
         
     # Estimating lambda and beta
-    lbda = chi2.ppf(q, p)/2    
-    beta = chi2.cdf(2*lbda, p+1) + 2*lbda*(1-q)/p
+    lbda = chi2.ppf(q, p)
+    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
@@ -172,7 +172,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.T
 
         # condition for stopping
@@ -764,7 +764,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.conj().T
 
         # mask_scm = tau<=a
-- 
2.43.0


From 10d0f678a2c3004e06b1b495ddfed028d08b7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 03/28] fix: Kronecker MM estimates A, not its conjugate

x^H (A kron B)^-1 x = tr(A^-T M^H B^-1 M) for x = vec(M): the transpose of
the A factor was missing, so complex data gave conj(A).
---
 robuststats/estimation/structured.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 35d9cab..1b1d5c6 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -97,7 +97,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         M = np.zeros((a, a), dtype=Y.dtype)
         M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator[:, :, i] = M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]
+            M_numerator[:, :, i] = M_i[:, :, i].T @ i_B.T @  M_i[:, :, i].conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
         A_new = sqrtm_A @ sp.linalg.sqrtm(isqrtm_A @ M @ isqrtm_A) @ sqrtm_A
@@ -108,7 +108,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         # Update B with eq. (67)
         M = np.zeros((b, b), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator_B = M_i[:, :, i] @ i_A @  M_i[:, :, i].T.conj()
+            M_numerator_B = M_i[:, :, i] @ i_A.T @  M_i[:, :, i].T.conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += b/n_samples * (M_numerator_B/M_denominator)
         B_new = sqrtm_B @ sp.linalg.sqrtm(isqrtm_B @ M @ isqrtm_B) @ sqrtm_B
-- 
2.43.0


From 7507ab278faf14a07aefab721d7564fdb086f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 04/28] fix: Kronecker MM returns the final error instead of
 the tolerance

---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 1b1d5c6..c82f0bb 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -129,7 +129,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     if iteration == iter_max:
         logging.info('Recursive algorithm did not converge')
 
-    return A, B, tol, iteration
+    return A, B, delta, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From 759af490c517dd58168b3f3bb5587b49fe440b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 05/28] fix: Kronecker Student gradient is the Euclidean
 gradient of its cost

It used the real-data constants, a transposed A factor, uncentred data and a
different scale from the cost handed to the optimiser.
---
 robuststats/estimation/structured.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index c82f0bb..41da6de 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -275,13 +275,14 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
         grad_A = np.zeros_like(A)
         grad_B = np.zeros_like(B)
         for i in range(n_samples):
-            M_i = X[i, :].reshape((b, a), order='F')
-            Q_i = np.real(np.trace(i_A@M_i.T@i_B@M_i))
-
-            grad_A -= (df+a*b)/(df+Q_i) * i_A@(M_i.T.conj()@i_B@M_i)@i_A
-            grad_B -= (df+a*b)/(df+Q_i) * i_B@(M_i@i_A@M_i.T.conj())@i_B
-        grad_A = grad_A/n_samples + b*i_A
-        grad_B = grad_B/n_samples + a*i_B
+            M_i = Y[i, :].reshape((b, a), order='F')
+            S_i = M_i.T@i_B.T@M_i.conj()
+            Q_i = np.real(np.trace(i_A@S_i))
+
+            grad_A -= (df+2*a*b)/(df+2*Q_i) * i_A@S_i@i_A
+            grad_B -= (df+2*a*b)/(df+2*Q_i) * i_B@(M_i@i_A.T@M_i.T.conj())@i_B
+        grad_A = grad_A + n_samples*b*i_A
+        grad_B = grad_B + n_samples*a*i_B
 
         return (grad_A.T.conj(), grad_B.T.conj())
 
-- 
2.43.0


From ac849b1fb9d5946c3a83a2ead88e357e4733bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 06/28] fix: KroneckerStudent.score is the log-likelihood under
 the fitted model

It refitted the model on the test data and returned minus the log-likelihood.
---
 robuststats/estimation/structured.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 41da6de..59f01db 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -404,15 +404,10 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        # compute empirical covariance of the test set
-        A, B = _estimate_covariance_kronecker_t_gradient(
-            X_test, self.df, self.a, self.b, self.manifold, self.location_,
-            self.verbosity
-        )
         # compute log likelihood
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
         )
-        res = cost_function(A, B)
+        res = -cost_function(self.A_, self.B_)
 
         return res
-- 
2.43.0


From 1196f84742200acfa94685bc2b9f49c3d419c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 07/28] fix: natural-gradient Tyler estimators can be fitted
 again

That method reports no iteration count (None), which the second fit compared
with 0.
---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 4a79c48..95c91e0 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -687,7 +687,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
@@ -1266,7 +1266,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
-- 
2.43.0


From e3fbcddb46e5b22c7ff6f4167f1880fe3e068829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 08/28] fix: Tyler estimators fit with the method and
 parameters they currently hold

The estimation function was bound when the object was built, so that a copy
used the original's parameters and set_params(method=...) had no effect.
---
 robuststats/estimation/covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 95c91e0..d29a5ed 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -690,6 +690,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
@@ -1269,6 +1270,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
+        self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
         self._set_covariance(covariance)
-- 
2.43.0


From 1ff423da879d542b800626b21c07e063d6be792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 09/28] fix: real centred estimators set the location score and
 mahalanobis need

TylerShapeMatrix.score raised AttributeError on a fitted estimator.
---
 robuststats/estimation/covariance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index d29a5ed..810f252 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -518,6 +518,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -591,6 +592,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         covariance, err, iteration = student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -693,6 +695,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         self.set_method()
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
-- 
2.43.0


From 7dbdb4123aa6f42fa380fbbdf801b6d34a4f215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 10/28] fix: complex natural-gradient Tyler maps its initial
 point to the real problem

---
 robuststats/estimation/covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 810f252..692bd5a 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -20,7 +20,8 @@ from sklearn.utils.validation import _deprecate_positional_args
 from sklearn.covariance import EmpiricalCovariance, empirical_covariance
 from .base import complex_empirical_covariance, ComplexEmpiricalCovariance,\
                 RealEmpiricalCovariance
-from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex
+from ..models.mappings import arraytoreal, arraytocomplex,\
+    covariancetoreal, covariancetocomplex
 from ..models.manifolds import HermitianPositiveDefinite
 from ..models.cost import Tyler_cost_real, Tyler_cost_complex
 from ..models.probability import complex_multivariate_t
@@ -917,6 +918,8 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
         Always None. For compatibility purposes
     """
     X_real = arraytoreal(X)
+    if init is not None:
+        init = covariancetoreal(init)
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From e93a705a7207401d82fb0d6c8c3061ccfcada3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:39 +0000
Subject: [PATCH 11/28] fix: complex t densities called without freezing use
 the complex model

---
 robuststats/models/probability.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 1107ff6..9989564 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -373,6 +373,16 @@ class complex_multivariate_t_gen(multivariate_t_gen):
 
         return x
 
+    def logpdf(self, x, loc=None, shape=1, df=1):
+        x, loc, shape = _check_parameters_array_complex_normal(x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).logpdf(x, loc, shape, df))
+
+    def pdf(self, x, loc=None, shape=1, df=1, allow_singular=False):
+        x, loc, shape = _check_parameters_array_complex_normal(x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).pdf(x, loc, shape, df, allow_singular))
+
     def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
         """Draw random samples from a multivariate t-distribution.
         Parameters
-- 
2.43.0


From 782c997bd4b02d572d731eae875bb8bc21d20b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:39 +0000
Subject: [PATCH 12/28] fix: a complex mean with a real scatter is a complex
 model for densities too

The parameters were mapped to the real model but the data were not.
---
 robuststats/models/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 9989564..2ccf520 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -71,13 +71,13 @@ def _check_parameters_array_complex_normal(X, mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
-    if np.iscomplexobj(cov):
+    if np.iscomplexobj(mean) or np.iscomplexobj(cov):
         if np.isrealobj(X):
             logging.warning(
                 "Input data is real while parameters are complex. "
                 "Considering data as complex with null imaginary part.")
         return arraytoreal(X.astype(complex)), mean_map, cov_map
-    elif np.iscomplexobj(X) and np.isrealobj(cov):
+    elif np.iscomplexobj(X):
         logging.warning(
             "Input data is complex while parameters of model are not."
             " Discarding imaginary part of data")
-- 
2.43.0


From 3dcc480e701c9ffe100f2a1fc1b7abe17a25a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:39 +0000
Subject: [PATCH 13/28] fix: complex models accept the default scalar scatter

len(1) raised TypeError with default parameters.
---
 robuststats/models/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 2ccf520..9c00148 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -37,7 +37,7 @@ def _check_parameters_complex_normal(mean, cov):
     array_like
         Covariance matrix of the distribution, complex if necessary.
     """
-    if mean is None:
+    if mean is None and np.ndim(cov) > 0:
         mean = np.zeros((len(cov),), dtype=cov.dtype)
 
     if np.isrealobj(mean) and np.isrealobj(cov):
-- 
2.43.0


From 9c9d0d947b1d4884ff9474376ac1563c28499cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:26 +0000
Subject: [PATCH 14/28] fix: unvech is the inverse of vech for complex
 Hermitian matrices

vech stacks the lower triangle; unvech filled the upper one.
---
 robuststats/utils/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 0a13348..851818d 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -180,7 +180,7 @@ def unvech(v):
 
     result = np.zeros((rows, rows), dtype=v.dtype)
     result[np.triu_indices(rows)] = v
-    result = result + result.conj().T
+    result = result.T + result.conj()
 
     # divide diagonal elements by 2
     result[np.diag_indices(rows)] /= 2
-- 
2.43.0


From 90c9ce674fe622b5401b129baa8c4db9f33645f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:26 +0000
Subject: [PATCH 15/28] fix: _FeatureArray.vectorize leaves out the
 preallocated rows

---
 robuststats/estimation/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 57fe59a..cb27bd9 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -120,6 +120,7 @@ class _FeatureArray():
 
         temp = list()
         for a in self._array:
+            a = a[:len(self)]
             vec = None
             bs = len(a)
 
-- 
2.43.0


From 5526b19e9053050ebd758270037eafe5e7ecc2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:26 +0000
Subject: [PATCH 16/28] fix: _FeatureArray accepts numpy integers as index

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index cb27bd9..81e6930 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -72,7 +72,7 @@ class _FeatureArray():
         a = self._array
         a = [a[i][:len(self)] for i in range(len(a))]
         temp = [a[i][key] for i in range(len(a))]
-        if type(key) == int:
+        if isinstance(key, (int, np.integer)):
             temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
         f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
         f_a.append(temp)
-- 
2.43.0


From 38d81187207214579eae6f77f59267fb6a45774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:26 +0000
Subject: [PATCH 17/28] fix: a refused _FeatureArray.append leaves the array
 unchanged

With several manifolds, the parts before the refused one had been stored.
---
 robuststats/estimation/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 81e6930..cd383ea 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -92,6 +92,8 @@ class _FeatureArray():
 
         check_value(self.nb_manifolds, 'self.nb_manifolds', [len(data)])
 
+        # check everything before changing anything
+        data = list(data)
         for i, (a, d) in enumerate(zip(self._array, data)):
             check_type(d, 'd', [np.ndarray, np.memmap])
             if a is not None:
@@ -102,7 +104,9 @@ class _FeatureArray():
                 d = d[np.newaxis, ...]
 
             check_value(d.ndim, 'd.ndim', [len(self._shape[i])+1])
+            data[i] = d
 
+        for i, (a, d) in enumerate(zip(self._array, data)):
             if a is None:
                 self._array[i] = d
             else:
-- 
2.43.0


From 63a0a050a3991bc4d21f3ff52cb7b650bed63e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 18/28] fix: CovariancesEstimation does not truncate
 covariances of integer data

---
 robuststats/estimation/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index cd383ea..d538de8 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -263,7 +263,8 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             ndarray of covariance matrices for each trials.
         """
         n_trials, n_samples, n_features = X.shape
-        covmats = np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
+        covmats = np.zeros((n_trials, n_features, n_features),
+                           dtype=np.result_type(X.dtype, float))
         if self.n_jobs == 1:
             for i in range(n_trials):
                 self.estimator.fit(X[i, :, :], **kwargs)
-- 
2.43.0


From 8887562cdc44409d1c80bd2371ae5cdbcc4ba416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 19/28] fix: real dimension of the (special) Hermitian positive
 definite manifolds

Hermitian n x n matrices form a real space of dimension n^2, not n(n+1).
---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 67c57d6..88f1646 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -108,7 +108,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
                     ({} x {}) matrices").format(n, n)
         else:
             name = "Product manifold of {} ({} x {}) matrices".format(k, n, n)
-        dimension = 2 * int(k * n * (n + 1) / 2)
+        dimension = int(k * n**2)
         super().__init__(name, dimension)
 
     def rand(self):
@@ -275,7 +275,7 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         else:
             name = "Product manifold of {} special Hermitian positive\
                     definite ({} x {}) matrices".format(k, n, n)
-        dimension = int(k * (n*(n+1) - 1))
+        dimension = int(k * (n**2 - 1))
         super().__init__(name, dimension)
 
     def rand(self):
-- 
2.43.0


From f7a6ac1058bf54a12aa88a6f30d22f71161a4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 20/28] fix: random tangent vectors of a weighted product have
 unit norm

---
 robuststats/models/manifolds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 88f1646..7c455ce 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -414,7 +414,7 @@ class WeightedProduct(man.Product):
         weights = self._weights
         scale = len(self._manifolds) ** (-1/2)
         return _ProductTangentVector(
-            [scale * (1/weights[k]**(-1/2)) * man.randvec(X[k])
+            [scale * weights[k]**(-1/2) * man.randvec(X[k])
              for k, man in enumerate(self._manifolds)])
 
 
-- 
2.43.0


From 5cd3536d76515fb788504b4725c17d336802c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 21/28] fix: Kronecker elliptical egrad2rgrad is the gradient
 of its own metric

The inherited conversion ignores the trace term of the inner product.
---
 robuststats/models/manifolds.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 7c455ce..d9a7471 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -477,3 +477,14 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
             (self._alpha - 1) * (self._a**2) *\
             np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
         return _part_A + _part_B
+
+    def egrad2rgrad(self, theta, U):
+        # Riemannian gradient for the metric above: the term in the traces
+        # makes the B part differ from that of the weighted product.
+        a, b, alpha = self._a, self._b, self._alpha
+        rgrad = super().egrad2rgrad(theta, U)
+        B = theta[1]
+        t = np.real(np.trace(B @ multiherm(U[1])))
+        rgrad[1] = rgrad[1] -\
+            (alpha - 1)/(alpha*(alpha + (alpha - 1)*a*b)) * t * B
+        return rgrad
-- 
2.43.0


From d88a94eed2c9a75458c0dcceb9526f28f8fa0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:47 +0000
Subject: [PATCH 22/28] fix: online estimator without initial point logs an
 error instead of failing

---
 robuststats/online/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 317aa30..15f4902 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -70,12 +70,12 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
 
-        self.set_estimate(init)
-        if self.estimate_ is None:
+        if init is None:
             logging.error(
              "Estimator not initilaized. Please provide an initial point."
             )
             return self
+        self.set_estimate(init)
 
         n_samples, n_features = X.shape
         if self._verbosity:
-- 
2.43.0


From df33fa903753f4ad6c1c3a8624970369745486e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:21 +0000
Subject: [PATCH 23/28] fix: gradient of the real Tyler cost is finite at
 matrices with equal eigenvalues

Differentiating the eigendecomposition divides by differences of eigenvalues,
so that natural-gradient Tyler failed from the identity and from the real
mapping of any complex initial point.
---
 robuststats/models/cost.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 63f99ce..a4d4fcd 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -47,9 +47,7 @@ def Tyler_cost_real(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    
-    q = be.einsum('ij,ji->i', temp.T, temp)
+    q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
     return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
 
 
-- 
2.43.0


From 5ad4de78e1e6a619b29f439e41299825e8996253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:03 +0000
Subject: [PATCH 24/28] fix: error_norm of complex covariances vanished for
 different matrices

---
 robuststats/estimation/base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index d538de8..45e9ba0 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -408,8 +408,20 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         """Overidden error_norm of EmpiricalCovariance
         to handle complex data."""
 
-        return np.abs(super().error_norm(comp_cov, norm, scaling,
-                                         squared))
+        error = comp_cov - self.covariance_
+        if norm == "frobenius":
+            squared_norm = np.sum(np.abs(error) ** 2)
+        elif norm == "spectral":
+            squared_norm = np.amax(linalg.svdvals(
+                np.dot(error.conj().T, error)))
+        else:
+            raise NotImplementedError(
+                "Only spectral and frobenius norms are implemented")
+        if scaling:
+            squared_norm = squared_norm / error.shape[0]
+        if squared:
+            return squared_norm
+        return np.sqrt(squared_norm)
 
 
 # -----------------------------------------------------------------------
-- 
2.43.0


From 7052aac13cfa6b15378a56a0020f23c64a1b2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 25/28] fix: features of parallel trials came from one shared
 estimator

The copy made for each trial was not used, so that trials handled by several
threads overwrote each other's fit.
---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 45e9ba0..98a3294 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -163,7 +163,7 @@ def _feature_estimation(estimator):
     def wrapper(data, **kwargs):
         # estimation
         f = deepcopy(estimator)
-        f = estimator.fit_transform(data, **kwargs)
+        f = f.fit_transform(data, **kwargs)
 
         # return a _FeatureArray
         if type(f) in [np.float64, np.complex128]:
-- 
2.43.0


From 9f6369fcca286fb3c974171f6194a7f722b418aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:13 +0000
Subject: [PATCH 26/28] fix: random covariances of dimension 1

scipy's ortho_group and unitary_group reject dimension 1, so generate_covariance(1)
and generate_complex_covariance(1) raised.
---
 robuststats/utils/generation_data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/robuststats/utils/generation_data.py b/robuststats/utils/generation_data.py
index f2f4c39..9bd3c85 100644
--- a/robuststats/utils/generation_data.py
+++ b/robuststats/utils/generation_data.py
@@ -66,7 +66,10 @@ def generate_textures_lognormal_dist(N, variance=2.4):
 
 
 def generate_stiefel(p, k):
-    if k < p:
+    if p == 1:
+        # scipy only draws from groups of dimension 2 and more
+        Q = random.choice([-1., 1.], size=(1, 1))
+    elif k < p:
         Q = ortho_group.rvs(p)[:, :k]
     else:
         Q = ortho_group.rvs(p)
@@ -74,7 +77,10 @@ def generate_stiefel(p, k):
 
 
 def generate_complex_stiefel(p, k):
-    if k < p:
+    if p == 1:
+        # scipy only draws from groups of dimension 2 and more
+        Q = np.exp(2j*np.pi*random.rand(1, 1))
+    elif k < p:
         Q = unitary_group.rvs(p)[:, :k]
     else:
         Q = unitary_group.rvs(p)
-- 
2.43.0


From c344be769bb28392c9e4cc399fb2e0b0f6f746f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:24 +0000
Subject: [PATCH 27/28] fix: score of a fitted Student estimator whose
 iteration stopped before the first step

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 692bd5a..3b0ab5f 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -600,7 +600,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         return self
 
     def score(self, X_test, y=None):
-        if self.iteration_ ==0:
+        if not hasattr(self, 'covariance_'):
             logging.error("Estimator hasn't been fitted yet !")
             return None
         logpdf = multivariate_t(
@@ -1182,7 +1182,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         return self
 
     def score(self, X_test, y=None, model='Gaussian'):
-        if self.iteration_ ==0:
+        if not hasattr(self, 'covariance_'):
             logging.error("Estimator hasn't been fitted yet !")
             return None
         logpdf = complex_multivariate_t(
-- 
2.43.0


From 08c9d4dd5ce3547295bdcf63d127449c0d188c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:01 +0000
Subject: [PATCH 28/28] fix: Kronecker MM on integer data

---
 robuststats/estimation/structured.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 59f01db..d623ce9 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -64,6 +64,8 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     """
 
     n_samples, n_features = X.shape
+    if not np.issubdtype(X.dtype, np.inexact):
+        X = X.astype(float)
     Y = X.T
 
     if a*b != n_features:
-- 
2.43.0

