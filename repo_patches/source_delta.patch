From 7ef54c0af41af4b3885db466a31f17745a22e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 01/80] fix: Qn no longer loops forever when rounding makes its
 counts inconsistent

---
 robpy/univariate/qn.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 949f7a5..2878dc8 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -60,8 +60,8 @@ class Qn(RobustScale):
             jhelp = (left + weight // 2).astype(int)
             work = y - y[n - jhelp]
             trial = weighted_median(work, weight)
-            P = np.searchsorted(-np.flip(y), trial - y, "left", np.arange(n))
-            Q = np.searchsorted(-np.flip(y), trial - y, "right", np.arange(n)) + 1
+            P = _count_differences(y, trial, np.less)
+            Q = _count_differences(y, trial, np.less_equal) + 1
             if knew <= np.sum(P):
                 right = P
                 nR = np.sum(P)
@@ -91,6 +91,21 @@ class Qn(RobustScale):
         self.location_ = self.location_func(X)
 
 
+def _count_differences(y: np.ndarray, trial: float, compare: np.ufunc) -> np.ndarray:
+    """
+    For each y[i] of the sorted sample y, counts the differences y[i] - y[j] for which
+    compare(y[i] - y[j], trial) holds. The differences themselves are compared, because
+    rearranging the inequality gives other results in floating point arithmetic.
+    """
+    low = np.zeros(len(y), dtype=int)
+    high = np.full(len(y), len(y))
+    while (low < high).any():
+        middle = (low + high) // 2
+        holds = (low < high) & compare(y - y[len(y) - 1 - np.minimum(middle, len(y) - 1)], trial)
+        low, high = np.where(holds, middle + 1, low), np.where(holds, high, middle)
+    return low
+
+
 def _get_small_sample_dn(n: int):
     """
     Calculates the correction factor for the Qn estimator at small samples.
-- 
2.43.0


From db01be49b1946039fb36242db85d8663a3739c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 02/80] fix: univariate MCD, tau and wrapping estimators return
 NaN when most values are identical

---
 robpy/univariate/mcd.py       | 2 ++
 robpy/univariate/onestep_m.py | 4 ++++
 robpy/univariate/tau.py       | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/robpy/univariate/mcd.py b/robpy/univariate/mcd.py
index 11a439b..3ba0fb6 100644
--- a/robpy/univariate/mcd.py
+++ b/robpy/univariate/mcd.py
@@ -63,6 +63,8 @@ class UnivariateMCD(RobustScale):
         return raw_var, raw_loc
 
     def _reweighting(self, X: np.ndarray):
+        if self.raw_variance_ == 0:  # at least h identical observations
+            return self.raw_variance_, self.raw_location_
         distances = (X - self.raw_location_) ** 2 / self.raw_variance_
         mask = distances < chi2.ppf(0.975, df=1)
         loc = np.mean(X[mask])
diff --git a/robpy/univariate/onestep_m.py b/robpy/univariate/onestep_m.py
index 24f46f9..b998f9a 100644
--- a/robpy/univariate/onestep_m.py
+++ b/robpy/univariate/onestep_m.py
@@ -111,6 +111,10 @@ class OneStepWrapping(RobustScale):
 
         # initial estimates: univariate MCD
         initial_estimates = UnivariateMCD().fit(X)
+        if initial_estimates.scale == 0:  # the majority of the observations is identical
+            self.location_ = initial_estimates.location
+            self.scale_ = initial_estimates.scale
+            return
 
         # one step M estimator for location using hyperbolic tangent weight function:
         X_standardized = (X - initial_estimates.location) / initial_estimates.scale
diff --git a/robpy/univariate/tau.py b/robpy/univariate/tau.py
index ca73465..18de1ef 100644
--- a/robpy/univariate/tau.py
+++ b/robpy/univariate/tau.py
@@ -41,6 +41,10 @@ class Tau(RobustScale):
         """
         n = len(X)
         sigma0 = median_abs_deviation(X)
+        if sigma0 == 0:  # at least half of the observations are identical
+            self.location_ = np.median(X)
+            self.scale_ = sigma0
+            return
         weights = self._weight_function((X - np.median(X)) / sigma0)
         self.location_ = np.sum(X * weights) / np.sum(weights)
         self.scale_ = sigma0 * np.sqrt(
-- 
2.43.0


From 1c35eaea81614cf21eb7b211cb157a84414d8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 03/80] fix: MM regression weighted its intercept wrongly and
 failed on exactly fitted points

---
 robpy/regression/mm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index fc2a958..8935bfd 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -49,12 +49,11 @@ class MMRegression(RobustRegression):
         self._scale = self.model.scale
         self.n_iter = 0
         for i in range(self.max_iterations):
-            residuals = y - self.model.predict(X)
-            scaled_residuals = residuals / self._scale
-            weights = self.rho.psi(scaled_residuals) / scaled_residuals
-            self.model = LinearRegression().fit(
-                np.sqrt(weights).reshape(-1, 1) * X, np.sqrt(weights) * y
-            )
+            residuals = y - self.model.predict(X).flatten()
+            weights = np.ones_like(residuals)  # limit of psi(r) / r for exactly fitted points
+            scaled_residuals = residuals[residuals != 0] / self._scale
+            weights[residuals != 0] = self.rho.psi(scaled_residuals) / scaled_residuals
+            self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
-- 
2.43.0


From 98c6c8dcb7a709779db222521456c784ba85d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 04/80] fix: LTS reweighting used the non-robust standard
 deviation of all residuals

---
 robpy/regression/lts.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index fcb2ce7..3119063 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -137,7 +137,8 @@ class FastLTSRegression(RobustRegression):
         )
         if self.reweighting:
             residuals = y.reshape(-1, 1) - self.predict(X)
-            mask = (np.abs(residuals / np.std(residuals)) <= norm.ppf(0.9875)).flatten()
+            raw_scale = self._scale * get_consistency_factor(h / X.shape[0])
+            mask = (np.abs(residuals) <= norm.ppf(0.9875) * raw_scale).flatten()
             self.model = LinearRegression().fit(X[mask, :], y[mask])
             new_subset = np.arange(X.shape[0])[mask]
             best_loss = self._get_loss_value(X, y, new_subset, self.model)
@@ -316,6 +317,21 @@ class FastLTSRegression(RobustRegression):
         return h_subset_idx, lr_model
 
 
+def get_consistency_factor(h_fraction: float) -> float:
+    """
+    Calculate the factor that makes the root mean square of the smallest fraction of the absolute
+    residuals consistent for the standard deviation at the normal model.
+
+    References:
+     - Croux, C., & Rousseeuw, P. J. (1992). A class of high-breakdown scale estimators based on
+       subranges. Communications in Statistics - Theory and Methods, 21(7), 1935-1951.
+    """
+    if h_fraction >= 1:
+        return 1.0
+    q = norm.ppf((1 + h_fraction) / 2)
+    return 1 / np.sqrt(1 - 2 * q * norm.pdf(q) / h_fraction)
+
+
 def get_correction_factor(p: int, n: int, alpha: float) -> float:
     """
     Calculate the small sample correction factor for the scale resulting from LTS regression when
-- 
2.43.0


From d6ef944306985cc2450fc123588776d1559456a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 05/80] fix: LTS and S regression reseeded NumPy's global
 random generator

---
 robpy/regression/lts.py | 5 ++---
 robpy/regression/s.py   | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index 3119063..e6d9c1b 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -170,7 +170,6 @@ class FastLTSRegression(RobustRegression):
         Returns:
             List of models, List of losses and List of h subsets.
         """
-        np.random.seed(self.random_state)
         lr_models = []
         losses = []
         h_subsets = []
@@ -215,8 +214,8 @@ class FastLTSRegression(RobustRegression):
             LinearRegression: A Linear Regression model fitted on a random subset.
         """
         n_obs, n_features = X.shape  # n, p
-        np.random.seed(random_state)
-        subset_idx = np.random.choice(n_obs, n_features + 1, replace=False)
+        rng = np.random.RandomState(random_state)  # leaves the global random state untouched
+        subset_idx = rng.choice(n_obs, n_features + 1, replace=False)
         lr_model = LinearRegression().fit(X[subset_idx], y[subset_idx])
         return lr_model
 
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index f06d0b5..476b3f7 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -167,8 +167,8 @@ class SRegression(RobustRegression):
         models = []
         scales = []
         for seed in range(self.random_state, self.random_state + self.n_initial_subsets):
-            np.random.seed(seed)
-            sample_idx = np.random.choice(X.shape[0], X.shape[1] + 1, replace=False)
+            rng = np.random.RandomState(seed)  # leaves the global random state untouched
+            sample_idx = rng.choice(X.shape[0], X.shape[1] + 1, replace=False)
             model = WLS(y[sample_idx], X[sample_idx]).fit()
             residuals = model.predict(X) - y
             scale = np.median(np.abs(residuals)) / 0.6745
-- 
2.43.0


From 1779dfb82fbc0b69795117785d5801754725e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 06/80] fix: S regression could not predict a single row or a
 batch with a constant column

---
 robpy/regression/s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 476b3f7..6609b77 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -85,7 +85,7 @@ class SRegression(RobustRegression):
 
         X, y = _convert_input_to_array(X, y)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
         self.logger.info(f"Fitted {len(models)} initial models.")
         best_idx = np.argsort(scales)[: self.n_best_subsets]
@@ -130,7 +130,7 @@ class SRegression(RobustRegression):
             raise NotFittedError
         X, _ = _convert_input_to_array(X)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         return self.model.predict(X)
 
     def _get_scale(self, s0: float, residuals: np.ndarray):
-- 
2.43.0


From 939e84f46fa2f17dd89a1bcc8f8b8f0672c356a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 07/80] fix: default M-scale equation of S regression had no
 solution (b above the maximum of rho)

---
 robpy/regression/s.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 6609b77..0c777af 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -17,7 +17,7 @@ class SRegression(RobustRegression):
         n_initial_i_steps: int = 2,
         n_best_subsets: int = 5,
         max_scale_iterations: int = 2,
-        b: float = 0.5,
+        b: float = 0.1995,
         fit_intercept: bool = True,
         relative_tolerance: float = 1e-7,
         scale_tolerance: float = 1e-10,
@@ -45,7 +45,9 @@ class SRegression(RobustRegression):
                 Number of iterative steps to derive M-scale estimates (`r` in the original paper).
                 Defaults to 2.
             b (float, optional):
-                constant on the RHS of the M scale equation. Defaults to 0.5.
+                constant on the RHS of the M scale equation, must be below the maximum of rho.
+                Defaults to 0.1995, the expected value of the default rho at the normal model
+                (half of its maximum, for a 50% breakdown value).
             fit_intercept (bool, optional):
                 Whether an intercept should be included in the linear regression. Defaults to True.
             relative_tolerance (float, optional):
-- 
2.43.0


From b9e403adb132504622d541336eb503abd1b949b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 08/80] fix: regression outlier_map failed for Series targets
 and for a single feature

---
 robpy/regression/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/base.py b/robpy/regression/base.py
index c3dec59..4887302 100644
--- a/robpy/regression/base.py
+++ b/robpy/regression/base.py
@@ -80,6 +80,7 @@ class RobustRegression(RegressorMixin, BaseEstimator):
               points. Journal of the American Statistical Association,  85(411), 633–651.
         """
 
+        X, y = _convert_input_to_array(X, y)
         residuals = y.reshape(-1, 1) - self.predict(X).reshape(-1, 1)
         standardized_residuals = (
             residuals
@@ -95,7 +96,7 @@ class RobustRegression(RegressorMixin, BaseEstimator):
             covariance = mcd.covariance_
             location = mcd.location_
         else:
-            covariance = np.cov(X, rowvar=False)
+            covariance = np.atleast_2d(np.cov(X, rowvar=False))
             location = np.mean(X, axis=0)
         distances = mahalanobis_distance(X, location=location, covariance=covariance)
 
-- 
2.43.0


From 5fe33252a2903f5abb9df4c9b0bcba7a152c90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 09/80] fix: FastMCD and DetMCD stopped their final C-steps
 before convergence

---
 robpy/covariance/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index cbc70be..23460b0 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -129,7 +129,7 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
@@ -340,7 +340,7 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From 2b5489ed7f79a6a6787b1de6b041c08bdec96866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 10/80] fix: MCD convergence tolerance depended on the units of
 the data

---
 robpy/covariance/mcd.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 23460b0..3506c7b 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -67,8 +67,8 @@ class FastMCD(RobustCovariance):
               This can speed up the algorithm for large datasets (n > 600 suggested in paper).
               If None, 5 partitions are used if n > 600, otherwise 1 partition is used.
             tolerance (float, optional):
-              Minimum difference in determinant between two iterations to stop the C-step.
-              Defaults to 1e-8.
+              Minimum relative difference in determinant between two iterations to stop the
+              C-step. Defaults to 1e-8.
             correct_covariance (bool, optional):
               Whether to apply a consistency correction to the raw covariance estimate.
               Defaults to True.
@@ -129,7 +129,8 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (subset.determinant - new_subset.determinant) < self.tolerance
+                    or not subset.determinant - new_subset.determinant
+                    > self.tolerance * subset.determinant
                 ):
                     break
                 subset = new_subset
@@ -293,8 +294,8 @@ class DetMCD(RobustCovariance):
                 If None or an integer below [(n+p+1)/2], h is set to [(n+p+1)/2].
                 Defaults to None.
             tolerance (float, optional):
-                Minimum difference in determinant between two iterations to stop the C-step.
-                Defaults to 1e-8.
+                Minimum relative difference in determinant between two iterations to stop the
+                C-step. Defaults to 1e-8.
             correct_covariance (bool, optional):
                 Whether to apply a consistency correction to the raw covariance estimate.
                 Defaults to True.
@@ -340,7 +341,8 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (subset.determinant - new_subset.determinant) < self.tolerance
+                    or not subset.determinant - new_subset.determinant
+                    > self.tolerance * subset.determinant
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From c103e4528946ba5efa703580bd6bcfbb9aa71c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 11/80] fix: FastMCD refused an integer alpha whenever the data
 are partitioned

---
 robpy/covariance/mcd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 3506c7b..cc761e7 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -102,6 +102,7 @@ class FastMCD(RobustCovariance):
             self.location_ = X.mean(0)
             return np.cov(X, rowvar=False)
         self.rng = np.random.default_rng(self.random_seed)
+        self._n_samples = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
         partitions = self._partition_data(X)
         self.logger.info(f"Partitioned data into {len(partitions)} partitions")
@@ -196,6 +197,8 @@ class FastMCD(RobustCovariance):
 
     def _get_h(self, X: np.ndarray) -> int:
         n, p = X.shape
+        if n < self._n_samples and isinstance(self.alpha, int):  # X is a partition of the data
+            return max(int(self.alpha / self._n_samples * n), int((n + p + 1) / 2))
         if self.alpha is None:
             return int((n + p + 1) / 2)
         elif isinstance(self.alpha, int) and (n / 2 <= self.alpha <= n):
-- 
2.43.0


From 4f591125f32f87183cee999fb58023ac6f72d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 12/80] fix: DetMCD failed when an observation coincides with
 the coordinatewise median

---
 robpy/covariance/mcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index cc761e7..df58844 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -404,7 +404,7 @@ class DetMCD(RobustCovariance):
         S2 = np.corrcoef(R, rowvar=False)
         S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
-        w = 1 / znorm
+        w = 1 / np.where(znorm > 0, znorm, 1)  # a row at the median has no direction
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
         S5 = np.cov(Z[idx, :], rowvar=False)
-- 
2.43.0


From ff6cf0bf60feba9b42886b438f53b80e6cb97ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 13/80] fix: covariance estimators (and the regression outlier
 map) failed on a single feature

---
 robpy/covariance/base.py     |  2 +-
 robpy/covariance/mcd.py      | 24 ++++++++++++------------
 robpy/covariance/ogk.py      |  2 +-
 robpy/covariance/wrapping.py |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index f5b24ea..09f5848 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -79,7 +79,7 @@ class RobustCovariance(EmpiricalCovariance):
         self._set_covariance(covariance)
         if self.store_precision:
             self.precision_ = pinvh(covariance)
-        self.default_covariance_ = np.cov(X, rowvar=False)
+        self.default_covariance_ = np.atleast_2d(np.cov(X, rowvar=False))
         self._robust_distances = mahalanobis_distance(
             X, location=self.location_, covariance=self.covariance_
         )
diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index df58844..3e05529 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -100,7 +100,7 @@ class FastMCD(RobustCovariance):
         if self.alpha == 1 or self.alpha == X.shape[0]:
             self.logger.warning(f"Default covariance is returned as alpha is {self.alpha}.")
             self.location_ = X.mean(0)
-            return np.cov(X, rowvar=False)
+            return np.atleast_2d(np.cov(X, rowvar=False))
         self.rng = np.random.default_rng(self.random_seed)
         self._n_samples = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
@@ -150,7 +150,7 @@ class FastMCD(RobustCovariance):
             distances = mahalanobis_distance(X, best_subset.location, scale)
             self._mask = distances < np.sqrt(chi2.ppf(0.975, X.shape[1]))
             self.location_ = X[self._mask].mean(axis=0)
-            scale = np.cov(X[self._mask], rowvar=False)
+            scale = np.atleast_2d(np.cov(X[self._mask], rowvar=False))
             if self.correct_covariance:
                 # See Croux & Haesbroeck 1999 and R code for robustbase>covMcd>MCDCons
                 # (https://rdrr.io/cran/robustbase/src/R/covMcd.R)
@@ -252,14 +252,14 @@ class FastMCD(RobustCovariance):
 
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = self.rng.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
@@ -324,7 +324,7 @@ class DetMCD(RobustCovariance):
         if self.alpha == 1 or self.alpha == X.shape[0]:
             self.logger.warning(f"Default covariance is returned as alpha is {self.alpha}.")
             self.location_ = X.mean(0)
-            return np.cov(X, rowvar=False)
+            return np.atleast_2d(np.cov(X, rowvar=False))
 
         n, p = X.shape
 
@@ -364,7 +364,7 @@ class DetMCD(RobustCovariance):
             distances = mahalanobis_distance(X, best_subset.location, scale)
             self._mask = distances < np.sqrt(chi2.ppf(0.975, X.shape[1]))
             self.location_ = X[self._mask].mean(axis=0)
-            scale = np.cov(X[self._mask], rowvar=False)
+            scale = np.atleast_2d(np.cov(X[self._mask], rowvar=False))
             if self.correct_covariance:
                 # See Croux & Haesbroeck 1999 and R code for robustbase>covMcd>MCDCons
                 # (https://rdrr.io/cran/robustbase/src/R/covMcd.R)
@@ -399,15 +399,15 @@ class DetMCD(RobustCovariance):
     def _get_initial_best_subsets(self, Z: np.ndarray, X: np.ndarray, n: int, p: int):
         # Step 1: construct 6 preliminary estimates Sk of covariance or correlation
         Y = np.tanh(Z)
-        S1 = np.corrcoef(Y, rowvar=False)
+        S1 = np.atleast_2d(np.corrcoef(Y, rowvar=False))
         R = rankdata(Z, axis=0)
-        S2 = np.corrcoef(R, rowvar=False)
-        S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
+        S2 = np.atleast_2d(np.corrcoef(R, rowvar=False))
+        S3 = np.atleast_2d(np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False))
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
         w = 1 / np.where(znorm > 0, znorm, 1)  # a row at the median has no direction
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
-        S5 = np.cov(Z[idx, :], rowvar=False)
+        S5 = np.atleast_2d(np.cov(Z[idx, :], rowvar=False))
         S6 = OGK(
             location_estimator=np.median, scale_estimator=self._Qn_scale, reweighting=False
         ).calculate_covariance(Z)
@@ -488,14 +488,14 @@ class DetMCD(RobustCovariance):
             Hsubset.
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = np.random.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
diff --git a/robpy/covariance/ogk.py b/robpy/covariance/ogk.py
index 80765a3..fc90a97 100644
--- a/robpy/covariance/ogk.py
+++ b/robpy/covariance/ogk.py
@@ -90,7 +90,7 @@ class OGK(RobustCovariance):
                 mahalanobis
             )  # mahalanobis is the sqrt distance, so we need to take the sqrt of the chi2 quantiles
             mask = mahalanobis < cutoff
-            cov_X = np.cov(X[mask], rowvar=False)
+            cov_X = np.atleast_2d(np.cov(X[mask], rowvar=False))
             mu_X = np.mean(X[mask], axis=0)
         self.location_ = mu_X.flatten()
 
diff --git a/robpy/covariance/wrapping.py b/robpy/covariance/wrapping.py
index 56e1d00..e0e249c 100644
--- a/robpy/covariance/wrapping.py
+++ b/robpy/covariance/wrapping.py
@@ -77,5 +77,5 @@ class WrappingCovariance(RobustCovariance):
         X_transformed = wrapping_transformation(
             X, b=self.b, c=self.c, q1=self.q1, q2=self.q2, rescale=True
         )
-        self.correlation_ = np.corrcoef(X_transformed, rowvar=False)
-        return np.cov(X_transformed, rowvar=False)
+        self.correlation_ = np.atleast_2d(np.corrcoef(X_transformed, rowvar=False))
+        return np.atleast_2d(np.cov(X_transformed, rowvar=False))
-- 
2.43.0


From 492df107c5ec5127ee032eefbf5883e4d53a4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 14/80] fix: CellMCD returned the flags of a rejected C-step
 with the estimates of the previous one

---
 robpy/covariance/cellmcd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 5c01467..e5d9239 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -388,7 +388,7 @@ class CellMCD(RobustCovariance):
             cov_old = cov
             cov_inv_old = cov_inv
 
-        return location, cov, cov_inv, W
+        return location_old, cov_old, cov_inv_old, W_old
 
     def _C_step(
         self,
@@ -450,6 +450,7 @@ class CellMCD(RobustCovariance):
         This is done per column."""
 
         n = W.shape[0]
+        W = W.copy()  # the current iterate must survive when the C-step is rejected
         ordering = np.argsort(np.sum(W, axis=0), kind="stable")
         for j in ordering:
             delta = self._calculate_delta(X, W, sigma, sigma_inv, mu, j)
-- 
2.43.0


From 5fa4040683c9952bd4e1c561cbb2bf03e9c11084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 15/80] fix: CellMCD used precisions as variances for rows
 without unflagged cells

---
 robpy/covariance/cellmcd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index e5d9239..64aa04c 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -330,7 +330,7 @@ class CellMCD(RobustCovariance):
 
             else:  # all missings in the w-pattern
                 predictions, conditional_variances = self._predict_all_missing(
-                    predictions, conditional_variances, row_idx_w, mu, sigma_inv
+                    predictions, conditional_variances, row_idx_w, mu, sigma
                 )
 
         return predictions, conditional_variances
@@ -625,12 +625,12 @@ class CellMCD(RobustCovariance):
         conditional_variances: np.ndarray,
         row_idx_w: np.array,
         mu: np.array,
-        sigma_inv: np.ndarray,
+        sigma: np.ndarray,
     ):
         """Make predictions when all values in the w-pattern are missing."""
         for index in row_idx_w:
             predictions[index, :] = mu
-            conditional_variances[index, :] = np.diag(sigma_inv)
+            conditional_variances[index, :] = np.diag(sigma)
 
         return predictions, conditional_variances
 
-- 
2.43.0


From 64512478c8e67eeff5a678cbe13ea29a0bcd55a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 16/80] fix: CellMCD ignored the configured quantile when
 flagging cells

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 64aa04c..feb72b6 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -358,7 +358,7 @@ class CellMCD(RobustCovariance):
         objective_values = np.full(self.max_c_steps + 1, np.nan)
         step = 0
         q = (
-            chi2.ppf(0.99, 1) - np.log(np.diag(initial_cov_inv)) + np.log(2 * np.pi)
+            chi2.ppf(self.quantile, 1) - np.log(np.diag(initial_cov_inv)) + np.log(2 * np.pi)
         )  # equation (21)
         penalty = np.sum(q * np.sum(1 - initial_W, axis=0))
         objective_values[step] = (
-- 
2.43.0


From 7969781a7c4d2a9199ef22ca1027ff5f2bfdbf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 17/80] fix: CellMCD truncated the imputed values of integer
 data

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index feb72b6..9691cdf 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -118,7 +118,7 @@ class CellMCD(RobustCovariance):
         location = scaler.locations_ + location * scaler.scales_
         predictions = scaler.locations_ + predictions * scaler.scales_
         conditional_stds = np.sqrt(conditional_variances) * scaler.scales_
-        X_imputed = X.copy()
+        X_imputed = X.astype(float)
         X_imputed[W == 0] = predictions[W == 0]
         residuals = (X - predictions) / conditional_stds
         scaler_residuals = RobustScaler(scale_estimator=OneStepWrapping())
-- 
2.43.0


From b54f19c8e82252c9a5ba1325120101903771df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 18/80] fix: CellMCD overwrote its alpha setting, so a refit
 used the share of the previous data

---
 robpy/covariance/cellmcd.py      | 14 +++++++-------
 robpy/covariance/initial_ddcw.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 9691cdf..4a0cab5 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -80,7 +80,7 @@ class CellMCD(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self._alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
@@ -97,7 +97,7 @@ class CellMCD(RobustCovariance):
         self._check_data(X_scaled)
 
         # Step 2: calculate the initial estimates
-        ddcw = InitialDDCW(alpha=self.alpha, min_eigenvalue=self.min_eigenvalue)
+        ddcw = InitialDDCW(alpha=self._alpha, min_eigenvalue=self.min_eigenvalue)
         ddcw.fit(X_scaled)
         initial_location = ddcw.location_
         initial_cov = ddcw.covariance_
@@ -352,7 +352,7 @@ class CellMCD(RobustCovariance):
         """
         n, p = X_scaled.shape
 
-        h = round(self.alpha * n)
+        h = round(self._alpha * n)
         initial_W = np.ones([n, p])
         initial_W[np.isnan(X_scaled)] = 0
         objective_values = np.full(self.max_c_steps + 1, np.nan)
@@ -645,17 +645,17 @@ class CellMCD(RobustCovariance):
 
         cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
-        if np.max(n_marginal_outliers) > 1 - self.alpha:
+        if np.max(n_marginal_outliers) > 1 - self._alpha:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of "
+                f"\nAt least one variable has more than {100 * (1 - self._alpha)}% of "
                 "marginal  outliers."
             )
 
         X[np.abs(X) > cutoff] = np.nan
         n_bad_values = np.isnan(X).sum(axis=0) / X.shape[0]
-        if np.max(n_bad_values) > 1 - self.alpha:
+        if np.max(n_bad_values) > 1 - self._alpha:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of nan's or "
+                f"\nAt least one variable has more than {100 * (1 - self._alpha)}% of nan's or "
                 "marginal outliers."
             )
 
diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index a309e70..ddfe7a9 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -55,14 +55,14 @@ class InitialDDCW(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
         # DDC with constraint -> imputed and rescaled Zimp:
         ddc = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(X))
         W = np.copy(ddc.cellwise_outliers_)
-        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha)[0]
+        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - alpha)[0]
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-- 
2.43.0


From 1cfff2ec70829827ad92a99d8e8f39f80cbf798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 19/80] fix: power transformer failed or lost its scaling when
 lambda lies near the edge of its search range

---
 robpy/preprocessing/transfo.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 776a8cf..d51ff8b 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -42,7 +42,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         self.method = method
         self.standardize = standardize
-        self.lambda_range = list(lambda_range)
+        self.lambda_range = lambda_range
         self.quantile = quantile
         self.nsteps = nsteps
         self.logger = logging.getLogger("RobustPowerTransformer")
@@ -154,14 +154,14 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
+        if self.standardize:
+            scale_boxcox = np.median(x)
+            x = x / scale_boxcox
+        else:
+            scale_boxcox = None
         converged = False
         while not converged:
-            if self.standardize:
-                scale_boxcox = np.median(x)
-                x = x / scale_boxcox
-            else:
-                scale_boxcox = None
             lambda_raw = self._calculate_lambda_0(x, "boxcox_rect", lambdarange)
             lambda_rew, mu_rew_boxcox, sd_rew_boxcox = self._reweighted_max_likelihood_robust(
                 x,
@@ -185,15 +185,15 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range, dtype=float)
+        if self.standardize:
+            loc_yeojohnson = np.median(x)
+            scale_yeojohnson = median_abs_deviation(x, scale="normal")
+            x = (x - loc_yeojohnson) / scale_yeojohnson
+        else:
+            loc_yeojohnson, scale_yeojohnson = None, None
         converged = False
         while not converged:
-            if self.standardize:
-                loc_yeojohnson = np.median(x)
-                scale_yeojohnson = median_abs_deviation(x, scale="normal")
-                x = (x - loc_yeojohnson) / scale_yeojohnson
-            else:
-                loc_yeojohnson, scale_yeojohnson = None, None
             lambda_raw = self._calculate_lambda_0(x, "yeojohnson_rect", lambdarange)
             (
                 lambda_rew,
-- 
2.43.0


From fcdafd71c21a7730e5b286aa5483e6f08a7653a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 20/80] fix: power transformer truncated the transformed values
 of integer data

---
 robpy/preprocessing/transfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index d51ff8b..fc822ad 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -263,7 +263,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             raise ValueError(
                 "Data values should be strictly positive for a Box-Cox transformation."
             )
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x - 1.0
@@ -341,7 +341,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.log(1.0 + x[positive_mask])
@@ -366,7 +366,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     ):
         """Rectified Yeo-Johnson transformation."""
 
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x
@@ -454,7 +454,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation inversed."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.exp(x[positive_mask]) - 1.0
-- 
2.43.0


From c8367da262b17e253f53c465bfe491d5b3cdbd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 21/80] fix: automatic choice of the power transform was kept
 in refits and depended on the units

---
 robpy/preprocessing/transfo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index fc822ad..c29022c 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -54,13 +54,17 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        if self.method == getattr(self, "_automatic_method", None):
+            self.method = "auto"  # the method was chosen automatically in a previous fit
+        automatic = self.method == "auto"
         self._get_method(x)
         x_sorted = np.sort(x)
 
         if self.method in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
             if self.method == "auto":
-                crit_val_boxcox = self._robnormality(x, "boxcox", lambda_boxcox)
+                x_scaled = x / scale_boxcox if self.standardize else x
+                crit_val_boxcox = self._robnormality(x_scaled, "boxcox", lambda_boxcox)
 
         if self.method in ["yeojohnson", "auto"]:
             (
@@ -71,13 +75,15 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
             if self.method == "auto":
-                crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
+                x_scaled = (x - loc_yeojohnson) / scale_yeojohnson if self.standardize else x
+                crit_val_yeojohnson = self._robnormality(x_scaled, "yeojohnson", lambda_yeojohnson)
 
         if self.method == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
                 self.method = "boxcox"
             else:
                 self.method = "yeojohnson"
+        self._automatic_method = self.method if automatic else None
 
         if self.method == "boxcox":
             if self.standardize:
-- 
2.43.0


From 5f0bcf92cb4f02d8919212f1050f5c864f7863a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 22/80] fix: power transformer let far outliers back in when
 reweighting

---
 robpy/preprocessing/transfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index c29022c..8cc75c9 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -550,7 +550,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 xt = self._transf_boxcox(x, lambda_rew, standardize_too=False)[0]
             elif transf == "yeojohnson":
                 xt = self._transf_yeojohnson(x, lambda_rew, standardize_too=False)[0]
-            zt = (xt - np.mean(xt)) / np.std(xt)
+            zt = (xt - np.mean(xt[w])) / np.std(xt[w])
 
         mu_rew = np.mean(xt[w])
         sd_rew = np.std(xt[w])
-- 
2.43.0


From 5711b8e59cc105dc3ebd599f43b6a0ceb2e75acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 23/80] fix: power transformer inverted values exactly on the
 attainable bound to infinity

---
 robpy/preprocessing/transfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 8cc75c9..5673710 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -240,23 +240,23 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     def _handle_bounds(self, x: np.ndarray):
         lower_bound, upper_bound = self._calculate_bounds()
 
-        if lower_bound is not None and np.min(x) < lower_bound:
+        if lower_bound is not None and np.min(x) <= lower_bound:
             new_bound = 0.95 * lower_bound
             self.logger.info(
                 f"Some (standardized) values in x are below the range of the {self.method} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
-            x = np.where(x < lower_bound, new_bound, x)
+            x = np.where(x <= lower_bound, new_bound, x)
 
-        if upper_bound is not None and np.max(x) > upper_bound:
+        if upper_bound is not None and np.max(x) >= upper_bound:
             new_bound = 0.95 * upper_bound
             self.logger.info(
                 f"Some (standardized) values in x are above the range of the {self.method} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
-            x = np.where(x > upper_bound, new_bound, x)
+            x = np.where(x >= upper_bound, new_bound, x)
 
         return x
 
-- 
2.43.0


From 9aed030979f542fbc18bbc02ab230748d9948cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 24/80] fix: DataCleaner reused the missing rows and columns of
 earlier data and dropped rows that share a label

---
 robpy/preprocessing/data_cleaner.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 49d6d82..5624c1f 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -97,7 +97,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             ),
         )
 
-        X = X.drop(index=self.rows_missings)
+        X = X.loc[~self._is_missing_row]
 
         self.logger.info(f"The final data has {X.shape[0]} rows and {X.shape[1]} columns.")
 
@@ -167,18 +167,19 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols_and_rows(self, X: pd.DataFrame):
         """Clean missing values."""
-        if self.clean_na_first == "automatic":
-            self.clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+        clean_na_first = self.clean_na_first
+        if clean_na_first == "automatic":
+            clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
 
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
-        if self.clean_na_first == "columns":
+        if clean_na_first == "columns":
             self._set_missing_cols(X)
+            self._set_missing_rows(X.drop(columns=self.cols_missings))
+        elif clean_na_first == "rows":
             self._set_missing_rows(X)
-        elif self.clean_na_first == "rows":
-            self._set_missing_rows(X)
-            self._set_missing_cols(X)
+            self._set_missing_cols(X.loc[~self._is_missing_row])
         else:
             raise ValueError(
                 'The argument clean_na_first should be "automatic", "rows" or "columns", '
@@ -203,12 +204,9 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols(self, X: pd.DataFrame):
         """Remove columns with too many missings"""
-        if hasattr(self, "rows_missings"):
-            X = X.drop(index=self.rows_missings)
         self.cols_missings = X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
 
     def _set_missing_rows(self, X: pd.DataFrame):
         """Remove rows with too many missings"""
-        if hasattr(self, "cols_missings"):
-            X = X.drop(columns=self.cols_missings)
-        self.rows_missings = X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
+        self._is_missing_row = (X.isna().mean(axis=1) >= self.max_missing_frac_rows).to_numpy()
+        self.rows_missings = X.index[self._is_missing_row].tolist()
-- 
2.43.0


From 6928a18c3974470d5282e807d5dac18827281b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 25/80] fix: DataCleaner counted infinities as values when
 looking for discrete columns

---
 robpy/preprocessing/data_cleaner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 5624c1f..601f744 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -65,6 +65,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             X (pd.DataFrame): The input dataset.
         """
 
+        X = X.replace([np.inf, -np.inf], np.nan)
         self._get_non_numeric_columns_to_drop(X)
 
         self._get_discrete_columns_to_drop(X)
-- 
2.43.0


From bcb579b424e850070e0daf052af574014fcf6e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 26/80] fix: DDC raised AttributeError instead of its
 not-fitted error

---
 robpy/outliers/ddc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b09026c..fb3abe0 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -55,6 +55,7 @@ class DDC(OutlierMixin):
         self.cutoff = np.sqrt(chi2.ppf(chi2_quantile, df=1))
         self.min_correlation = min_correlation
         self.scale_estimator = scale_estimator
+        self.is_fitted_ = False
 
     def fit(self, X: pd.DataFrame, y=None, verbose: bool = False):
         self._check_data_conditions(X)
-- 
2.43.0


From 3d3013ca314cedb19a55c738642af16311b00276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 27/80] fix: DDC with verbose=True failed for fewer than ten
 columns

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index fb3abe0..e0abec3 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -335,7 +335,7 @@ class DDC(OutlierMixin):
         """
         correlation = np.ones((X.shape[1], X.shape[1]))
         for i in range(X.shape[1]):
-            if verbose and i % (X.shape[1] // 10) == 0:
+            if verbose and i % max(X.shape[1] // 10, 1) == 0:
                 print(
                     f"Correlation: Processing column {i + 1} of {X.shape[1]} "
                     f"({((i + 1) / X.shape[1]):.1%})"
-- 
2.43.0


From 3602d30f3b0d5b2980584da374718f1dcc38f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 28/80] fix: DDC weighted its predictions with a hard-coded
 instead of the configured minimum correlation

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index e0abec3..15187e9 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -396,7 +396,7 @@ class DDC(OutlierMixin):
             weights = np.repeat(
                 [
                     [
-                        np.abs(r) * (np.abs(r) >= 0.5) * (idx != i)
+                        np.abs(r) * (np.abs(r) >= self.min_correlation) * (idx != i)
                         for idx, r in enumerate(self.robust_correlation_[:, i])
                     ]
                 ],
-- 
2.43.0


From 1380c42bbc923c91b68c970ea6db0179dedce2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 29/80] fix: DDC could not be fitted on data with a completely
 missing row

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 15187e9..70e29b6 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -186,7 +186,7 @@ class DDC(OutlierMixin):
         """
         raw_t_values_ = np.nanmean(chi2.cdf(standardized_residuals**2, df=1), axis=1)
         if fit:
-            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_)
+            self.t_scale_est = CellwiseOneStepM().fit(raw_t_values_, ignore_nan=True)
         standardized_t_values_ = (
             raw_t_values_ - self.t_scale_est.location
         ) / self.t_scale_est.scale
-- 
2.43.0


From f943fc3131873d669b3314e531623f50d91104cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 30/80] fix: DDC could not be fitted when two columns share at
 most one observed row

---
 robpy/outliers/ddc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 70e29b6..4e1825b 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -362,6 +362,9 @@ class DDC(OutlierMixin):
                     xy, np.array([0, 0]), np.array([[1, xy_corr], [xy_corr, 1]])
                 )
                 xy_subset = xy[distances < self.cutoff, :]
+                if (xy_subset == xy_subset[:1]).all(axis=0).any():  # no variation left to correlate
+                    correlation[i, j] = correlation[j, i] = 0
+                    continue
                 correlation[i, j] = correlation[j, i] = np.corrcoef(xy_subset, rowvar=False)[0, 1]
         return correlation
 
-- 
2.43.0


From 679d72d56a5bf55ea0ec0e6358dcf68dcba7b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 31/80] fix: stahel_donoho with a seed used one and the same
 direction n_dir times

---
 robpy/utils/outlyingness.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 977c90b..6a946a5 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -33,6 +33,7 @@ def stahel_donoho(
           kovarianzmatrizen (Doctoral dissertation, ETH Zurich).
     """
     # step 1: get random directions
+    random_seed = np.random.default_rng(random_seed)  # one stream, else all directions are equal
     D = np.hstack(
         [
             _get_random_direction(X, n_points=n_points, random_seed=random_seed).reshape(-1, 1)
-- 
2.43.0


From 9f28ee97c7aeaa437757ce885f583a8b5dea6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 32/80] fix: stahel_donoho returned only NaN when a direction
 ran through two identical rows

---
 robpy/utils/outlyingness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 6a946a5..a756331 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -45,7 +45,8 @@ def stahel_donoho(
 
     # step 3: outlyingness
     # to do: let scale and loc estimators be passed as arguments
-    return np.max(
+    # nanmax: a direction through two identical points is undefined and tells nothing
+    return np.nanmax(
         np.abs(projections - np.median(projections, axis=0))
         / median_abs_deviation(projections, axis=0),
         axis=1,
-- 
2.43.0


From cc94bd1e88d3505bc8a8a69b0f051c1b22453cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 33/80] fix: l1median and spherical PCA hung or returned NaN
 when the centre hits an observation or units are large

---
 robpy/pca/spca.py     |  2 +-
 robpy/utils/median.py | 25 +++++++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 11cc106..9226b16 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -37,7 +37,7 @@ class PCALocantore(RobustPCA):
         self.location_ = l1median(X)
         centered_X = X - self.location_
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        w = 1 / d
+        w = 1 / np.where(d > 0, d, 1)  # an observation at the centre has no direction
         spatial_sign_covariance = (
             np.dot((centered_X * w[:, np.newaxis]).T, (centered_X * w[:, np.newaxis])) / n
         )
diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index cfdef98..3450337 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -11,18 +11,27 @@ def l1median(X: np.ndarray) -> float:
     References:
         - Fritz, H., Filzmoser, P., & Croux, C. (2012). A comparison of algorithms for the
           multivariate L1-median. Computational Statistics, 27, 393-410.
+        - Vardi, Y., & Zhang, C. H. (2000). The multivariate L1-median and associated data depth.
+          Proceedings of the National Academy of Sciences, 97(4), 1423-1426.
     """
-    epsilon = 1e-7
+    epsilon = 1e-9
+    max_iterations = 1000
     mu_0 = np.mean(X, axis=0)
-    while True:
+    for _ in range(max_iterations):
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        W = 1 / d
-        mu_1 = np.sum((X * W[:, np.newaxis]).T / np.sum(W), axis=1)
-        if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
-            return mu_1
-        else:
-            mu_0 = mu_1
+        at_mu_0 = d == 0
+        if at_mu_0.all():
+            break
+        W = 1 / np.where(at_mu_0, np.inf, d)
+        step = np.sum((centered_X * W[:, np.newaxis]).T, axis=1)
+        # an observation at mu_0 itself holds the iterate back (Vardi & Zhang, 2000)
+        pull = np.linalg.norm(step)
+        step = step / np.sum(W) * (max(1 - np.sum(at_mu_0) / pull, 0) if pull > 0 else 0)
+        mu_0 = mu_0 + step
+        if np.sum(np.abs(step)) <= epsilon * np.median(d):
+            break
+    return mu_0
 
 
 def weighted_median(X: np.ndarray, weights: np.ndarray) -> float:
-- 
2.43.0


From 384e80624791b81e83aa61bcb846fc6fb0520c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 34/80] fix: ROBPCA did not pass its seed to the final MCD step

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a94a407..862807f 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -105,7 +105,7 @@ class ROBPCA(RobustPCA):
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
-            mcd = FastMCD().fit(self.transform(X))
+            mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
-- 
2.43.0


From b86bb9efa72c4de52858c2c62d7f9c8c90528d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 35/80] fix: ROBPCA reported the classical mean as its centre
 and variances of other directions than its components

---
 robpy/pca/robpca.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 862807f..8e36a1c 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -55,7 +55,6 @@ class ROBPCA(RobustPCA):
         # step 1: singular value decomposition = applying standard PCA
         pca = PCA()
         X = pca.fit_transform(X)
-        self.location_ = np.mean(X, axis=0)
         loadings = pca.components_.T
         # step 2: stahel donoho outlyingness --> h subset
         outlyingness = stahel_donoho(X, random_seed=self.random_seed)
@@ -82,6 +81,7 @@ class ROBPCA(RobustPCA):
             h = np.max([int(self.alpha * X.shape[0]), int((X.shape[0] + 10 + 1) / 2)])
 
         h_index = np.argsort(outlyingness)[:h]
+        self.location_ = np.mean(X[h_index], axis=0)
         h_cov = np.cov(X[h_index], rowvar=False)
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
@@ -98,20 +98,23 @@ class ROBPCA(RobustPCA):
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
         v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        self.location_ = np.mean(X[v_index], axis=0)
         cov_v = np.cov(X[v_index], rowvar=False)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
+        self.explained_variance_ = eigvals_v[sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
-            _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
+            self.location_ = self.location_ + self.components_ @ mcd.location_
+            eigvals_mcd, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
+            self.explained_variance_ = np.flip(eigvals_mcd[-k:])
         # step 6: transform back to original X
         self.n_components = k
-        X = pca.inverse_transform(X)
         self.components_ = loadings @ self.components_
-        self.location_ = np.mean(X, axis=0)
+        self.location_ = pca.mean_ + loadings @ self.location_
         return self
-- 
2.43.0


From 5f927174dc41cfe3bb1833893b10ffb8e521f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 36/80] fix: scaler, power transformer, data cleaner and PCA
 failed with AttributeError before fit

---
 robpy/pca/base.py                   | 5 +++--
 robpy/preprocessing/data_cleaner.py | 2 ++
 robpy/preprocessing/scaling.py      | 3 +++
 robpy/preprocessing/transfo.py      | 3 +++
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/robpy/pca/base.py b/robpy/pca/base.py
index 27ac2b3..3f451c2 100644
--- a/robpy/pca/base.py
+++ b/robpy/pca/base.py
@@ -3,6 +3,7 @@ import pandas as pd
 import matplotlib.pyplot as plt
 from abc import abstractmethod
 from sklearn.decomposition._base import _BasePCA
+from sklearn.utils.validation import check_is_fitted
 from scipy.stats import chi2, norm
 from robpy.univariate import UnivariateMCD
 
@@ -45,8 +46,7 @@ class RobustPCA(_BasePCA):
             Projection of X on the first principal components, where `n_samples`
             is the number of samples and `n_components` is the number of components.
         """
-        if self.location_ is None:
-            self.location_ = np.mean(X, axis=0)
+        check_is_fitted(self, ["location_", "components_"])
         return (X - self.location_) @ self.components_
 
     def project(self, X: np.ndarray) -> np.ndarray:
@@ -74,6 +74,7 @@ class RobustPCA(_BasePCA):
             return_distances (bool, optional):
                 Whether to return the distances and cutoff values. Defaults to False.
         """
+        check_is_fitted(self, ["location_", "components_"])
         if isinstance(X, pd.DataFrame):
             X = X.values
         orthogonal_distances = np.linalg.norm((X - self.location_) - self.project(X), axis=1)
diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 601f744..6a40035 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -9,6 +9,7 @@ from sklearn.base import (
     TransformerMixin,
 )
 from sklearn.exceptions import NotFittedError
+from sklearn.utils.validation import check_is_fitted
 
 
 class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
@@ -80,6 +81,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             X (pd.DataFrame): The input dataset.
         """
 
+        check_is_fitted(self, ["non_numeric_cols", "cols_discrete", "cols_bad_scale"])
         n, p = X.shape
 
         self._check_minimum_rows(n)
diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 68f99d0..012277b 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -5,6 +5,7 @@ from sklearn.base import (
     OneToOneFeatureMixin,
     TransformerMixin,
 )
+from sklearn.utils.validation import check_is_fitted
 
 from robpy.univariate.base import RobustScale
 from robpy.univariate.mcd import UnivariateMCD
@@ -49,6 +50,7 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         return self
 
     def transform(self, X: np.ndarray | pd.DataFrame):
+        check_is_fitted(self, ["locations_", "scales_"])
         if isinstance(X, pd.DataFrame):
             X = X.values
         if len(X.shape) == 1:
@@ -57,6 +59,7 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         return (X - self.locations_) / self.scales_
 
     def inverse_transform(self, X: np.ndarray | pd.DataFrame):
+        check_is_fitted(self, ["locations_", "scales_"])
         if isinstance(X, pd.DataFrame):
             X = X.values
         if len(X.shape) == 1:
diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 5673710..273a9d3 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -5,6 +5,7 @@ from sklearn.base import (
     OneToOneFeatureMixin,
     TransformerMixin,
 )
+from sklearn.utils.validation import check_is_fitted
 from typing import Literal
 from robpy.utils.rho import TukeyBisquare
 from scipy.stats import median_abs_deviation, norm, chi2
@@ -108,6 +109,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        check_is_fitted(self, "lambda_rew")
         if self.method == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
@@ -136,6 +138,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
+        check_is_fitted(self, "lambda_rew")
         if self.method == "boxcox":
             if self.standardize:
                 x = x * self.scale_post + self.location_post
-- 
2.43.0


From b7b6aeab47e3e1c92293aa3832368381bb3da74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 37/80] fix: PCALocantore could not draw its outlier map after
 fitting a DataFrame

---
 robpy/pca/spca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 9226b16..100ac36 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import numpy as np
+import pandas as pd
 
 from robpy.pca.base import RobustPCA
 from robpy.utils.median import l1median
@@ -32,7 +33,9 @@ class PCALocantore(RobustPCA):
         super().__init__(n_components=n_components)
         self.k_min_var_explained = k_min_var_explained
 
-    def fit(self, X: np.ndarray) -> PCALocantore:
+    def fit(self, X: np.ndarray | pd.DataFrame) -> PCALocantore:
+        if isinstance(X, pd.DataFrame):
+            X = X.values
         n = len(X)
         self.location_ = l1median(X)
         centered_X = X - self.location_
-- 
2.43.0


From e76c037cd500c99e3cb864fdbde022e3414c0b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 38/80] fix: estimators fitted the shared default scale and
 initial estimators, so concurrent fits mixed their results

---
 robpy/outliers/ddc.py          | 4 +++-
 robpy/preprocessing/scaling.py | 4 +++-
 robpy/regression/mm.py         | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 4e1825b..b57ad30 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 import seaborn as sns
@@ -313,7 +315,7 @@ class DDC(OutlierMixin):
     def _fit_scaler(self, X: pd.DataFrame):
         self.location_, self.scale_ = [], []
         for i in range(X.shape[1]):
-            est = self.scale_estimator.fit(X.iloc[:, i].to_numpy()[~np.isnan(X.iloc[:, i])])
+            est = deepcopy(self.scale_estimator).fit(X.iloc[:, i].to_numpy()[~np.isnan(X.iloc[:, i])])
             self.location_.append(est.location)
             self.scale_.append(est.scale)
 
diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 012277b..474969e 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 from sklearn.base import (
@@ -41,7 +43,7 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         self.scales_ = np.ones(X.shape[1])
 
         for feature_idx in range(X.shape[1]):
-            fitted_estimator = self.scale_estimator.fit(X[:, feature_idx], ignore_nan)
+            fitted_estimator = deepcopy(self.scale_estimator).fit(X[:, feature_idx], ignore_nan)
             if self.with_centering:
                 self.locations_[feature_idx] = fitted_estimator.location
             if self.with_scaling:
diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 8935bfd..6b73d21 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 import numpy as np
 import pandas as pd
 
@@ -45,7 +47,7 @@ class MMRegression(RobustRegression):
 
     def fit(self, X: np.ndarray | pd.DataFrame, y: np.ndarray | pd.Series) -> MMRegression:
         X, y = _convert_input_to_array(X, y)
-        self.model = self.initial_estimator.fit(X, y)
+        self.model = deepcopy(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
         for i in range(self.max_iterations):
-- 
2.43.0


From 0c173ef709cb605df3ae50cc9ccd2b88efab5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 39/80] fix: inverse_submatrix ignored the order of the indices
 when all of them are selected

---
 robpy/utils/general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/utils/general.py b/robpy/utils/general.py
index eb8cd84..8d669fb 100644
--- a/robpy/utils/general.py
+++ b/robpy/utils/general.py
@@ -25,7 +25,7 @@ def inverse_submatrix(A: np.ndarray, A_inv: np.ndarray, indices: np.array) -> np
         )
     elif n_submatrix < p and n_submatrix <= p / 2.0:  # don't use the trick
         result = np.linalg.inv(A[np.ix_(indices, indices)])
-    else:  # submatrix is the original matrix
-        result = A_inv
+    else:  # submatrix is the original matrix, possibly in another order
+        result = A_inv[np.ix_(indices, indices)]
 
     return result
-- 
2.43.0


From f3467eaba3374a097d3f6e26224dad969cdb65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 40/80] fix: power transformer never ended or failed when 1 is
 not inside its search range

---
 robpy/preprocessing/transfo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 273a9d3..0220c7d 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -182,7 +182,10 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             )
             converged = np.min(np.abs(lambda_rew - lambdarange)) > np.diff(lambdarange) * 0.05
             if not converged:
-                lambdarange = 1 + (lambdarange - 1) * (
+                # move the nearest edge away from 1, or from the centre if 1 is not inside
+                inside = lambdarange[0] < 1 < lambdarange[1]
+                center = 1 if inside else np.mean(lambdarange)
+                lambdarange = center + (lambdarange - center) * (
                     1 + (abs(lambda_rew - lambdarange) == min(abs(lambda_rew - lambdarange)))
                 )
 
@@ -218,7 +221,10 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             )
             converged = np.min(np.abs(lambda_rew - lambdarange)) > np.diff(lambdarange) * 0.05
             if not converged:
-                lambdarange = 1 + (lambdarange - 1) * (
+                # move the nearest edge away from 1, or from the centre if 1 is not inside
+                inside = lambdarange[0] < 1 < lambdarange[1]
+                center = 1 if inside else np.mean(lambdarange)
+                lambdarange = center + (lambdarange - center) * (
                     1 + (abs(lambda_rew - lambdarange) == min(abs(lambda_rew - lambdarange)))
                 )
 
-- 
2.43.0


From a6221640ea583da9430e17494253d8d1fd45fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 41/80] fix: classical distances of covariance estimators were
 taken around the robust location

---
 robpy/covariance/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index 09f5848..c6ff2e0 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -75,6 +75,7 @@ class RobustCovariance(EmpiricalCovariance):
             self.location_ = np.zeros(X.shape[1])
         else:
             self.location_ = X.mean(0)
+        classical_location = self.location_  # estimators replace location_ by their own
         covariance = self.calculate_covariance(X)
         self._set_covariance(covariance)
         if self.store_precision:
@@ -84,7 +85,7 @@ class RobustCovariance(EmpiricalCovariance):
             X, location=self.location_, covariance=self.covariance_
         )
         self._mahalanobis_distances = mahalanobis_distance(
-            X, location=self.location_, covariance=self.default_covariance_
+            X, location=classical_location, covariance=self.default_covariance_
         )
 
         return self
-- 
2.43.0


From c11f22f28f3e4ef5737a912e1bec1eb152d6c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 42/80] fix: initial DDCW estimate truncated imputed cells of
 integer data

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index ddfe7a9..76705db 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -67,7 +67,7 @@ class InitialDDCW(RobustCovariance):
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
             W[ordering[0 : int(n * 0.25)], i] = True
-        Zimp = np.copy(X)
+        Zimp = X.astype(float)
         Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
             pd.DataFrame(X), impute_outliers=True
         ).to_numpy()[np.logical_or(W, np.isnan(X))]
-- 
2.43.0


From 2873a2f8a2e1b7b4de578cedb53b1e970ce54454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 43/80] fix: fitting a covariance estimator failed when its
 estimate was exactly singular

---
 robpy/covariance/base.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index c6ff2e0..9c48cae 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -81,15 +81,22 @@ class RobustCovariance(EmpiricalCovariance):
         if self.store_precision:
             self.precision_ = pinvh(covariance)
         self.default_covariance_ = np.atleast_2d(np.cov(X, rowvar=False))
-        self._robust_distances = mahalanobis_distance(
-            X, location=self.location_, covariance=self.covariance_
-        )
-        self._mahalanobis_distances = mahalanobis_distance(
-            X, location=classical_location, covariance=self.default_covariance_
+        self._robust_distances = self._get_distances(X, self.location_, self.covariance_)
+        self._mahalanobis_distances = self._get_distances(
+            X, classical_location, self.default_covariance_
         )
 
         return self
 
+    def _get_distances(
+        self, X: np.ndarray, location: np.ndarray, covariance: np.ndarray
+    ) -> np.ndarray:
+        try:
+            return mahalanobis_distance(X, location=location, covariance=covariance)
+        except np.linalg.LinAlgError:  # singular covariance: pseudo-inverse, as for precision_
+            centered_X = X - location
+            return np.sqrt(np.sum(centered_X.dot(pinvh(covariance)) * centered_X, axis=1))
+
     def calculate_covariance(self, X) -> np.ndarray:
         raise NotImplementedError
 
-- 
2.43.0


From 8a6f3a9ab6e1437131070d2aa3bd3d6b8761e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 44/80] fix: FastMCD failed or kept outliers when starts with
 far or identical outliers are numerically singular

---
 robpy/covariance/mcd.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 3e05529..6e5ff44 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -4,7 +4,7 @@ import math as math
 import warnings
 
 from dataclasses import dataclass
-from scipy.linalg import sqrtm
+from scipy.linalg import pinvh, sqrtm
 from scipy.stats import chi2, gamma, rankdata, norm
 
 from robpy.covariance.base import RobustCovariance
@@ -188,7 +188,11 @@ class FastMCD(RobustCovariance):
             HSubset: indices for new h subset.
         """
         # Calculate the Mahalanobis distances
-        mahalanobis = mahalanobis_distance(X, subset.location, subset.scale)
+        try:
+            mahalanobis = mahalanobis_distance(X, subset.location, subset.scale)
+        except np.linalg.LinAlgError:  # numerically singular, e.g. a start with far outliers
+            centered = X - subset.location
+            mahalanobis = np.sum((centered @ pinvh(subset.scale)) * centered, axis=1)
         # Find the alpha (h_size) smallest distances
         h = self._get_h(X)
         idx = np.argsort(mahalanobis)[:h]
@@ -253,16 +257,26 @@ class FastMCD(RobustCovariance):
         """
         mu = X[indices].mean(axis=0)
         cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
-        det = np.linalg.det(cov)
+        det = self._get_determinant(X[indices])
         if ensure_non_singular:
-            while math.isclose(det, 0):
+            # the determinant of a singular covariance is rarely exactly 0 after rounding
+            while np.linalg.matrix_rank(X[indices[1:]] - X[indices[0]]) < X.shape[1]:
                 new_index = self.rng.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
                 cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
-                det = np.linalg.det(cov)
+                det = self._get_determinant(X[indices])
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
+    @staticmethod
+    def _get_determinant(X: np.ndarray) -> float:
+        """Determinant of the covariance of X. The singular values keep it accurate (and never
+        negative) for subsets with far outliers, whose covariance is numerically singular."""
+        singular_values = np.linalg.svd(X - X.mean(axis=0), compute_uv=False)
+        if len(singular_values) < X.shape[1]:
+            return 0.0
+        return np.prod(np.square(singular_values) / (len(X) - 1))
+
     def _get_initial_subsets(self, X: np.ndarray, n_subsets: int) -> list[HSubset]:
         return [
             self._get_subset(
-- 
2.43.0


From 19da6a248edd4ca14cf1ef9aa4721ce131e89baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 45/80] fix: DDC flagged every cell of columns that are exact
 linear functions of each other

---
 robpy/outliers/ddc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b57ad30..06c0af3 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -169,6 +169,8 @@ class DDC(OutlierMixin):
                     for i in range(raw_residuals.shape[1])
                 ]
             )
+            # exactly predicted columns have scale 0: keep their residuals in units of the columns
+            self.residual_scales[self.residual_scales == 0] = 1
         standardized_residuals = raw_residuals / self.residual_scales
         cellwise_outliers = np.abs(standardized_residuals) > self.cutoff
 
-- 
2.43.0


From 1655dd8abc558e7f0f53ba2b2a4aa06b8d75dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 46/80] fix: CellMCD with a quantile above 0.997 crashed
 instead of refusing columns with too many bad cells

---
 robpy/covariance/cellmcd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 4a0cab5..e6f21df 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -643,7 +643,8 @@ class CellMCD(RobustCovariance):
 
         X = np.copy(X_scaled)
 
-        cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
+        # cells further than 3 from the center are removed whatever the quantile is
+        cutoff = min(np.sqrt(chi2.ppf(self.quantile, 1)), 3)
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
         if np.max(n_marginal_outliers) > 1 - self._alpha:
             raise ValueError(
-- 
2.43.0


From b908a6f1db88538efb5762ffb819fce674c6e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 47/80] fix: CellMCD failed when only one eigenvalue of the
 initial estimate exceeds the minimum

---
 robpy/covariance/initial_ddcw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 76705db..d48372a 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -97,6 +97,7 @@ class InitialDDCW(RobustCovariance):
             ),
             rowvar=False,
         )
+        Zimp_proj_wrapped_cov = np.atleast_2d(Zimp_proj_wrapped_cov)  # one eigenvector may remain
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
         cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
@@ -129,6 +130,7 @@ class InitialDDCW(RobustCovariance):
             ),
             rowvar=False,
         )
+        Zimp_proj_wrapped_cov = np.atleast_2d(Zimp_proj_wrapped_cov)  # one eigenvector may remain
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
         cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
-- 
2.43.0


From 8e28ad83b3e2695aa636243adec1378626078c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 48/80] fix: CellMCD raised ZeroDivisionError for a completely
 missing column

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index e6f21df..220b7ea 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -86,7 +86,7 @@ class CellMCD(RobustCovariance):
 
         # Step 0: robustly standardize the data
         mads = median_abs_deviation(X, nan_policy="omit", axis=0)
-        if np.min(mads) < 1e-8:
+        if not np.min(mads) >= 1e-8:  # also refuses columns without any observed value
             raise ValueError("At least one variable has an almost zero median absolute deviation.")
         scaler = RobustScaler(scale_estimator=OneStepWrapping())
         scaler.fit(X, ignore_nan=True)
-- 
2.43.0


From 481d8aeba46484cd7e78b114a51bc0cc1ed63ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 49/80] fix: S-regression loops forever when at least half of
 the data is fitted exactly

---
 robpy/regression/s.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 0c777af..2b84f0d 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -136,6 +136,8 @@ class SRegression(RobustRegression):
         return self.model.predict(X)
 
     def _get_scale(self, s0: float, residuals: np.ndarray):
+        if s0 == 0:
+            return s0
         for i in range(self.max_scale_iterations):
             new_s = s0 * np.sqrt(np.mean(self.rho.rho(residuals / s0)) / self.b)
             if np.abs(s0 - new_s) < self.scale_tolerance:
@@ -159,8 +161,10 @@ class SRegression(RobustRegression):
         if initial_scale is None:
             initial_scale = np.median(np.abs(residuals)) / 0.6745
         new_scale = self._get_scale(s0=initial_scale, residuals=residuals)
-        residuals[residuals == 0] = np.finfo(np.float64).eps  # avoid divide by 0 errors
-        weights = self.rho.psi(residuals / new_scale) / (residuals / new_scale)
+        weights = np.ones_like(residuals)  # limit of psi(r) / r for exactly fitted points
+        with np.errstate(divide="ignore"):  # the scale is 0 if at least half is fitted exactly
+            scaled_residuals = residuals[residuals != 0] / new_scale
+        weights[residuals != 0] = self.rho.psi(scaled_residuals) / scaled_residuals
         model = WLS(endog=y, exog=X, weights=weights).fit()
         model.weights = weights
         return model, new_scale
-- 
2.43.0


From c1b3c9ece3c3f094e77fcfed81eb860b65377c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 50/80] fix: MM-regression fails on data that the initial
 estimator fits exactly

---
 robpy/regression/mm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 6b73d21..679c6b5 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -51,10 +51,15 @@ class MMRegression(RobustRegression):
         self._scale = self.model.scale
         self.n_iter = 0
         for i in range(self.max_iterations):
-            residuals = y - self.model.predict(X).flatten()
+            fitted = self.model.predict(X).flatten()
+            residuals = y - fitted
             weights = np.ones_like(residuals)  # limit of psi(r) / r for exactly fitted points
-            scaled_residuals = residuals[residuals != 0] / self._scale
-            weights[residuals != 0] = self.rho.psi(scaled_residuals) / scaled_residuals
+            inexact = ~np.isclose(fitted, y, rtol=1e-12, atol=0)  # the scale may be rounding error
+            with np.errstate(divide="ignore"):
+                scaled_residuals = residuals[inexact] / self._scale
+            weights[inexact] = self.rho.psi(scaled_residuals) / scaled_residuals
+            if not np.any(weights):
+                break  # the current fit is exact
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
             self.n_iter = i + 1
-- 
2.43.0


From 40c8fa5558ac24967559e70ea6ab8d7efc919379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 51/80] fix: ROBPCA with all components selects its
 observations by rounding error

---
 robpy/pca/robpca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 8e36a1c..fb2b4b3 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -97,7 +97,10 @@ class ROBPCA(RobustPCA):
         X_proj = (X - self.location_) @ h_components @ h_components.T
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
-        v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        if k < np.linalg.matrix_rank(X):
+            v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        else:  # all orthogonal distances are rounding error
+            v_index = h_index
         self.location_ = np.mean(X[v_index], axis=0)
         cov_v = np.cov(X[v_index], rowvar=False)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
-- 
2.43.0


From 2297cfc396534d311ab436aa561a27f0a0ada641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 52/80] fix: ROBPCA fails on data with a single column

---
 robpy/pca/robpca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index fb2b4b3..f3e81bc 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -82,7 +82,7 @@ class ROBPCA(RobustPCA):
 
         h_index = np.argsort(outlyingness)[:h]
         self.location_ = np.mean(X[h_index], axis=0)
-        h_cov = np.cov(X[h_index], rowvar=False)
+        h_cov = np.atleast_2d(np.cov(X[h_index], rowvar=False))
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
         sorted_eig_h_idx = np.argsort(eigvals_h)[::-1]
@@ -102,7 +102,7 @@ class ROBPCA(RobustPCA):
         else:  # all orthogonal distances are rounding error
             v_index = h_index
         self.location_ = np.mean(X[v_index], axis=0)
-        cov_v = np.cov(X[v_index], rowvar=False)
+        cov_v = np.atleast_2d(np.cov(X[v_index], rowvar=False))
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
-- 
2.43.0


From 6c35205483307e63a4e56ae2cb007e1dba57c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 53/80] fix: Stahel-Donoho directions through observations that
 are equal up to rounding

---
 robpy/utils/outlyingness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index a756331..ce368d5 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -73,6 +73,8 @@ def _get_random_direction(
 
     if n_points == 2:
         d = points[0] - points[1]
+        if np.linalg.norm(d) <= 1e-12 * np.max(np.abs(points)):
+            return np.full(X.shape[1], np.nan)  # identical points up to rounding: no direction
     else:
         # vectors spanning hyperplane
         vectors = points - points[0]
-- 
2.43.0


From 4f0412f55094bae1a5934345a11aa5dd1bbd65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 54/80] fix: L1-median stops next to an observation that is not
 its minimiser

---
 robpy/utils/median.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index 3450337..d601d5f 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -20,6 +20,10 @@ def l1median(X: np.ndarray) -> float:
     for _ in range(max_iterations):
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
+        if 0 < np.min(d) <= 1e-6 * np.median(d):  # so close that steps cannot leave it: move onto it
+            mu_0 = X[np.argmin(d)]
+            centered_X = X - mu_0
+            d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
         at_mu_0 = d == 0
         if at_mu_0.all():
             break
-- 
2.43.0


From e95fa1304e13c6bbb83dc46477e462c93eb61de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 55/80] fix: ROBPCA skips the final MCD step for a single
 component

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index f3e81bc..6e309aa 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -108,7 +108,7 @@ class ROBPCA(RobustPCA):
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         self.explained_variance_ = eigvals_v[sorted_eig_v_idx[:k]]
-        if self.final_MCD_step and k > 1:
+        if self.final_MCD_step:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             self.location_ = self.location_ + self.components_ @ mcd.location_
-- 
2.43.0


From cb1117b7084bd4bc1027e98a3e5941695450140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 56/80] fix: PCA transforms refuse data with another number of
 features

---
 robpy/pca/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/pca/base.py b/robpy/pca/base.py
index 3f451c2..84a0014 100644
--- a/robpy/pca/base.py
+++ b/robpy/pca/base.py
@@ -47,6 +47,8 @@ class RobustPCA(_BasePCA):
             is the number of samples and `n_components` is the number of components.
         """
         check_is_fitted(self, ["location_", "components_"])
+        if np.shape(X)[-1:] != self.location_.shape:  # would be broadcast otherwise
+            raise ValueError(f"X should have {len(self.location_)} features as in fit.")
         return (X - self.location_) @ self.components_
 
     def project(self, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 2d015162a69743ac522cbedc9a7aaba524467222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 57/80] fix: RobustScaler refuses data with another number of
 features

---
 robpy/preprocessing/scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index 474969e..d26b4f8 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -57,6 +57,8 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             X = X.values
         if len(X.shape) == 1:
             X = X.reshape(-1, 1)
+        if X.shape[1] != len(self.locations_):  # would be broadcast otherwise
+            raise ValueError(f"X has {X.shape[1]} features, expected {len(self.locations_)}.")
 
         return (X - self.locations_) / self.scales_
 
@@ -66,5 +68,7 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             X = X.values
         if len(X.shape) == 1:
             X = X.reshape(-1, 1)
+        if X.shape[1] != len(self.locations_):  # would be broadcast otherwise
+            raise ValueError(f"X has {X.shape[1]} features, expected {len(self.locations_)}.")
 
         return X * self.scales_ + self.locations_
-- 
2.43.0


From abd685fdbe7f1d32e24582538c4974d9309e3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 58/80] fix: S-regression refuses NaN and infinite values with
 a ValueError

---
 robpy/regression/s.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 2b84f0d..fc96097 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -86,6 +86,8 @@ class SRegression(RobustRegression):
         self.logger.setLevel(verbosity)
 
         X, y = _convert_input_to_array(X, y)
+        if not (np.all(np.isfinite(X)) and np.all(np.isfinite(y))):
+            raise ValueError("X and y should not contain NaN or infinite values.")
         if self.fit_intercept:
             X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
-- 
2.43.0


From 61d8a70fea619ca281074ca98453c937e59baca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 59/80] fix: cell_MCD_plot refuses an unknown plottype with a
 ValueError

---
 robpy/covariance/cellmcd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 220b7ea..bfd3ebf 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -184,6 +184,16 @@ class CellMCD(RobustCovariance):
 
         if not hasattr(self, "covariance_"):
             raise NotFittedError()
+        if plottype not in (
+            "indexplot",
+            "residuals_vs_variable",
+            "residuals_vs_predictions",
+            "variable_vs_predictions",
+            "bivariate",
+        ):
+            raise ValueError(f"Unknown plottype: {plottype}.")
+        if plottype == "bivariate" and second_variable is None:
+            raise ValueError("second_variable must be provided for bivariate plot.")
 
         fig, ax = plt.subplots(1, 1, figsize=figsize)
         cutoff = float(np.sqrt(chi2.ppf(self.quantile, 1)))
@@ -237,8 +247,6 @@ class CellMCD(RobustCovariance):
             title = f"{variable_name} versus its predictions"
 
         elif plottype == "bivariate":
-            if second_variable is None:
-                raise ValueError("second_variable must be provided for bivariate plot.")
             x, y = self.X[:, variable], self.X[:, second_variable]
             h_thresholds, v_thresholds = get_thresholds(cutoff, y), get_thresholds(cutoff, x)
             xlabel, ylabel = variable_name, second_variable_name
-- 
2.43.0


From 4f0a46376a58515ac137d4a02736f87df025a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 60/80] fix: number of PCA components when all variance should
 be explained

---
 robpy/pca/robpca.py | 3 ++-
 robpy/pca/spca.py   | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 6e309aa..49e7d1a 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -88,7 +88,8 @@ class ROBPCA(RobustPCA):
         sorted_eig_h_idx = np.argsort(eigvals_h)[::-1]
         var_explained_ratio = eigvals_h[sorted_eig_h_idx].cumsum() / eigvals_h.sum()
         if self.n_components is None:
-            k = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
+            # the full ratio may be just below 1 due to rounding
+            k = min(np.sum(var_explained_ratio < self.k_min_var_explained) + 1, len(eigvals_h))
         else:
             k = self.n_components
         self.explained_variance_ = eigvals_h[sorted_eig_h_idx[:k]]
diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 100ac36..a995f5e 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -49,7 +49,9 @@ class PCALocantore(RobustPCA):
         eigenvalues = np.square(median_abs_deviation(self.transform(X), axis=0, scale="normal"))
         var_explained_ratio = eigenvalues.cumsum() / eigenvalues.sum()
         if self.n_components is None:
-            self.n_components = np.argmax(var_explained_ratio >= self.k_min_var_explained) + 1
+            # the full ratio may be just below 1 due to rounding
+            n_needed = np.sum(var_explained_ratio < self.k_min_var_explained) + 1
+            self.n_components = min(n_needed, len(eigenvalues))
         self.components_ = self.components_[:, : self.n_components]
         self.explained_variance_ = eigenvalues[: self.n_components]
         self.explained_variance_ratio_ = var_explained_ratio[: self.n_components]
-- 
2.43.0


From 9d1ed706479a46de78f6065f0cf08da6500fe8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 61/80] fix: power transformer refuses NaN and an unset method

---
 robpy/preprocessing/transfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 0220c7d..ebc20bb 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -55,7 +55,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == getattr(self, "_automatic_method", None):
+        automatic_method = getattr(self, "_automatic_method", None)
+        if automatic_method is not None and self.method == automatic_method:
             self.method = "auto"  # the method was chosen automatically in a previous fit
         automatic = self.method == "auto"
         self._get_method(x)
@@ -601,6 +602,8 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         return lambda_est
 
     def _get_method(self, x: np.ndarray):
+        if np.isnan(x).any():
+            raise ValueError("The data contains NaN, which is not supported.")
         if self.method == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError("The data is not strictly positive. Box-Cox cannot be applied.")
-- 
2.43.0


From f76a81d6bdef517cb0d003d08ff19fb495907ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 62/80] fix: DDC.impute refuses non-numerical data with a
 ValueError

---
 robpy/outliers/ddc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 06c0af3..8f64b99 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -205,6 +205,8 @@ class DDC(OutlierMixin):
                 f"Impute can only be called with the same data as fit. "
                 f"Received {X.shape[1]} columns, expected {self.cellwise_outliers_.shape[1]}"
             )
+        if X.select_dtypes(include=np.number).shape != X.shape:
+            raise ValueError("Only numerical data is supported.")
         X = X.replace([np.inf, -np.inf], np.nan)
         Z = self._standardize(X)
         # step 2: univariate outlier detection
-- 
2.43.0


From 32ac6bf5c56ff9656e317ecdf1e15134ace8afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 63/80] fix: PCA refuses a non-positive n_components and has at
 most as many as features

---
 robpy/pca/robpca.py | 2 ++
 robpy/pca/spca.py   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 49e7d1a..f7051bb 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -52,6 +52,8 @@ class ROBPCA(RobustPCA):
         self.verbosity = verbosity
 
     def fit(self, X: np.ndarray) -> ROBPCA:
+        if self.n_components is not None and self.n_components < 1:
+            raise ValueError(f"n_components must be at least 1, but received {self.n_components}.")
         # step 1: singular value decomposition = applying standard PCA
         pca = PCA()
         X = pca.fit_transform(X)
diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index a995f5e..6a95ca9 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -36,6 +36,8 @@ class PCALocantore(RobustPCA):
     def fit(self, X: np.ndarray | pd.DataFrame) -> PCALocantore:
         if isinstance(X, pd.DataFrame):
             X = X.values
+        if self.n_components is not None and self.n_components < 1:
+            raise ValueError(f"n_components must be at least 1, but received {self.n_components}.")
         n = len(X)
         self.location_ = l1median(X)
         centered_X = X - self.location_
@@ -52,6 +54,7 @@ class PCALocantore(RobustPCA):
             # the full ratio may be just below 1 due to rounding
             n_needed = np.sum(var_explained_ratio < self.k_min_var_explained) + 1
             self.n_components = min(n_needed, len(eigenvalues))
+        self.n_components = min(self.n_components, X.shape[1])
         self.components_ = self.components_[:, : self.n_components]
         self.explained_variance_ = eigenvalues[: self.n_components]
         self.explained_variance_ratio_ = var_explained_ratio[: self.n_components]
-- 
2.43.0


From 82487da715ae9b501b4fbf290571799a645ccf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 64/80] fix: a failed RobustScaler fit leaves no half fitted
 scaler

---
 robpy/preprocessing/scaling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/scaling.py b/robpy/preprocessing/scaling.py
index d26b4f8..ec8ed39 100644
--- a/robpy/preprocessing/scaling.py
+++ b/robpy/preprocessing/scaling.py
@@ -39,15 +39,16 @@ class RobustScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
             X = X.values
         if len(X.shape) == 1:
             X = X.reshape(-1, 1)
-        self.locations_ = np.zeros(X.shape[1])
-        self.scales_ = np.ones(X.shape[1])
+        locations = np.zeros(X.shape[1])
+        scales = np.ones(X.shape[1])
 
         for feature_idx in range(X.shape[1]):
             fitted_estimator = deepcopy(self.scale_estimator).fit(X[:, feature_idx], ignore_nan)
             if self.with_centering:
-                self.locations_[feature_idx] = fitted_estimator.location
+                locations[feature_idx] = fitted_estimator.location
             if self.with_scaling:
-                self.scales_[feature_idx] = fitted_estimator.scale
+                scales[feature_idx] = fitted_estimator.scale
+        self.locations_, self.scales_ = locations, scales  # only if all features could be fitted
 
         return self
 
-- 
2.43.0


From 18f690ab14a6113e16e52f310998d2d9a6fa2986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 65/80] fix: FastLTS refuses NaN and infinite values whichever
 subsets are drawn

---
 robpy/regression/lts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index e6d9c1b..ce65ac7 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -90,6 +90,8 @@ class FastLTSRegression(RobustRegression):
         self.logger.setLevel(verbosity)
 
         X, y = _convert_input_to_array(X, y)
+        if not (np.all(np.isfinite(X)) and np.all(np.isfinite(y))):
+            raise ValueError("X and y should not contain NaN or infinite values.")
         y = y.reshape(-1, 1)
         if self.alpha < 0.5 or self.alpha > 1:
             raise ValueError(
-- 
2.43.0


From ccdbcdc9eb57f38a49a0102cfbeea891f13e7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 66/80] fix: finiteness check of the regressions accepts
 numbers held as objects

---
 robpy/regression/lts.py | 2 +-
 robpy/regression/s.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index ce65ac7..29a6269 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -90,7 +90,7 @@ class FastLTSRegression(RobustRegression):
         self.logger.setLevel(verbosity)
 
         X, y = _convert_input_to_array(X, y)
-        if not (np.all(np.isfinite(X)) and np.all(np.isfinite(y))):
+        if not (np.isfinite(X.astype(float)).all() and np.isfinite(y.astype(float)).all()):
             raise ValueError("X and y should not contain NaN or infinite values.")
         y = y.reshape(-1, 1)
         if self.alpha < 0.5 or self.alpha > 1:
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index fc96097..2f19806 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -86,7 +86,7 @@ class SRegression(RobustRegression):
         self.logger.setLevel(verbosity)
 
         X, y = _convert_input_to_array(X, y)
-        if not (np.all(np.isfinite(X)) and np.all(np.isfinite(y))):
+        if not (np.isfinite(X.astype(float)).all() and np.isfinite(y.astype(float)).all()):
             raise ValueError("X and y should not contain NaN or infinite values.")
         if self.fit_intercept:
             X = add_constant(X, has_constant="add")
-- 
2.43.0


From b6ecf9dfe03e6fabede0ba489cc2f59c56fb1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 67/80] fix: S-regression refuses X and y of different lengths
 with a ValueError

---
 robpy/regression/s.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 2f19806..0952fef 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -86,6 +86,8 @@ class SRegression(RobustRegression):
         self.logger.setLevel(verbosity)
 
         X, y = _convert_input_to_array(X, y)
+        if len(X) != len(y):
+            raise ValueError(f"X has {len(X)} rows, but y has {len(y)}.")
         if not (np.isfinite(X.astype(float)).all() and np.isfinite(y.astype(float)).all()):
             raise ValueError("X and y should not contain NaN or infinite values.")
         if self.fit_intercept:
-- 
2.43.0


From 787bf7b7a5a41e6c7bbc56641e4f7968f873c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 68/80] fix: read the data set descriptions as UTF-8 in any
 locale

---
 robpy/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/datasets/base.py b/robpy/datasets/base.py
index c672472..2f46c3b 100644
--- a/robpy/datasets/base.py
+++ b/robpy/datasets/base.py
@@ -30,7 +30,7 @@ def _load_data_and_descr(
 
     df = pd.read_csv(DATA_FOLDER / data_file_name)
 
-    with open(DESCR_FOLDER / descr_file_name, "r") as f:
+    with open(DESCR_FOLDER / descr_file_name, "r", encoding="utf-8") as f:
         fdescr = f.read()
 
     data = df[feature_names]
-- 
2.43.0


From b0968e16d8c94529b15d7827254ecfc452964fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 69/80] fix: DDC.cellmap failed for a vmax_clip below 2.5

---
 robpy/outliers/ddc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 8f64b99..5c3eac2 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -18,11 +18,12 @@ from robpy.univariate.base import RobustScale
 
 def get_custom_cmap(vmax_clip: float, neutral_color: str = "#f7f286") -> matplotlib.colors.Colormap:
     norm = matplotlib.colors.Normalize(-vmax_clip, vmax_clip)
+    neutral = 2.5 if vmax_clip > 2.5 else vmax_clip / 2  # the colors must fit within the range
     colors = [
         [norm(-vmax_clip), "#4652a3"],
-        [norm(-(vmax_clip + 2.5) / 2), "#8d6d8c"],
-        [norm(-2.5), neutral_color],
-        [norm(2.5), neutral_color],
+        [norm(-(vmax_clip + neutral) / 2), "#8d6d8c"],
+        [norm(-neutral), neutral_color],
+        [norm(neutral), neutral_color],
         [norm(vmax_clip), "#ec2123"],
     ]
     return matplotlib.colors.LinearSegmentedColormap.from_list("", colors)
-- 
2.43.0


From ca1217e73a9800cde77197fb011981dcd8d33047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:47 +0000
Subject: [PATCH 70/80] fix: DDC tolerance ellipse for the robust correlations
 used the univariate chi-square cutoff

---
 robpy/outliers/ddc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 5c3eac2..6703eec 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -368,7 +368,8 @@ class DDC(OutlierMixin):
                 distances = mahalanobis_distance(
                     xy, np.array([0, 0]), np.array([[1, xy_corr], [xy_corr, 1]])
                 )
-                xy_subset = xy[distances < self.cutoff, :]
+                # tolerance ellipse: bivariate distances
+                xy_subset = xy[distances < np.sqrt(chi2.ppf(self.chi2_quantile, df=2)), :]
                 if (xy_subset == xy_subset[:1]).all(axis=0).any():  # no variation left to correlate
                     correlation[i, j] = correlation[j, i] = 0
                     continue
-- 
2.43.0


From 78a9be4269b41c7b67dee91445661c4f9fb75118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 71/80] fix: initial DDCW estimate compared standardised cells
 with a covariance in the original units

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index d48372a..8d1b471 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -100,7 +100,7 @@ class InitialDDCW(RobustCovariance):
         Zimp_proj_wrapped_cov = np.atleast_2d(Zimp_proj_wrapped_cov)  # one eigenvector may remain
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
-        cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
+        cov = truncated_covariance(cov, self.min_eigenvalue)  # U below is standardized as well
 
         # temporary points: delete casewise outliers
         U = np.minimum(np.maximum(Z, -2), 2)
-- 
2.43.0


From d7380cd6befad0815e143eb70a3ca7aa7b713e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 72/80] fix: initial DDCW estimate imputed predictions rounded
 to three decimals, whatever the unit of the data

---
 robpy/covariance/initial_ddcw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 8d1b471..59ac49a 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -68,9 +68,9 @@ class InitialDDCW(RobustCovariance):
             W[:, i] = [False for _ in range(n)]
             W[ordering[0 : int(n * 0.25)], i] = True
         Zimp = X.astype(float)
-        Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
-            pd.DataFrame(X), impute_outliers=True
-        ).to_numpy()[np.logical_or(W, np.isnan(X))]
+        Zimp[np.logical_or(W, np.isnan(X))] = ddc.rescaled_predictions_[  # impute() rounds them
+            np.logical_or(W, np.isnan(X))
+        ]
         Z = (X - ddc.location_) / ddc.scale_
         Zimp = (Zimp - ddc.location_) / ddc.scale_
         Zimp_original = np.copy(Zimp)
-- 
2.43.0


From 00754ae36ac836f5c5be56bfd9c89a5eb031abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 73/80] fix: initial DDCW estimate kept all outlying rows as
 soon as one cell is missing

---
 robpy/covariance/initial_ddcw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 59ac49a..0e4d7a4 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -104,8 +104,8 @@ class InitialDDCW(RobustCovariance):
 
         # temporary points: delete casewise outliers
         U = np.minimum(np.maximum(Z, -2), 2)
-        RD = mahalanobis_distance(U, np.zeros(p), cov) ** 2
-        U_outlying_cases = np.where(RD / np.median(RD) * chi2.ppf(0.5, p) > chi2.ppf(0.99, p))[0]
+        RD = mahalanobis_distance(U, np.zeros(p), cov) ** 2  # nan for incomplete rows
+        U_outlying_cases = np.where(RD / np.nanmedian(RD) * chi2.ppf(0.5, p) > chi2.ppf(0.99, p))[0]
         Z = np.delete(Z, U_outlying_cases, axis=0)
         Zimp = np.delete(Zimp_original, U_outlying_cases, axis=0)
 
-- 
2.43.0


From 2f65523b61f75b470576ba1bf4dd2bf99d65de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 74/80] fix: initial DDCW estimate kept a quarter of the cells
 of a column flagged whatever alpha allows

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 0e4d7a4..ea1f821 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -66,7 +66,7 @@ class InitialDDCW(RobustCovariance):
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-            W[ordering[0 : int(n * 0.25)], i] = True
+            W[ordering[0 : int(n * (1 - alpha))], i] = True
         Zimp = X.astype(float)
         Zimp[np.logical_or(W, np.isnan(X))] = ddc.rescaled_predictions_[  # impute() rounds them
             np.logical_or(W, np.isnan(X))
-- 
2.43.0


From 1c58ae0822e25f2ae1de1bca11d64bcc27b8984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:38 +0000
Subject: [PATCH 75/80] fix: univariate estimators are wrong for unsigned and
 short integers, whose differences overflow (Qn)

---
 robpy/univariate/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/univariate/base.py b/robpy/univariate/base.py
index 39452d6..ac54f65 100644
--- a/robpy/univariate/base.py
+++ b/robpy/univariate/base.py
@@ -30,7 +30,7 @@ class RobustScale(ABC):
             raise ValueError("The data X contains NaN and estimator cannot handle missing values.")
         elif ignore_nan and np.isnan(X).any():
             X = X[~np.isnan(X)]
-        self._calculate(X)
+        self._calculate(X.astype(float))  # differences of short or unsigned integers overflow
         return self
 
     @abstractmethod
-- 
2.43.0


From 0dcb6b3ae03069d8d93d513c5509668cb7c2f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 76/80] fix: Stahel-Donoho directions, L1-median and
 Mahalanobis distances overflow for unsigned and short integers

---
 robpy/utils/distance.py     | 2 +-
 robpy/utils/median.py       | 1 +
 robpy/utils/outlyingness.py | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/robpy/utils/distance.py b/robpy/utils/distance.py
index 3358c86..2d511a7 100644
--- a/robpy/utils/distance.py
+++ b/robpy/utils/distance.py
@@ -20,5 +20,5 @@ def mahalanobis_distance(
         data = data.values
     cov_inv = np.linalg.inv(covariance)
 
-    centered_data = data - location.flatten()
+    centered_data = data.astype(float) - location.flatten()  # unsigned integers would overflow
     return np.sqrt(np.sum(centered_data.dot(cov_inv) * centered_data, axis=1))
diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index d601d5f..eb2f0d2 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -14,6 +14,7 @@ def l1median(X: np.ndarray) -> float:
         - Vardi, Y., & Zhang, C. H. (2000). The multivariate L1-median and associated data depth.
           Proceedings of the National Academy of Sciences, 97(4), 1423-1426.
     """
+    X = X.astype(float)  # differences to an observation of unsigned integers would overflow
     epsilon = 1e-9
     max_iterations = 1000
     mu_0 = np.mean(X, axis=0)
diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index ce368d5..037109a 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -69,7 +69,7 @@ def _get_random_direction(
         np.ndarray: vector of shape (p, ) indicating the direction.
     """
     rng = np.random.default_rng(random_seed)
-    points = X[rng.choice(X.shape[0], n_points, replace=False)]
+    points = X[rng.choice(X.shape[0], n_points, replace=False)].astype(float)  # uint8 overflows
 
     if n_points == 2:
         d = points[0] - points[1]
-- 
2.43.0


From f6856b945ddc90721511da827c738c6631a0f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 77/80] fix: FastMCD crashes on uint64 data, whose differences
 wrap around; covariance estimators work on floats

---
 robpy/covariance/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index 9c48cae..c6b8302 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -70,6 +70,7 @@ class RobustCovariance(EmpiricalCovariance):
                 ensure_2d=True,
                 ensure_all_finite=not self.nans_allowed,
             )
+        X = X.astype(float)  # differences of short or unsigned integers overflow
 
         if self.assume_centered:
             self.location_ = np.zeros(X.shape[1])
-- 
2.43.0


From 0a0862fa40520b21c9e4a4c8410ff153bac760ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 78/80] fix: power transformer computes logarithms of 8-bit
 integers in half precision

---
 robpy/preprocessing/transfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index ebc20bb..7de3047 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -60,6 +60,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             self.method = "auto"  # the method was chosen automatically in a previous fit
         automatic = self.method == "auto"
         self._get_method(x)
+        x = np.asarray(x, dtype=float)  # logarithms of short integers have half precision
         x_sorted = np.sort(x)
 
         if self.method in ["boxcox", "auto"]:
@@ -111,6 +112,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
 
         check_is_fitted(self, "lambda_rew")
+        x = x.astype(float)
         if self.method == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
@@ -140,6 +142,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
 
         check_is_fitted(self, "lambda_rew")
+        x = x.astype(float)
         if self.method == "boxcox":
             if self.standardize:
                 x = x * self.scale_post + self.location_post
-- 
2.43.0


From d997f563a228b084a9d1f6e261359b32f04d21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 79/80] fix: loss functions overflow on short integers

---
 robpy/utils/rho.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robpy/utils/rho.py b/robpy/utils/rho.py
index cc8f027..4cd7aa3 100644
--- a/robpy/utils/rho.py
+++ b/robpy/utils/rho.py
@@ -25,6 +25,7 @@ class TukeyBisquare(BaseRho):
         self.c = c
 
     def rho(self, X: np.ndarray) -> np.ndarray:
+        X = np.asarray(X, dtype=float)
         return np.where(
             np.abs(X) <= self.c,
             (X**2 / 2) - (X**4 / (2 * self.c**2)) + (X**6 / (6 * self.c**4)),
@@ -32,6 +33,7 @@ class TukeyBisquare(BaseRho):
         )
 
     def psi(self, X: np.ndarray) -> np.ndarray:
+        X = np.asarray(X, dtype=float)
         return np.where(np.abs(X) <= self.c, X * (1 - (X / self.c) ** 2) ** 2, 0)
 
 
@@ -47,7 +49,9 @@ class Huber(BaseRho):
         self.b = b
 
     def rho(self, X: np.ndarray) -> np.ndarray:
+        X = np.asarray(X, dtype=float)
         return np.where(np.abs(X) <= self.b, X**2 / 2, self.b * np.abs(X) - self.b**2 / 2)
 
     def psi(self, X: np.ndarray) -> np.ndarray:
+        X = np.asarray(X, dtype=float)
         return np.where(np.abs(X) <= self.b, X, self.b * np.sign(X))
-- 
2.43.0


From a44a3ebdbd9dfad325ae81df877b4a98c531292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:14 +0000
Subject: [PATCH 80/80] fix: an explicitly set power transform method was taken
 as chosen automatically after an automatic fit

---
 robpy/preprocessing/transfo.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 7de3047..8a5c5a9 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -48,6 +48,17 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         self.nsteps = nsteps
         self.logger = logging.getLogger("RobustPowerTransformer")
 
+    def get_params(self, deep: bool = True) -> dict:
+        params = super().get_params(deep=deep)
+        if getattr(self, "_automatic_method", None) == self.method:
+            params["method"] = "auto"  # the method was chosen automatically in a previous fit
+        return params
+
+    def set_params(self, **params):
+        if "method" in params:
+            self._automatic_method = None  # the method is the choice of the user
+        return super().set_params(**params)
+
     def fit(self, x: np.ndarray):
         """Calculates lambda, the transformation parameter depending on the method.
 
-- 
2.43.0

