From 6293bfa4180055b498a68f170ccac60678da1970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 01/40] fix: Kalman filter likelihood and predicted
 observations with several or missing series

The normalising constant was counted once whatever the number of observed series, missing entries
contributed log(jitter) and their intercept to the likelihood, a non-diagonal observation covariance
was masked on one side only, and predicted observations of missing entries ignored the state.
---
 .../statespace/filters/kalman_filter.py       | 79 +++++++++++++++----
 1 file changed, 62 insertions(+), 17 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 0ca47b5..62821cf 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -292,7 +292,7 @@ class BaseFilter(ABC):
         )
         observed_covariances.name = "observed_covariances"
 
-        loglike_obs = pt.specify_shape(loglike_obs.squeeze(), (n,))
+        loglike_obs = pt.specify_shape(loglike_obs, (n,))
         loglike_obs.name = "loglike_obs"
 
         filter_results = [
@@ -308,14 +308,17 @@ class BaseFilter(ABC):
         return filter_results
 
     def handle_missing_values(
-        self, y, Z, H
-    ) -> tuple[TensorVariable, TensorVariable, TensorVariable, float]:
+        self, y, d, Z, H
+    ) -> tuple[
+        TensorVariable, TensorVariable, TensorVariable, TensorVariable, TensorVariable, float
+    ]:
         """
         Handle missing values in the observation data `y`
 
-        Adjusts the design matrix `Z` and the observation noise covariance matrix `H` by removing rows and/or columns
-        associated with the data that is not observed at this iteration. Missing values are replaced with zeros to prevent
-        propagating NaNs through the computation.
+        Adjusts the observation intercept `d`, the design matrix `Z` and the observation noise covariance matrix `H` by
+        zeroing out rows and columns associated with the data that is not observed at this iteration. Missing values are
+        replaced with zeros to prevent propagating NaNs through the computation. Missing entries are given unit variance,
+        uncorrelated with everything else, so that they contribute nothing to the innovation covariance.
 
         Return a binary flag tensor `all_nan_flag`,indicating if all values in the observation data are missing. This
         flag is used for numerical adjustments in the update method.
@@ -324,6 +327,8 @@ class BaseFilter(ABC):
         ----------
         y : TensorVariable
             The observation data at time t.
+        d : TensorVariable
+            The observation intercept.
         Z : TensorVariable
             The design matrix.
         H : TensorVariable
@@ -334,6 +339,9 @@ class BaseFilter(ABC):
         y_masked : TensorVariable
             Observation vector with missing values replaced by zeros.
 
+        d_masked : TensorVariable
+            Observation intercept, with the intercepts of missing values replaced by zeros.
+
         Z_masked: TensorVariable
             Design matrix adjusted to exclude the missing states from the information set of observed variables in the
             update step
@@ -341,6 +349,9 @@ class BaseFilter(ABC):
         H_masked: TensorVariable
             Noise covariance matrix, adjusted to exclude the missing states
 
+        n_missing: TensorVariable
+            Number of missing values in the observation vector
+
         all_nan_flag: float
             1 if the entire state vector is missing
 
@@ -351,13 +362,22 @@ class BaseFilter(ABC):
         """
         nan_mask = pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
         all_nan_flag = pt.all(nan_mask).astype(pytensor.config.floatX)
-        W = pt.diag(pt.bitwise_not(nan_mask).astype(pytensor.config.floatX))
+        observed = pt.bitwise_not(nan_mask).astype(pytensor.config.floatX)
 
-        Z_masked = W.dot(Z)
-        H_masked = W.dot(H)
+        d_masked = d * observed
+        Z_masked = Z * observed[:, None]
+        H_masked = H * pt.outer(observed, observed) + pt.diag(1 - observed)
         y_masked = pt.set_subtensor(y[nan_mask], 0.0)
+        n_missing = (1 - observed).sum()
+
+        return y_masked, d_masked, Z_masked, H_masked, n_missing, all_nan_flag
 
-        return y_masked, Z_masked, H_masked, all_nan_flag
+    def predict_observation(self, a, P, d, Z, H) -> tuple[TensorVariable, TensorVariable]:
+        """
+        Compute the mean and covariance of the time t observation, given all information prior to time t. Unlike the
+        quantities used in the update step, these do not depend on which elements of the data are missing.
+        """
+        return d + Z.dot(a), quad_form_sym(Z, P) + stabilize(H, self.cov_jitter)
 
     @staticmethod
     def predict(a, P, c, T, R, Q) -> tuple[TensorVariable, TensorVariable]:
@@ -411,7 +431,7 @@ class BaseFilter(ABC):
 
     @staticmethod
     def update(
-        a, P, y, d, Z, H, all_nan_flag
+        a, P, y, d, Z, H, all_nan_flag, n_missing=0
     ) -> tuple[TensorVariable, TensorVariable, TensorVariable, TensorVariable, TensorVariable]:
         """
         Perform the update step of the Kalman filter.
@@ -446,6 +466,8 @@ class BaseFilter(ABC):
             The matrix H.
         all_nan_flag : TensorVariable
             A binary flag tensor indicating whether there are any missing values in the observation data.
+        n_missing : TensorVariable
+            Number of missing values in the observation data.
 
         Returns
         -------
@@ -527,11 +549,21 @@ class BaseFilter(ABC):
                2nd ed, Oxford University Press, 2012.
         """
         y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
-        y_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(y, Z, H)
+        y_masked, d_masked, Z_masked, H_masked, n_missing, all_nan_flag = (
+            self.handle_missing_values(y, d, Z, H)
+        )
 
-        a_filtered, P_filtered, obs_mu, obs_cov, ll = self.update(
-            y=y_masked, a=a, d=d, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
+        a_filtered, P_filtered, _, _, ll = self.update(
+            y=y_masked,
+            a=a,
+            d=d_masked,
+            P=P,
+            Z=Z_masked,
+            H=H_masked,
+            all_nan_flag=all_nan_flag,
+            n_missing=n_missing,
         )
+        obs_mu, obs_cov = self.predict_observation(a=a, P=P, d=d, Z=Z, H=H)
 
         P_filtered = stabilize(P_filtered, self.cov_jitter)
 
@@ -546,7 +578,7 @@ class StandardFilter(BaseFilter):
     Basic Kalman Filter
     """
 
-    def update(self, a, P, y, d, Z, H, all_nan_flag):
+    def update(self, a, P, y, d, Z, H, all_nan_flag, n_missing=0):
         """
         Compute one-step forecasts for observed states conditioned on information up to, but not including, the current
         timestep, `y_hat`, along with the forcast covariance matrix, `F`. Marginalize over observed states to obtain
@@ -578,6 +610,8 @@ class StandardFilter(BaseFilter):
 
         all_nan_flag : TensorVariable
             A flag indicating whether all elements in the data `y` are NaNs.
+        n_missing : TensorVariable
+            Number of elements of the data `y` that are NaNs.
 
         Returns
         -------
@@ -611,7 +645,7 @@ class StandardFilter(BaseFilter):
         ll = pt.switch(
             all_nan_flag,
             0.0,
-            -0.5 * (MVN_CONST + F_logdet + inner_term).ravel()[0],
+            -0.5 * ((self.n_endog - n_missing) * MVN_CONST + F_logdet + inner_term).ravel()[0],
         )
 
         return a_filtered, P_filtered, y_hat, F, ll
@@ -647,7 +681,7 @@ class SquareRootFilter(BaseFilter):
 
         return a_hat, P_chol_hat
 
-    def update(self, a, P, y, d, Z, H, all_nan_flag):
+    def update(self, a, P, y, d, Z, H, all_nan_flag, n_missing=0):
         """
         Compute posterior estimates of the hidden state distributions conditioned on the observed data, up to and
         including the present timestep. Also compute the log-likelihood of the data given the one-step forecasts.
@@ -715,6 +749,17 @@ class SquareRootFilter(BaseFilter):
 
         return a_filtered, P_chol_filtered, y_hat, F_chol, ll
 
+    def predict_observation(self, a, P, d, Z, H):
+        """
+        Compute the mean and **cholesky factor** of the covariance of the time t observation, given all information
+        prior to time t.
+        """
+        H_chol = pytensor.ifelse(pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(H, lower=True))
+        M = pt.horizontal_stack(H_chol, Z @ P).T
+        F_chol = pt.linalg.qr(M, mode="r")[: self.n_endog, : self.n_endog].T
+
+        return d + Z.dot(a), F_chol
+
     def _postprocess_scan_results(self, results, a0, P0, n) -> list[TensorVariable]:
         """
         Convert the Cholesky factor of the covariance matrix back to the covariance matrix itself.
-- 
2.43.0


From be775b63de8086f1d14338d0b52290280788e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 02/40] fix: square root Kalman filter likelihood and
 single-state shape

The quadratic form used L^-1 L^-1 instead of L^-T L^-1 and the log determinant was multiplied by the
number of series.
---
 pymc_extras/statespace/filters/kalman_filter.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 62821cf..1420004 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -678,6 +678,7 @@ class SquareRootFilter(BaseFilter):
         M = pt.horizontal_stack(T @ P_chol, R @ Q_chol).T
         R_decomp = pt.linalg.qr(M, mode="r")
         P_chol_hat = R_decomp[: self.n_states, : self.n_states].T
+        P_chol_hat = pt.specify_shape(P_chol_hat, (self.n_states, self.n_states))
 
         return a_hat, P_chol_hat
 
@@ -719,15 +720,12 @@ class SquareRootFilter(BaseFilter):
         def compute_non_degenerate(P_chol_filtered, F_chol, K_F_chol, v):
             a_filtered = a + K_F_chol @ solve_triangular(F_chol, v, lower=True)
 
-            inner_term = solve_triangular(
-                F_chol, solve_triangular(F_chol, v, lower=True), lower=True
-            )
-            loss = (v.T @ inner_term).ravel()
+            loss = pt.sqr(solve_triangular(F_chol, v, lower=True)).sum()
 
             # abs necessary because we're not guaranteed a positive diagonal from the schur decomposition
             logdet = 2 * pt.log(pt.abs(pt.diag(F_chol))).sum()
 
-            ll = -0.5 * (self.n_endog * (MVN_CONST + logdet) + loss)[0]
+            ll = -0.5 * ((self.n_endog - n_missing) * MVN_CONST + logdet + loss)
 
             return [a_filtered, P_chol_filtered, ll]
 
-- 
2.43.0


From d5078b56c218cc599ab745da6bcafca6fa5653cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 03/40] fix: univariate Kalman filter with missing,
 multivariate and time-varying inputs

It ignored the missing-data marker, returned only the last series' predicted observation and could not
unpack time-varying matrices.
---
 .../statespace/filters/kalman_filter.py       | 31 +++++++------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 1420004..3190951 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -827,37 +827,30 @@ class UnivariateFilter(BaseFilter):
         a_filtered = a + K * v
         P_filtered = P - pt.outer(K, K) * F
 
-        ll_inner = pt.switch(F_zero_flag, 0.0, pt.log(F) + v**2 / F)
+        ll_inner = pt.switch(F_zero_flag, 0.0, MVN_CONST + pt.log(F) + v**2 / F)
 
-        return a_filtered, P_filtered, pt.atleast_1d(y_hat), pt.atleast_2d(F), ll_inner
+        return a_filtered, P_filtered, ll_inner
 
-    def kalman_step(self, y, a, P, c, d, T, Z, R, H, Q):
-        nan_mask = pt.isnan(y)
-
-        W = pt.set_subtensor(pt.eye(y.shape[0])[nan_mask, nan_mask], 0.0)
-        Z_masked = W.dot(Z)
-        H_masked = W.dot(H)
-        y_masked = pt.set_subtensor(y[nan_mask], 0.0)
+    def kalman_step(self, *args):
+        y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
+        nan_mask = pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
+        y_masked, d_masked, Z_masked, H_masked, *_ = self.handle_missing_values(y, d, Z, H)
 
         result, updates = pytensor.scan(
             self._univariate_inner_filter_step,
-            sequences=[y_masked, Z_masked, d, pt.diag(H_masked), nan_mask],
-            outputs_info=[a, P, None, None, None],
+            sequences=[y_masked, Z_masked, d_masked, pt.diag(H_masked), nan_mask],
+            outputs_info=[a, P, None],
             mode=get_mode(self.mode),
             name="univariate_inner_scan",
         )
 
-        a_filtered, P_filtered, obs_mu, obs_cov, ll_inner = result
-        a_filtered, P_filtered, obs_mu, obs_cov = (
-            a_filtered[-1],
-            P_filtered[-1],
-            obs_mu[-1],
-            obs_cov[-1],
-        )
+        a_filtered, P_filtered, ll_inner = result
+        a_filtered, P_filtered = a_filtered[-1], P_filtered[-1]
+        obs_mu, obs_cov = self.predict_observation(a=a, P=P, d=d, Z=Z, H=H)
 
         P_filtered = stabilize(0.5 * (P_filtered + P_filtered.T), self.cov_jitter)
         a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
 
-        ll = -0.5 * ((pt.neq(ll_inner, 0).sum()) * MVN_CONST + ll_inner.sum())
+        ll = -0.5 * ll_inner.sum()
 
         return a_filtered, a_hat, obs_mu, P_filtered, P_hat, obs_cov, ll
-- 
2.43.0


From 3f7da570545ec771375b0998e81396b052206635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 04/40] fix: Kalman smoother intercepts and time-varying
 matrices, square root filter initial covariance, jitter and fill value used
 after fitting

---
 pymc_extras/statespace/core/statespace.py     | 54 ++++++++++++++-----
 .../statespace/filters/kalman_smoother.py     | 41 +++++++++-----
 2 files changed, 69 insertions(+), 26 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 8ad86c1..d30e28c 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -224,6 +224,8 @@ class PyMCStateSpace:
         self._fit_coords: dict[str, Sequence[str]] | None = None
         self._fit_dims: dict[str, Sequence[str]] | None = None
         self._fit_data: pt.TensorVariable | None = None
+        self._fit_missing_fill_value: float | None = None
+        self._fit_cov_jitter: float | None = JITTER_DEFAULT
 
         self._needs_exog_data = None
         self._exog_names = []
@@ -867,7 +869,7 @@ class PyMCStateSpace:
 
         filter_outputs = self.kalman_filter.build_graph(
             pt.as_tensor_variable(data),
-            *self.unpack_statespace(),
+            *self._prepare_filter_inputs(self.unpack_statespace(), cov_jitter),
             mode=mode,
             missing_fill_value=missing_fill_value,
             cov_jitter=cov_jitter,
@@ -879,7 +881,11 @@ class PyMCStateSpace:
         filtered_covariances, predicted_covariances, observed_covariances = covs
         if save_kalman_filter_outputs_in_idata:
             smooth_states, smooth_covariances = self._build_smoother_graph(
-                filtered_states, filtered_covariances, self.unpack_statespace(), mode=mode
+                filtered_states,
+                filtered_covariances,
+                self.unpack_statespace(),
+                mode=mode,
+                cov_jitter=cov_jitter,
             )
             all_kf_outputs = [*states, smooth_states, *covs, smooth_covariances]
             self._register_kalman_filter_outputs_with_pymc_model(all_kf_outputs)
@@ -899,6 +905,22 @@ class PyMCStateSpace:
         self._fit_coords = pm_mod.coords.copy()
         self._fit_dims = pm_mod.named_vars_to_dims.copy()
         self._fit_mode = mode
+        self._fit_missing_fill_value = missing_fill_value
+        self._fit_cov_jitter = cov_jitter
+
+    def _prepare_filter_inputs(self, matrices, cov_jitter: float | None = None):
+        """
+        Convert statespace matrices to the form expected by the Kalman filter.
+
+        The square root filter propagates the Cholesky factor of the hidden state covariance matrix, so it needs to be
+        initialized with the Cholesky factor of P0. All other filters use the matrices as they are.
+        """
+        x0, P0, *other_matrices = matrices
+        if isinstance(self.kalman_filter, SquareRootFilter):
+            jitter = JITTER_DEFAULT if cov_jitter is None else cov_jitter
+            P0 = pt.linalg.cholesky(stabilize(P0, jitter), lower=True)
+
+        return [x0, P0, *other_matrices]
 
     def _build_smoother_graph(
         self,
@@ -940,10 +962,10 @@ class PyMCStateSpace:
 
         pymc_model = modelcontext(None)
         with pymc_model:
-            *_, T, Z, R, H, Q = matrices
+            _, _, c, _, T, Z, R, H, Q = matrices
 
             smooth_states, smooth_covariances = self.kalman_smoother.build_graph(
-                T, R, Q, filtered_states, filtered_covariances, mode=mode, cov_jitter=cov_jitter
+                T, R, Q, filtered_states, filtered_covariances, mode=mode, cov_jitter=cov_jitter, c=c
             )
             smooth_states.name = "smooth_states"
             smooth_covariances.name = "smooth_covariances"
@@ -1024,20 +1046,17 @@ class PyMCStateSpace:
             obs_coords=obs_coords,
             data_dims=data_dims,
             register_data=True,
+            missing_fill_value=self._fit_missing_fill_value,
         )
 
         filter_outputs = self.kalman_filter.build_graph(
             data,
-            x0,
-            P0,
-            c,
-            d,
-            T,
-            Z,
-            R,
-            H,
-            Q,
+            *self._prepare_filter_inputs(
+                [x0, P0, c, d, T, Z, R, H, Q], self._fit_cov_jitter
+            ),
             mode=self._fit_mode,
+            missing_fill_value=self._fit_missing_fill_value,
+            cov_jitter=self._fit_cov_jitter,
         )
 
         filter_outputs.pop(-1)
@@ -1047,7 +1066,14 @@ class PyMCStateSpace:
         filtered_covariances, predicted_covariances, _ = covariances
 
         [smoothed_states, smoothed_covariances] = self.kalman_smoother.build_graph(
-            T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode
+            T,
+            R,
+            Q,
+            filtered_states,
+            filtered_covariances,
+            mode=self._fit_mode,
+            cov_jitter=self._fit_cov_jitter,
+            c=c,
         )
 
         grouped_outputs = [
diff --git a/pymc_extras/statespace/filters/kalman_smoother.py b/pymc_extras/statespace/filters/kalman_smoother.py
index f15913b..d530e99 100644
--- a/pymc_extras/statespace/filters/kalman_smoother.py
+++ b/pymc_extras/statespace/filters/kalman_smoother.py
@@ -31,7 +31,7 @@ class KalmanSmoother:
         non-sequences. This function works out which matrices are where, and returns a standardized order expected
         by the kalman_step function.
 
-        The standard order is: a, P, a_smooth, P_smooth, T, R, Q
+        The standard order is: a, P, a_smooth, P_smooth, c, T, R, Q
         """
         # If there are no sequence parameters (all params are static),
         # no changes are needed, params will be in order.
@@ -51,7 +51,7 @@ class KalmanSmoother:
             args[n_seq + 2 :],
         )
         return_ordered = []
-        for name in ["T", "R", "Q"]:
+        for name in ["c", "T", "R", "Q"]:
             if name in self.seq_names:
                 idx = self.seq_names.index(name)
                 return_ordered.append(seqs[idx])
@@ -59,12 +59,20 @@ class KalmanSmoother:
                 idx = self.non_seq_names.index(name)
                 return_ordered.append(non_seqs[idx])
 
-        T, R, Q = return_ordered
+        c, T, R, Q = return_ordered
 
-        return a, P, a_smooth, P_smooth, T, R, Q
+        return a, P, a_smooth, P_smooth, c, T, R, Q
 
     def build_graph(
-        self, T, R, Q, filtered_states, filtered_covariances, mode=None, cov_jitter=JITTER_DEFAULT
+        self,
+        T,
+        R,
+        Q,
+        filtered_states,
+        filtered_covariances,
+        mode=None,
+        cov_jitter=JITTER_DEFAULT,
+        c=None,
     ):
         self.mode = mode
         self.cov_jitter = cov_jitter
@@ -74,8 +82,11 @@ class KalmanSmoother:
         a_last = pt.specify_shape(filtered_states[-1], (k,))
         P_last = pt.specify_shape(filtered_covariances[-1], (k, k))
 
+        if c is None:
+            c = pt.zeros_like(a_last)
+
         sequences, non_sequences, seq_names, non_seq_names = split_vars_into_seq_and_nonseq(
-            [T, R, Q], ["T", "R", "Q"]
+            [c, T, R, Q], ["c", "T", "R", "Q"]
         )
 
         self.seq_names = seq_names
@@ -83,7 +94,13 @@ class KalmanSmoother:
 
         smoother_result, updates = pytensor.scan(
             self.smoother_step,
-            sequences=[filtered_states[:-1], filtered_covariances[:-1], *sequences],
+            # Matrices at time t govern the transition from t to t + 1, so there are no transitions to smooth at the last
+            # time step
+            sequences=[
+                filtered_states[:-1],
+                filtered_covariances[:-1],
+                *[matrix[:-1] for matrix in sequences],
+            ],
             outputs_info=[a_last, P_last],
             non_sequences=non_sequences,
             go_backwards=True,
@@ -105,8 +122,8 @@ class KalmanSmoother:
         return smoothed_states, smoothed_covariances
 
     def smoother_step(self, *args):
-        a, P, a_smooth, P_smooth, T, R, Q = self.unpack_args(args)
-        a_hat, P_hat = self.predict(a, P, T, R, Q)
+        a, P, a_smooth, P_smooth, c, T, R, Q = self.unpack_args(args)
+        a_hat, P_hat = self.predict(a, P, c, T, R, Q)
 
         # Use pinv, otherwise P_hat is singular when there is missing data
         smoother_gain = matrix_dot(pt.linalg.pinv(P_hat), T, P).T
@@ -114,12 +131,12 @@ class KalmanSmoother:
 
         P_smooth_next = P + quad_form_sym(smoother_gain, P_smooth - P_hat)
         P_smooth_next = stabilize(P_smooth_next, self.cov_jitter)
-        P_smooth_next = pt.specify_shape(stabilize(P_smooth_next), P_smooth.type.shape)
+        P_smooth_next = pt.specify_shape(P_smooth_next, P_smooth.type.shape)
 
         return a_smooth_next, P_smooth_next
 
-    def predict(self, a, P, T, R, Q):
-        a_hat = T.dot(a)
+    def predict(self, a, P, c, T, R, Q):
+        a_hat = T.dot(a) + c
         P_hat = quad_form_sym(T, P) + quad_form_sym(R, Q)
         P_hat = stabilize(P_hat, self.cov_jitter)
 
-- 
2.43.0


From e31f71e9b0f58ae78e8b79de3c57c7bc21677b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 05/40] fix: simulated state space trajectories: independent
 initial draws, observation intercept at time 0, time-varying matrix alignment

---
 .../statespace/filters/distributions.py       | 55 +++++++++++++------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index d3b70c8..353601e 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -9,6 +9,7 @@ from pymc.distributions.distribution import Continuous, SymbolicRandomVariable
 from pymc.distributions.multivariate import MvNormal
 from pymc.distributions.shape_utils import get_support_shape_1d
 from pymc.logprob.abstract import _logprob
+from pytensor import graph_replace
 from pytensor.graph.basic import Node
 from pytensor.tensor.random.basic import MvNormalRV
 
@@ -211,21 +212,35 @@ class _LinearGaussianStateSpace(Continuous):
         H_.name = "H"
         Q_.name = "Q"
 
-        sequences = [
-            x
-            for x, name in zip([c_, d_, T_, Z_, R_, H_, Q_], ["c", "d", "T", "Z", "R", "H", "Q"])
-            if name in sequence_names
+        matrices = dict(zip(["c", "d", "T", "Z", "R", "H", "Q"], [c_, d_, T_, Z_, R_, H_, Q_]))
+
+        # A time dimension of length one is a dummy, the matrix is static
+        sequences = {
+            name: x
+            for name, x in matrices.items()
+            if name in sequence_names and x.type.shape[0] != 1
+        }
+        non_sequences = {
+            name: x[0] if name in sequence_names else x
+            for name, x in matrices.items()
+            if name not in sequences
+        }
+
+        # When x0 is part of the output, the first row of a time varying matrix belongs to x0. The observation made after
+        # the first transition is then governed by the second row.
+        obs_offset = int(append_x0)
+        scan_sequences = [
+            x[obs_offset:] if name in ["d", "Z", "H"] else x[: x.shape[0] - obs_offset]
+            for name, x in sequences.items()
         ]
-        non_sequences = [x for x in [c_, d_, T_, Z_, R_, H_, Q_] if x not in sequences]
 
         rng = pytensor.shared(np.random.default_rng())
 
         def sort_args(args):
             sorted_args = []
 
-            # Inside the scan, outputs_info variables get a time step appended to their name
-            # e.g. x -> x[t]. Remove this so we can identify variables by name.
-            arg_names = [x.name.replace("[t]", "") for x in args]
+            # Inside the scan, sequences come first, followed by non-sequences
+            arg_names = [*sequences, *non_sequences]
 
             # c, d ,T, Z, R, H, Q is the "canonical" ordering
             for name in ["c", "d", "T", "Z", "R", "H", "Q"]:
@@ -234,7 +249,7 @@ class _LinearGaussianStateSpace(Continuous):
 
             return sorted_args
 
-        n_seq = len(sequence_names)
+        n_seq = len(sequences)
 
         def step_fn(*args):
             seqs, state, non_seqs = args[:n_seq], args[n_seq], args[n_seq + 1 :]
@@ -257,23 +272,32 @@ class _LinearGaussianStateSpace(Continuous):
 
             return next_state, {rng: next_rng}
 
-        Z_init = Z_ if Z_ in non_sequences else Z_[0]
-        H_init = H_ if H_ in non_sequences else H_[0]
+        d_init, Z_init, H_init = (
+            sequences[name][0] if name in sequences else non_sequences[name]
+            for name in ["d", "Z", "H"]
+        )
 
-        init_x_ = MvNormalSVD.dist(a0_, P0_, rng=rng)
-        init_y_ = MvNormalSVD.dist(Z_init @ init_x_, H_init, rng=rng)
+        middle_rng, init_x_ = MvNormalSVD.dist(a0_, P0_, rng=rng).owner.outputs
+        next_rng, init_y_ = MvNormalSVD.dist(
+            d_init + Z_init @ init_x_, H_init, rng=middle_rng
+        ).owner.outputs
 
         init_dist_ = pt.concatenate([init_x_, init_y_], axis=0)
 
+        # The innovations have to be independent of the initial state, so the scan continues with the rng that results from
+        # the initial draws. Scan can only update shared rngs, so this has to be replaced afterwards.
+        scan_rng = pytensor.shared(np.random.default_rng())
         statespace, updates = pytensor.scan(
             step_fn,
             outputs_info=[init_dist_],
-            sequences=None if len(sequences) == 0 else sequences,
-            non_sequences=[*non_sequences, rng],
+            sequences=None if len(scan_sequences) == 0 else scan_sequences,
+            non_sequences=[*non_sequences.values(), scan_rng],
             n_steps=steps,
             mode=mode,
             strict=True,
         )
+        (ss_rng,) = tuple(updates.values())
+        statespace, ss_rng = graph_replace([statespace, ss_rng], {scan_rng: next_rng})
 
         if append_x0:
             statespace_ = pt.concatenate([init_dist_[None], statespace], axis=0)
@@ -282,7 +306,6 @@ class _LinearGaussianStateSpace(Continuous):
             statespace_ = statespace
             statespace_ = pt.specify_shape(statespace_, (steps, None))
 
-        (ss_rng,) = tuple(updates.values())
         linear_gaussian_ss_op = LinearGaussianStateSpaceRV(
             inputs=[a0_, P0_, c_, d_, T_, Z_, R_, H_, Q_, steps, rng],
             outputs=[ss_rng, statespace_],
-- 
2.43.0


From 5c01ffc4cf06ea6a216bf983e1ae0be2935c4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 06/40] fix: observation intercept in conditional samples,
 time-varying matrices in sample_statespace_matrices

---
 pymc_extras/statespace/core/statespace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index d30e28c..c2e7fd8 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1164,7 +1164,7 @@ class PyMCStateSpace:
                     dims=state_dims,
                 )
 
-                obs_mu = (Z @ mu[..., None]).squeeze(-1)
+                obs_mu = d + (Z @ mu[..., None]).squeeze(-1)
                 obs_cov = Z @ cov @ pt.swapaxes(Z, -2, -1) + H
 
                 SequenceMvNormal(
@@ -1517,6 +1517,9 @@ class PyMCStateSpace:
                 if (long_name in matrix_names) or (short_name in matrix_names):
                     name = long_name if long_name in matrix_names else short_name
                     dims = [x if x in self._fit_coords else None for x in MATRIX_DIMS[short_name]]
+                    if matrix.ndim > len(dims):
+                        time_dim = TIME_DIM if TIME_DIM in self._fit_coords else None
+                        dims = [time_dim, *dims]
                     pm.Deterministic(name, matrix, dims=dims)
 
         # TODO: Remove this after pm.Flat has its initial_value fixed
-- 
2.43.0


From 0d0cb020a9a1174ae2728d27448e1c8521b663bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 07/40] fix: forecasts without a start date, with permuted,
 integer or single-column exogenous scenarios, and with dims on the exogenous
 data

---
 pymc_extras/statespace/core/statespace.py | 75 +++++++++++++++--------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index c2e7fd8..7c5fa06 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -650,6 +650,30 @@ class PyMCStateSpace:
                 "dims": pymc_mod.named_vars_to_dims.get(data_name, None),
             }
 
+    def _register_exogenous_data(self, time_dim: str = TIME_DIM):
+        """
+        Add the exogenous data used to fit the model to the PyMC model currently on the context stack
+
+        Parameters
+        ----------
+        time_dim: str
+            Name of the time dimension of the data used to fit the model, in the current PyMC model
+        """
+        pymc_mod = modelcontext(None)
+        for data_name in self.data_names:
+            if data_name in pymc_mod:
+                continue
+
+            info = self._exog_data_info[data_name]
+            value, dims = info["value"], info["dims"]
+            if dims is not None:
+                dims = tuple(time_dim if dim == TIME_DIM else dim for dim in dims)
+
+            # A static shape is required if there is just one column, because the type changes when it becomes known
+            # that the last dimension is broadcastable (for example in freeze_dims_and_data).
+            shape = (None, 1) if value.ndim == 2 and value.shape[-1] == 1 else None
+            pm.Data(data_name, value, dims=dims, shape=shape)
+
     def _insert_random_variables(self):
         """
         Replace pytensor symbolic variables with PyMC random variables.
@@ -1023,10 +1047,7 @@ class PyMCStateSpace:
         self._build_dummy_graph()
         self._insert_random_variables()
 
-        for name in self.data_names:
-            if name not in pm_mod:
-                pm.Data(**self._exog_data_info[name])
-
+        self._register_exogenous_data(time_dim=TIME_DIM if data_dims is None else data_dims[0])
         self._insert_data_variables()
 
         for name in self.data_names:
@@ -1271,9 +1292,7 @@ class PyMCStateSpace:
             self._build_dummy_graph()
             self._insert_random_variables()
 
-            for name in self.data_names:
-                pm.Data(**self._exog_data_info[name])
-
+            self._register_exogenous_data()
             self._insert_data_variables()
 
             matrices = [x0, P0, c, d, T, Z, R, H, Q] = self.unpack_statespace()
@@ -1507,9 +1526,7 @@ class PyMCStateSpace:
             self._build_dummy_graph()
             self._insert_random_variables()
 
-            for name in self.data_names:
-                pm.Data(**self._exog_data_info[name])
-
+            self._register_exogenous_data()
             self._insert_data_variables()
             matrices = self.unpack_statespace()
             for short_name, matrix in zip(MATRIX_NAMES, matrices):
@@ -1639,6 +1656,7 @@ class PyMCStateSpace:
             )
 
         if isinstance(scenario, dict):
+            scenario = scenario.copy()
             for name, data in scenario.items():
                 if name not in self._exog_names:
                     raise ValueError(
@@ -1648,7 +1666,7 @@ class PyMCStateSpace:
 
                 # Recursively call this function to trigger the non-dictionary branch of the checks on each object
                 # inside the dictionary
-                scenario[name] = self._validate_scenario_data(data, name)
+                scenario[name] = self._validate_scenario_data(data, name, verbose=verbose)
 
             # The provided dictionary might be a mix of numpy arrays and dataframes if the user is truly horrible.
             # For checking shapes, the first object will always be good enough. But we also need to make sure all the
@@ -1726,13 +1744,14 @@ class PyMCStateSpace:
                         f"{', '.join(extra_columns)}"
                     )
 
-                if not (a == b for a, b in zip(expected_cols, cols)) and verbose:
-                    _log.warning(
-                        f"Scenario data for {name} has a different column order than the data used to fit the "
-                        f"model. Columns will be automatically re-ordered. Ensure consistent ordering to avoid "
-                        f"silent errors."
-                    )
-                    scenario = scenario[expected_cols]
+                if list(expected_cols) != list(cols):
+                    if verbose:
+                        _log.warning(
+                            f"Scenario data for {name} has a different column order than the data used to fit the "
+                            f"model. Columns will be automatically re-ordered. Ensure consistent ordering to avoid "
+                            f"silent errors."
+                        )
+                    scenario = scenario[list(expected_cols)]
 
             return scenario
 
@@ -1883,9 +1902,10 @@ class PyMCStateSpace:
             return scenario
 
         if isinstance(scenario, dict):
-            for name, data in scenario.items():
-                scenario[name] = self._finalize_scenario_initialization(data, forecast_index, name)
-            return scenario
+            return {
+                name: self._finalize_scenario_initialization(data, forecast_index, name)
+                for name, data in scenario.items()
+            }
 
         # This was already checked as valid
         name = self._exog_names[0] if name is None else name
@@ -1992,11 +2012,12 @@ class PyMCStateSpace:
         _validate_filter_arg(filter_output)
         time_index = self._get_fit_time_index()
 
-        if start is None and verbose:
-            _log.warning(
-                "No start date provided. Using the last date in the data index. To silence this warning, "
-                "explicitly pass a start date or set verbose = False"
-            )
+        if start is None:
+            if verbose:
+                _log.warning(
+                    "No start date provided. Using the last date in the data index. To silence this warning, "
+                    "explicitly pass a start date or set verbose = False"
+                )
             start = time_index[-1]
 
         if self._needs_exog_data and not isinstance(scenario, dict):
@@ -2064,7 +2085,7 @@ class PyMCStateSpace:
                 sub_dict = {
                     forecast_model[data_name]: pt.as_tensor_variable(
                         scenario.get(data_name), name=data_name
-                    )
+                    ).astype(forecast_model[data_name].dtype)
                     for data_name in self.data_names
                 }
 
-- 
2.43.0


From 07afeb79b06222b560ff97367b242b4682123e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 08/40] fix: impulse responses exclude the state intercept and
 accept compile_kwargs

---
 pymc_extras/statespace/core/statespace.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 7c5fa06..ecb58a2 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -2252,15 +2252,16 @@ class PyMCStateSpace:
             else:
                 shock_trajectory = pt.as_tensor_variable(shock_trajectory)
 
-            def irf_step(shock, x, c, T, R):
-                next_x = c + T @ x + R @ shock
+            # The response to a shock is the difference to the path without it, so the state intercept is not included
+            def irf_step(shock, x, T, R):
+                next_x = T @ x + R @ shock
                 return next_x
 
             irf, updates = pytensor.scan(
                 irf_step,
                 sequences=[shock_trajectory],
                 outputs_info=[x0],
-                non_sequences=[c, T, R],
+                non_sequences=[T, R],
                 n_steps=n_steps,
                 strict=True,
                 mode=self._fit_mode,
@@ -2268,9 +2269,9 @@ class PyMCStateSpace:
 
             pm.Deterministic("irf", irf, dims=[TIME_DIM, ALL_STATE_DIM])
 
-            compile_kwargs = kwargs.get("compile_kwargs", {})
+            compile_kwargs = dict(kwargs.pop("compile_kwargs", {}))
             if "mode" not in compile_kwargs.keys():
-                compile_kwargs = {"mode": self._fit_mode}
+                compile_kwargs["mode"] = self._fit_mode
             else:
                 mode = compile_kwargs.get("mode")
                 if mode is not None and mode != self._fit_mode:
-- 
2.43.0


From e412d3e114439065760937b86a92e88674e929a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 09/40] fix: state space matrix container: index arrays,
 integer indices on initial matrices, symbolic and refused assignments, copies

---
 pymc_extras/statespace/core/representation.py | 59 ++++++++++++-------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index 450108d..39c1803 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -205,12 +205,7 @@ class PytensorRepresentation:
         scope = locals()
         for name, shape in self.shapes.items():
             if scope[name] is not None:
-                matrix = scope[name]
-                if isinstance(matrix, np.ndarray):
-                    matrix = self._numpy_to_pytensor(name, matrix)
-                else:
-                    matrix = self._check_provided_tensor(name, matrix)
-                setattr(self, name, matrix)
+                self[name] = scope[name]
 
             else:
                 matrix = pt.as_tensor_variable(
@@ -256,10 +251,13 @@ class PytensorRepresentation:
             return slice_
 
         # Case 3: There's no time dim on the matrix, and none requested. Slice away the dummy dim.
+        # A slice is used instead of an integer because an integer would be an advanced index if there are arrays in slice_
         if len(slice_) < n_dim:
             empty_slice = (slice(None, None, None),)
             n_omitted = n_dim - len(slice_) - 1
-            return (0,) + tuple(slice_) + empty_slice * n_omitted
+            return (slice(0, 1),) + tuple(slice_) + empty_slice * n_omitted
+
+        raise IndexError(f"Too many indices for {name}, which has {n_dim} dimensions")
 
     @staticmethod
     def _validate_key_and_get_type(key: KeyLike) -> type[str]:
@@ -298,9 +296,9 @@ class PytensorRepresentation:
                     )
 
                 # Time varying vector case, check only the static shapes
-                if X.ndim == 2 and X.shape[1:] != expected_shape:
+                if X.ndim == 2 and shape[1] is not None and shape[1:] != expected_shape:
                     raise ValueError(
-                        f"Last dimension of array provided for {name} has shape {X.shape[1]}, "
+                        f"Last dimension of array provided for {name} has shape {shape[1]}, "
                         f"expected {expected_shape}"
                     )
 
@@ -312,9 +310,11 @@ class PytensorRepresentation:
                     )
 
                 # Time varying matrix case, check only the static shapes
-                if X.ndim == 3 and shape[1:] != expected_shape:
+                if X.ndim == 3 and any(
+                    a is not None and a != b for a, b in zip(shape[1:], expected_shape)
+                ):
                     raise ValueError(
-                        f"Last two dimensions of array provided for {name} have shapes {X.shape[1:]}, "
+                        f"Last two dimensions of array provided for {name} have shapes {shape[1:]}, "
                         f"expected {expected_shape}"
                     )
 
@@ -332,11 +332,18 @@ class PytensorRepresentation:
         if name not in NEVER_TIME_VARYING:
             if X.ndim == 1 and name in VECTOR_VALUED:
                 X = pt.expand_dims(X, (0,))
-                X = pt.specify_shape(X, self.shapes[name])
 
-            elif X.ndim == 2:
+            elif X.ndim == 2 and name not in VECTOR_VALUED:
                 X = pt.expand_dims(X, (0,))
-                X = pt.specify_shape(X, self.shapes[name])
+
+        # Core dimensions whose size is not known statically are taken to have the size they should have
+        ndim_core = 1 if name in VECTOR_VALUED else 2
+        shape = X.type.shape
+        core_shape = shape[-ndim_core:]
+        if any(dim is None for dim in core_shape):
+            expected = self.shapes[name][-ndim_core:]
+            core_shape = [a if b is None else b for a, b in zip(expected, core_shape)]
+            X = pt.specify_shape(X, (*shape[:-ndim_core], *core_shape))
 
         return X
 
@@ -385,21 +392,29 @@ class PytensorRepresentation:
             self._validate_key(name)
 
             matrix = getattr(self, name)
+            # Comparing arrays to slices would be ambiguous
+            all_colons = all(isinstance(x, slice) and x == slice(None, None, None) for x in slice_)
+
             # Case 2a: The user asked for the whole matrix, with time dummies. Return the whole thing
             # without slicing anything away
-            if slice_ == (slice(None, None, None),) * matrix.ndim:
+            if all_colons and len(slice_) == matrix.ndim:
                 return matrix
 
             # Case 2b: The user asked for the whole matrix except time dummies. Ignore the slice and act like we're in
             # case 1.
-            elif slice_ == (slice(None, None, None),) * (matrix.ndim - 1):
+            elif (
+                all_colons
+                and len(slice_) == matrix.ndim - 1
+                and name not in NEVER_TIME_VARYING
+            ):
                 X = matrix[(0,) + (slice(None),) * (matrix.ndim - 1)]
                 X = pt.specify_shape(X, self.shapes[name][1:])
                 X.name = name
                 return X
 
             # Case 3b: User asked for an arbitrary sub-matrix. Give it back -- nothing else to be done
-            slice_ = self._add_time_dim_to_slice(name, slice_, matrix.ndim)
+            if name not in NEVER_TIME_VARYING and len(slice_) < matrix.ndim:
+                return matrix[0][slice_]
             return matrix[slice_]
 
         # Case 3: There is only one slice index, but it's not a string
@@ -415,14 +430,16 @@ class PytensorRepresentation:
             if isinstance(value, np.ndarray):
                 value = self._numpy_to_pytensor(key, value)
             else:
-                value.name = key
+                value = self._check_provided_tensor(key, value)
 
-            setattr(self, key, value)
             self._update_shape(key, value)
+            value.name = key
+            setattr(self, key, value)
 
         # Case 2: key is a string plus a slice: we are setting a subset of a matrix
         elif _type is tuple:
             name, *slice_ = key
+            slice_ = tuple(slice_)
             self._validate_key(name)
 
             matrix = getattr(self, name)
@@ -435,4 +452,6 @@ class PytensorRepresentation:
             setattr(self, name, matrix)
 
     def copy(self):
-        return copy.copy(self)
+        other = copy.copy(self)
+        other.shapes = self.shapes.copy()
+        return other
-- 
2.43.0


From 3b2ea904e26410b4cb00f5605f0f302d04a4599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 10/40] fix: data registration keeps the caller's Series
 untouched and always checks for the missing-value fill

---
 pymc_extras/statespace/utils/data_tools.py | 26 ++++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pymc_extras/statespace/utils/data_tools.py b/pymc_extras/statespace/utils/data_tools.py
index 5119726..cf2dc9b 100644
--- a/pymc_extras/statespace/utils/data_tools.py
+++ b/pymc_extras/statespace/utils/data_tools.py
@@ -80,9 +80,7 @@ def preprocess_numpy_data(data, n_obs, obs_coords=None):
 
 def preprocess_pandas_data(data, n_obs, obs_coords=None, check_column_names=False):
     if isinstance(data, pd.Series):
-        if data.name is None:
-            data.name = "data"
-        data = data.to_frame()
+        data = data.to_frame(name="data" if data.name is None else data.name)
 
     col_names = data.columns
     _validate_data_shape(data.shape, n_obs, obs_coords, check_column_names, col_names)
@@ -93,11 +91,13 @@ def preprocess_pandas_data(data, n_obs, obs_coords=None, check_column_names=Fals
         return preprocess_numpy_data(data.values, n_obs, obs_coords)
 
     elif isinstance(data.index, pd.DatetimeIndex):
-        if data.index.freq is None:
+        index = data.index
+        if index.freq is None:
             warnings.warn(NO_FREQ_INFO_WARNING)
-            data.index.freq = data.index.inferred_freq
+            # The index belongs to the caller, so the inferred frequency is set on a copy
+            index = index.copy(deep=True)
+            index.freq = index.inferred_freq
 
-        index = data.index
         return data.values, index
 
     else:
@@ -143,13 +143,15 @@ def mask_missing_values_in_data(values, missing_fill_value=None):
     filled_values = masked_values.filled(missing_fill_value)
     nan_mask = masked_values.mask
 
-    if np.any(nan_mask):
-        if np.any(values == missing_fill_value):
-            raise ValueError(
-                f"Provided data contains the value {missing_fill_value}, which is used as a missing value marker. "
-                f"Please manually change the missing_fill_value to avoid this collision."
-            )
+    # This has to be checked even if there are no missing values, because the filter treats all values equal to the
+    # marker as missing
+    if np.any(values == missing_fill_value):
+        raise ValueError(
+            f"Provided data contains the value {missing_fill_value}, which is used as a missing value marker. "
+            f"Please manually change the missing_fill_value to avoid this collision."
+        )
 
+    if np.any(nan_mask):
         impute_message = (
             "Provided data contains missing values and"
             " will be automatically imputed as hidden states"
-- 
2.43.0


From 940b4bf91342a17b4712f3dd65ede51afb835f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 11/40] fix: marginalization through reductions of the first
 dimension, broadcasted length-one dimensions, collapsed and permuted
 dimensions, and static shapes

---
 pymc_extras/model/marginal/distributions.py  | 24 +++++++------
 pymc_extras/model/marginal/graph_analysis.py | 38 +++++++++++++++++++-
 pymc_extras/model/marginal/marginal_model.py | 21 ++++++++++-
 3 files changed, 71 insertions(+), 12 deletions(-)

diff --git a/pymc_extras/model/marginal/distributions.py b/pymc_extras/model/marginal/distributions.py
index 33f4bc7..97fbf2e 100644
--- a/pymc_extras/model/marginal/distributions.py
+++ b/pymc_extras/model/marginal/distributions.py
@@ -29,16 +29,16 @@ class MarginalRV(OpFromGraph, MeasurableOp):
     @property
     def support_axes(self) -> tuple[tuple[int]]:
         """Dimensions of dependent RVs that belong to the core (non-batched) marginalized variable."""
-        marginalized_ndim_supp = self.inner_outputs[0].owner.op.ndim_supp
+        marginalized_rv = self.inner_outputs[0]
+        # Dimensions of the marginalized variable from this one on are core dimensions
+        marginalized_batch_ndim = marginalized_rv.type.ndim - marginalized_rv.owner.op.ndim_supp
         support_axes_vars = []
         for dims_connection in self.dims_connections:
-            ndim = len(dims_connection)
-            marginalized_supp_axes = ndim - marginalized_ndim_supp
             support_axes_vars.append(
                 tuple(
                     -i
                     for i, dim in enumerate(reversed(dims_connection), start=1)
-                    if (dim is None or dim > marginalized_supp_axes)
+                    if (dim is None or dim >= marginalized_batch_ndim)
                 )
             )
         return tuple(support_axes_vars)
@@ -103,16 +103,20 @@ def reduce_batch_dependent_logps(
             dep_supp_axes = get_support_axes(dependent_op)[0]
 
             # Dependent RV support axes are already collapsed in the logp, so we ignore them
-            supp_axes = [
-                -i
-                for i, dim in enumerate(reversed(dependent_dims_connection), start=1)
-                if (dim is None and -i not in dep_supp_axes)
+            ndim = len(dependent_dims_connection)
+            logp_dims_connection = [
+                dim
+                for i, dim in enumerate(dependent_dims_connection)
+                if (i - ndim) not in dep_supp_axes
             ]
+            supp_axes = [i for i, dim in enumerate(logp_dims_connection) if dim is None]
             dependent_logp = dependent_logp.sum(supp_axes)
 
             # Finally, we need to align the dependent logp batch dimensions with the marginalized logp
-            dims_alignment = [dim for dim in dependent_dims_connection if dim is not None]
-            dependent_logp = dependent_logp.transpose(*dims_alignment)
+            dims_alignment = [dim for dim in logp_dims_connection if dim is not None]
+            dependent_logp = dependent_logp.transpose(
+                *sorted(range(len(dims_alignment)), key=dims_alignment.__getitem__)
+            )
 
         reduced_logps.append(dependent_logp)
 
diff --git a/pymc_extras/model/marginal/graph_analysis.py b/pymc_extras/model/marginal/graph_analysis.py
index d4ad98a..72d92ba 100644
--- a/pymc_extras/model/marginal/graph_analysis.py
+++ b/pymc_extras/model/marginal/graph_analysis.py
@@ -130,6 +130,28 @@ def _broadcast_dims(
     return tuple(output_dims)
 
 
+def _check_known_dims_not_broadcasted(
+    inputs: Sequence[Variable], inputs_dims: Sequence[DIMS], output: Variable, batch_ndim: int
+) -> None:
+    """Check that no known dimension of length 1 is broadcasted to a longer dimension.
+
+    A single entry would then be connected to multiple entries along the same axis.
+    """
+    output_shape = output.type.shape[:batch_ndim]
+    for inp, input_dims in zip(inputs, inputs_dims):
+        if not isinstance(inp.type, TensorType):
+            continue
+        # Dims may have been padded on the left
+        offset = len(input_dims) - inp.type.ndim
+        for axis, dim in enumerate(input_dims[:batch_ndim]):
+            if (
+                dim is not None
+                and inp.type.shape[axis - offset] == 1
+                and output_shape[axis] != 1
+            ):
+                raise ValueError("Known dimension of length 1 is broadcasted")
+
+
 def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars) -> VAR_DIMS:
     for node in io_toposort(input_vars, output_vars):
         inputs_dims = [
@@ -206,6 +228,9 @@ def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars)
             )
             for out in node.outputs:
                 if isinstance(out.type, TensorType):
+                    _check_known_dims_not_broadcasted(
+                        node.inputs, inputs_dims, out, op_batch_ndim
+                    )
                     core_ndim = out.type.ndim - op_batch_ndim
                     output_dims = batch_dims + (None,) * core_ndim
                     var_dims[out] = output_dims
@@ -219,7 +244,7 @@ def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars)
             elif axes is None:
                 axes = tuple(range(node.inputs[0].type.ndim))
 
-            if any(input_dims[axis] for axis in axes):
+            if any(input_dims[axis] is not None for axis in axes):
                 raise ValueError(
                     f"Use of known dimensions as reduced dimensions of op {node.op} not supported."
                 )
@@ -305,6 +330,17 @@ def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars)
 
                 # Advanced indexing variables broadcast together, so we apply same rules as in Elemwise
                 adv_dims = _broadcast_dims(keys_dims)
+                adv_slice = slice(adv_group_axis, adv_group_axis + adv_group_ndim)
+                for key, key_dims in zip(keys, keys_dims):
+                    if any(
+                        dim is not None and key_length == 1 and out_length != 1
+                        for dim, key_length, out_length in zip(
+                            reversed(key_dims),
+                            reversed(getattr(key.type, "shape", ())),
+                            reversed(node.outputs[0].type.shape[adv_slice]),
+                        )
+                    ):
+                        raise ValueError("Known dimension of length 1 is broadcasted")
 
                 start_non_adv_dims = (None,) * adv_group_axis
                 end_non_adv_dims = (None,) * (
diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 41ce699..a032920 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -16,7 +16,7 @@ from pymc.model import Model
 from pymc.pytensorf import compile_pymc, constant_fold
 from pymc.util import RandomState, _get_seeds_per_chain, treedict
 from pytensor.compile import SharedVariable
-from pytensor.graph import FunctionGraph, clone_replace, graph_inputs
+from pytensor.graph import FunctionGraph, ancestors, clone_replace, graph_inputs
 from pytensor.graph.replace import vectorize_graph
 from pytensor.tensor import TensorVariable
 from pytensor.tensor.special import log_softmax
@@ -34,6 +34,7 @@ from pymc_extras.model.marginal.graph_analysis import (
     find_conditional_dependent_rvs,
     find_conditional_input_rvs,
     is_conditional_dependent,
+    static_shape_ancestors,
     subgraph_batch_dim_connection,
 )
 
@@ -143,6 +144,15 @@ class MarginalModel(Model):
     def _marginalize(self, user_warnings=False):
         fg = FunctionGraph(outputs=self.basic_RVs + self.marginalized_rvs, clone=False)
 
+        # Static shapes are constants. Leaving the Shape nodes in place would make the marginalized
+        # Op depend on the shape of its own outputs
+        fg.replace_all(
+            [
+                (var, pt.constant(np.array(var.owner.inputs[0].type.shape, dtype="int64")))
+                for var in static_shape_ancestors(fg.outputs)
+            ]
+        )
+
         toposort = fg.toposort()
         rvs_left_to_marginalize = self.marginalized_rvs
         for rv_to_marginalize in sorted(
@@ -577,6 +587,15 @@ def replace_finite_discrete_marginal_subgraph(fgraph, rv_to_marginalize, all_rvs
     input_rvs = list(set((*marginalized_rv_input_rvs, *other_direct_rv_ancestors)))
     output_rvs = [rv_to_marginalize, *dependent_rvs]
 
+    # A variable that depends on one dependent RV and is itself needed by another would have to be
+    # both an output and an input of the marginalized RV
+    input_rvs_ancestors = set(ancestors(input_rvs))
+    if any(output_rv in input_rvs_ancestors for output_rv in output_rvs):
+        raise NotImplementedError(
+            f"Cannot marginalize {rv_to_marginalize}: some of its dependent RVs are connected to each other "
+            "through variables that do not depend on it directly."
+        )
+
     # We are strict about shared variables in SymbolicRandomVariables
     inputs = input_rvs + collect_shared_vars(output_rvs, blockers=input_rvs)
 
-- 
2.43.0


From 4db8b08c80e8c93bdd6a85153384eba3699be8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 12/40] fix: initial point, batched initial distributions and
 batched transition probabilities of discrete Markov chains

---
 pymc_extras/distributions/timeseries.py | 43 +++++++++++++++++++------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/pymc_extras/distributions/timeseries.py b/pymc_extras/distributions/timeseries.py
index bb4072f..b7b2a45 100644
--- a/pymc_extras/distributions/timeseries.py
+++ b/pymc_extras/distributions/timeseries.py
@@ -56,6 +56,28 @@ def _make_outputs_info(n_lags: int, init_dist: Distribution) -> list[Distributio
         return [init_dist[0]]
 
 
+def _select_transition_probs(P, states, n_lags: int, event_ndim: int = 0):
+    """Index the core dimensions of P with the lagged states, aligning batch dimensions on the right.
+
+    Parameters
+    ----------
+    P: tensor
+        Transition probabilities, with n_lags + 1 core dimensions
+    states: sequence of tensor
+        One index for each of the leading core dimensions of P (and possibly for the last one)
+    n_lags: int
+        Number of lags the Markov Chain considers when transitioning to the next state
+    event_ndim: int
+        Number of dimensions of the states on the right of their batch dimensions
+    """
+    batch_ndim = P.type.ndim - (n_lags + 1)
+    batch_idxs = [
+        pt.shape_padright(pt.arange(P.shape[i]), batch_ndim - 1 - i + event_ndim)
+        for i in range(batch_ndim)
+    ]
+    return P[(*batch_idxs, *states)]
+
+
 class DiscreteMarkovChainRV(SymbolicRandomVariable):
     n_lags: int
     default_output = 1
@@ -195,7 +217,7 @@ class DiscreteMarkovChain(Distribution):
 
         def transition(*args):
             *states, transition_probs, old_rng = args
-            p = transition_probs[tuple(states)]
+            p = _select_transition_probs(transition_probs, states, n_lags)
             next_rng, next_state = pm.Categorical.dist(p=p, rng=old_rng).owner.outputs
             return next_state, {old_rng: next_rng}
 
@@ -237,19 +259,19 @@ def discrete_mc_moment(op, rv, P, steps, init_dist, state_rng):
     n_lags = op.n_lags
 
     def greedy_transition(*args):
-        *states, transition_probs, old_rng = args
-        p = transition_probs[tuple(states)]
-        return pt.argmax(p)
+        *states, transition_probs = args
+        p = _select_transition_probs(transition_probs, states, n_lags)
+        return pt.argmax(p, axis=-1).astype(init_dist_moment.dtype)
 
     chain_moment, moment_updates = pytensor.scan(
         greedy_transition,
-        non_sequences=[P, state_rng],
-        outputs_info=_make_outputs_info(n_lags, init_dist),
+        non_sequences=[P],
+        outputs_info=_make_outputs_info(n_lags, init_dist_moment),
         n_steps=steps,
         strict=True,
     )
-    chain_moment = pt.concatenate([init_dist_moment, chain_moment])
-    return chain_moment
+    chain_moment = pt.concatenate([init_dist_moment, chain_moment], axis=0)
+    return pt.moveaxis(chain_moment, 0, -1)
 
 
 @_logprob.register(DiscreteMarkovChainRV)
@@ -259,8 +281,9 @@ def discrete_mc_logp(op, values, P, steps, init_dist, state_rng, **kwargs):
 
     indexes = [value[..., i : -(n_lags - i) if n_lags != i else None] for i in range(n_lags + 1)]
 
-    mc_logprob = logp(init_dist, value[..., :n_lags]).sum(axis=-1)
-    mc_logprob += pt.log(P[tuple(indexes)]).sum(axis=-1)
+    # The lags are the first dimension of init_dist and the last one of the chain
+    mc_logprob = logp(init_dist, pt.moveaxis(value[..., :n_lags], -1, 0)).sum(axis=0)
+    mc_logprob += pt.log(_select_transition_probs(P, indexes, n_lags, event_ndim=1)).sum(axis=-1)
 
     # We cannot leave any RV in the logp graph, even if just for an assert
     [init_dist_leading_dim] = constant_fold(
-- 
2.43.0


From def7ade421217858ba7f50de273f7edc1a38ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 13/40] fix: recover_marginals with variables still
 marginalized, unknown names, and no free variables

---
 pymc_extras/model/marginal/marginal_model.py | 160 ++++++++++++++-----
 1 file changed, 121 insertions(+), 39 deletions(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index a032920..bdb463d 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -1,3 +1,4 @@
+import itertools
 import warnings
 
 from collections.abc import Sequence
@@ -15,9 +16,10 @@ from pymc.logprob.transforms import IntervalTransform
 from pymc.model import Model
 from pymc.pytensorf import compile_pymc, constant_fold
 from pymc.util import RandomState, _get_seeds_per_chain, treedict
-from pytensor.compile import SharedVariable
-from pytensor.graph import FunctionGraph, ancestors, clone_replace, graph_inputs
-from pytensor.graph.replace import vectorize_graph
+from pytensor import map as scan_map
+from pytensor.compile import Mode, SharedVariable
+from pytensor.graph import Constant, FunctionGraph, ancestors, clone_replace, graph_inputs
+from pytensor.graph.replace import graph_replace, vectorize_graph
 from pytensor.tensor import TensorVariable
 from pytensor.tensor.special import log_softmax
 
@@ -27,6 +29,7 @@ from pymc_extras.distributions import DiscreteMarkovChain
 from pymc_extras.model.marginal.distributions import (
     MarginalDiscreteMarkovChainRV,
     MarginalFiniteDiscreteRV,
+    MarginalRV,
     get_domain_of_finite_discrete_rv,
     reduce_batch_dependent_logps,
 )
@@ -393,7 +396,8 @@ class MarginalModel(Model):
 
         var_names = [var if isinstance(var, str) else var.name for var in var_names]
         vars_to_recover = [v for v in self.marginalized_rvs if v.name in var_names]
-        missing_names = [v.name for v in vars_to_recover if v not in self.marginalized_rvs]
+        marginalized_names = [v.name for v in self.marginalized_rvs]
+        missing_names = [name for name in var_names if name not in marginalized_names]
         if missing_names:
             raise ValueError(f"Unrecognized var_names: {missing_names}")
 
@@ -410,7 +414,12 @@ class MarginalModel(Model):
         ]
 
         sample_dims = ("chain", "draw")
-        posterior_pts, stacked_dims = dataset_to_point_list(posterior_values, sample_dims)
+        if posterior_values.data_vars:
+            posterior_pts, stacked_dims = dataset_to_point_list(posterior_values, sample_dims)
+        else:
+            # All the remaining variables are observed
+            stacked_dims = {dim: posterior[dim] for dim in sample_dims}
+            posterior_pts = [{} for _ in range(np.prod([len(c) for c in stacked_dims.values()]))]
 
         # Handle Transforms
         transform_fn, transform_names = self._to_transformed()
@@ -433,46 +442,80 @@ class MarginalModel(Model):
             m = self.clone()
             marginalized_rv = m.vars_to_clone[marginalized_rv]
             m.unmarginalize([marginalized_rv])
-            dependent_rvs = find_conditional_dependent_rvs(marginalized_rv, m.basic_RVs)
-            logps = m.logp(vars=[marginalized_rv, *dependent_rvs], sum=False)
-
-            # Handle batch dims for marginalized value and its dependent RVs
-            dependent_rvs_dim_connections = subgraph_batch_dim_connection(
-                marginalized_rv, dependent_rvs
-            )
-            marginalized_logp, *dependent_logps = logps
-            joint_logp = marginalized_logp + reduce_batch_dependent_logps(
-                dependent_rvs_dim_connections,
-                [dependent_var.owner.op for dependent_var in dependent_rvs],
-                dependent_logps,
-            )
-
             marginalized_value = m.rvs_to_values[marginalized_rv]
             other_values = [v for v in m.value_vars if v is not marginalized_value]
-
-            rv_shape = constant_fold(tuple(marginalized_rv.shape), raise_not_constant=False)
             rv_domain = get_domain_of_finite_discrete_rv(marginalized_rv)
-            rv_domain_tensor = pt.moveaxis(
-                pt.full(
-                    (*rv_shape, len(rv_domain)),
-                    rv_domain,
-                    dtype=marginalized_rv.dtype,
-                ),
-                -1,
-                0,
-            )
+            rv_shape = constant_fold(tuple(marginalized_rv.shape), raise_not_constant=False)
 
-            batched_joint_logp = vectorize_graph(
-                joint_logp,
-                replace={marginalized_value: rv_domain_tensor},
-            )
-            batched_joint_logp = pt.moveaxis(batched_joint_logp, 0, -1)
+            dependent_rvs = find_conditional_dependent_rvs(marginalized_rv, m.basic_RVs)
+            if _elemwise_joint_logp(m, marginalized_rv, dependent_rvs):
+                logps = m.logp(vars=[marginalized_rv, *dependent_rvs], sum=False)
+
+                # Handle batch dims for marginalized value and its dependent RVs
+                dependent_rvs_dim_connections = subgraph_batch_dim_connection(
+                    marginalized_rv, dependent_rvs
+                )
+                marginalized_logp, *dependent_logps = logps
+                joint_logp = marginalized_logp + reduce_batch_dependent_logps(
+                    dependent_rvs_dim_connections,
+                    [dependent_var.owner.op for dependent_var in dependent_rvs],
+                    dependent_logps,
+                )
+
+                rv_domain_tensor = pt.moveaxis(
+                    pt.full(
+                        (*rv_shape, len(rv_domain)),
+                        rv_domain,
+                        dtype=marginalized_rv.dtype,
+                    ),
+                    -1,
+                    0,
+                )
+                batched_joint_logp = _vectorize_logp(
+                    joint_logp, marginalized_value, rv_domain_tensor
+                )
+                batched_joint_logp = pt.moveaxis(batched_joint_logp, 0, -1)
+
+                joint_logp_norm = log_softmax(batched_joint_logp, axis=-1)
+                if return_samples:
+                    rv_draws = pymc.Categorical.dist(logit_p=batched_joint_logp)
+                    if isinstance(marginalized_rv.owner.op, DiscreteUniform):
+                        rv_draws += rv_domain[0]
+            else:
+                # The elements of the variable are connected to each other through variables that are
+                # still marginalized, so we have to enumerate their combinations
+                rv_size = int(np.prod(rv_shape))
+                if len(rv_domain) ** rv_size > MAX_JOINT_COMBINATIONS:
+                    raise NotImplementedError(
+                        f"Cannot recover {marginalized_rv}: its elements are not independent given the "
+                        "variables that are still marginalized, and they have too many combinations."
+                    )
+                combinations = np.array(
+                    list(itertools.product(rv_domain, repeat=rv_size)), dtype=marginalized_rv.dtype
+                ).reshape((-1, *rv_shape))
+                combinations_logp = log_softmax(
+                    _vectorize_logp(m.logp(), marginalized_value, pt.constant(combinations))
+                )
+                joint_logp_norm = pt.stack(
+                    [
+                        pt.logsumexp(
+                            pt.switch(
+                                combinations == value,
+                                pt.shape_padright(combinations_logp, len(rv_shape)),
+                                -np.inf,
+                            ),
+                            axis=0,
+                        )
+                        for value in rv_domain
+                    ],
+                    axis=-1,
+                )
+                if return_samples:
+                    rv_draws = pt.constant(combinations)[
+                        pymc.Categorical.dist(logit_p=combinations_logp)
+                    ]
 
-            joint_logp_norm = log_softmax(batched_joint_logp, axis=-1)
             if return_samples:
-                rv_draws = pymc.Categorical.dist(logit_p=batched_joint_logp)
-                if isinstance(marginalized_rv.owner.op, DiscreteUniform):
-                    rv_draws += rv_domain[0]
                 outputs = [joint_logp_norm, rv_draws]
             else:
                 outputs = joint_logp_norm
@@ -552,6 +595,45 @@ def marginalize(model: Model, rvs_to_marginalize: ModelRVs) -> MarginalModel:
     return marginal_model
 
 
+# Limit on the number of combinations enumerated to recover a variable with dependent elements
+MAX_JOINT_COMBINATIONS = 2**14
+
+
+def _elemwise_joint_logp(model, rv, dependent_rvs) -> bool:
+    """Whether the logp terms of rv and its dependent_rvs are elementwise on rv.
+
+    This is not the case if variables that are still marginalized in the model
+    connect its elements, or have their joint logp terms assigned to another variable.
+    """
+    marginal_model = model.clone()._marginalize()
+    names = {var.name for var in (rv, *dependent_rvs)}
+    for name in names:
+        op = marginal_model[name].owner.op
+        if isinstance(op, MarginalRV):
+            outputs = marginal_model[name].owner.outputs[1:]
+            if outputs[0].name not in names or any(op.support_axes):
+                return False
+    return True
+
+
+def _vectorize_logp(joint_logp, value, batched_value):
+    try:
+        return vectorize_graph(joint_logp, replace={value: batched_value})
+    except Exception:
+        # Fallback to Scan
+        batched_logp, _ = scan_map(
+            fn=lambda v, *_: graph_replace(joint_logp, replace={value: v}),
+            sequences=batched_value,
+            non_sequences=[
+                var
+                for var in graph_inputs([joint_logp])
+                if var is not value and not isinstance(var, Constant)
+            ],
+            mode=Mode().including("local_remove_check_parameter"),
+        )
+        return batched_logp
+
+
 def collect_shared_vars(outputs, blockers):
     return [
         inp for inp in graph_inputs(outputs, blockers=blockers) if isinstance(inp, SharedVariable)
-- 
2.43.0


From a8ad43fe0789fcffb84ee3785d18d44d241507fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 14/40] fix: marginal model copies do not share dims with the
 original; unmarginalize and marginalize accept names

---
 pymc_extras/model/marginal/marginal_model.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index bdb463d..d9209ae 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -126,8 +126,6 @@ class MarginalModel(Model):
         self.named_vars.pop(old_rv.name)
         new_rv.name = old_rv.name
         self.named_vars[new_rv.name] = new_rv
-        if old_rv in self.named_vars_to_dims:
-            self._RV_dims[new_rv] = self._RV_dims.pop(old_rv)
 
         value = self.rvs_to_values.pop(old_rv)
         self.rvs_to_values[new_rv] = value
@@ -231,7 +229,8 @@ class MarginalModel(Model):
 
     @staticmethod
     def from_model(model: Union[Model, "MarginalModel"]) -> "MarginalModel":
-        new_model = MarginalModel(coords=model.coords)
+        new_model = MarginalModel()
+        new_model.add_coords(model.coords, lengths=model.dim_lengths)
         if isinstance(model, MarginalModel):
             marginalized_rvs = model.marginalized_rvs
             marginalized_named_vars_to_dims = model._marginalized_named_vars_to_dims
@@ -249,7 +248,7 @@ class MarginalModel(Model):
         new_model.named_vars = treedict(
             {name: vars_to_clone[var] for name, var in model.named_vars.items()}
         )
-        new_model.named_vars_to_dims = model.named_vars_to_dims
+        new_model.named_vars_to_dims = dict(model.named_vars_to_dims)
         new_model.values_to_rvs = {vv: vars_to_clone[rv] for vv, rv in model.values_to_rvs.items()}
         new_model.rvs_to_values = {vars_to_clone[rv]: vv for rv, vv in model.rvs_to_values.items()}
         new_model.rvs_to_transforms = {
@@ -264,7 +263,7 @@ class MarginalModel(Model):
         new_model.deterministics = [vars_to_clone[det] for det in model.deterministics]
 
         new_model.marginalized_rvs = [vars_to_clone[rv] for rv in marginalized_rvs]
-        new_model._marginalized_named_vars_to_dims = marginalized_named_vars_to_dims
+        new_model._marginalized_named_vars_to_dims = dict(marginalized_named_vars_to_dims)
         return new_model
 
     def clone(self):
@@ -274,7 +273,7 @@ class MarginalModel(Model):
         self,
         rvs_to_marginalize: ModelRVs,
     ):
-        if not isinstance(rvs_to_marginalize, Sequence):
+        if isinstance(rvs_to_marginalize, str) or not isinstance(rvs_to_marginalize, Sequence):
             rvs_to_marginalize = (rvs_to_marginalize,)
         rvs_to_marginalize = [
             self[var] if isinstance(var, str) else var for var in rvs_to_marginalize
@@ -332,7 +331,7 @@ class MarginalModel(Model):
     def unmarginalize(self, rvs_to_unmarginalize: Sequence[TensorVariable | str]):
         for rv in rvs_to_unmarginalize:
             if isinstance(rv, str):
-                rv = self[rv]
+                [rv] = [var for var in self.marginalized_rvs if var.name == rv]
             self.marginalized_rvs.remove(rv)
             if rv.name in self._marginalized_named_vars_to_dims:
                 dims = self._marginalized_named_vars_to_dims.pop(rv.name)
-- 
2.43.0


From 012e3f733dca4e13735eaa22ae8c300db7732c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 15/40] fix: length-one batch dimensions, initial distribution
 batch shape and proportional proposal of discrete Markov chains

---
 pymc_extras/distributions/timeseries.py | 27 +++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/distributions/timeseries.py b/pymc_extras/distributions/timeseries.py
index b7b2a45..bb57c37 100644
--- a/pymc_extras/distributions/timeseries.py
+++ b/pymc_extras/distributions/timeseries.py
@@ -29,6 +29,7 @@ from pytensor import Mode
 from pytensor.graph.basic import Node
 from pytensor.tensor import TensorVariable
 from pytensor.tensor.random.op import RandomVariable
+from scipy.special import softmax
 
 
 def _make_outputs_info(n_lags: int, init_dist: Distribution) -> list[Distribution | dict]:
@@ -205,7 +206,7 @@ class DiscreteMarkovChain(Distribution):
             batch_size = size
         else:
             batch_size = pt.broadcast_shape(
-                P[tuple([...] + [0] * (n_lags + 1))], pt.atleast_1d(init_dist)[..., 0]
+                P[tuple([...] + [0] * (n_lags + 1))], pt.atleast_1d(init_dist)[0]
             )
 
         init_dist = change_dist_size(init_dist, (n_lags, *batch_size))
@@ -219,6 +220,8 @@ class DiscreteMarkovChain(Distribution):
             *states, transition_probs, old_rng = args
             p = _select_transition_probs(transition_probs, states, n_lags)
             next_rng, next_state = pm.Categorical.dist(p=p, rng=old_rng).owner.outputs
+            # Scan requires the static shape of the state to be the same in every step
+            next_state = pt.specify_shape(next_state, states[-1].type.shape)
             return next_state, {old_rng: next_rng}
 
         markov_chain, state_updates = pytensor.scan(
@@ -261,7 +264,8 @@ def discrete_mc_moment(op, rv, P, steps, init_dist, state_rng):
     def greedy_transition(*args):
         *states, transition_probs = args
         p = _select_transition_probs(transition_probs, states, n_lags)
-        return pt.argmax(p, axis=-1).astype(init_dist_moment.dtype)
+        next_state = pt.argmax(p, axis=-1).astype(init_dist_moment.dtype)
+        return pt.specify_shape(next_state, states[-1].type.shape)
 
     chain_moment, moment_updates = pytensor.scan(
         greedy_transition,
@@ -369,6 +373,25 @@ class DiscreteMarkovChainGibbsMetropolis(CategoricalGibbsMetropolis):
             compile_kwargs = {}
         ArrayStep.__init__(self, vars, [model.compile_logp(**compile_kwargs)], **kwargs)
 
+    def metropolis_proportional(self, q, logp, logp_curr, dim, k):
+        # Metropolized Gibbs step of Liu96: the acceptance ratio uses the conditional probabilities
+        # of the states, and not those of the proposal, which excludes the current state
+        given_cat = int(q.data[dim])
+        log_probs = np.empty(k)
+        for cat in range(k):
+            q.data[dim] = cat
+            log_probs[cat] = logp_curr if cat == given_cat else logp(q)
+        probs = softmax(log_probs)
+        proposal_probs = np.where(np.arange(k) == given_cat, 0.0, probs)
+        total = proposal_probs.sum()
+        if total > 0:
+            proposed_cat = self.rng.choice(k, p=proposal_probs / total)
+            if self.rng.uniform() * (1.0 - probs[proposed_cat]) < total:
+                q.data[dim] = proposed_cat
+                return log_probs[proposed_cat]
+        q.data[dim] = given_cat
+        return logp_curr
+
     @staticmethod
     def competence(var):
         if isinstance(var.owner.op, DiscreteMarkovChainRV):
-- 
2.43.0


From 4862b0f39c4dd949532d6d9db8d500b442c850b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 16/40] fix: draws of the beta negative binomial and scalar
 generalized Poisson, Skellam log-density at zero and extreme rates, shape of
 extreme value draws

---
 pymc_extras/distributions/continuous.py |  3 ++
 pymc_extras/distributions/discrete.py   | 45 ++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/pymc_extras/distributions/continuous.py b/pymc_extras/distributions/continuous.py
index 4194179..657fee7 100644
--- a/pymc_extras/distributions/continuous.py
+++ b/pymc_extras/distributions/continuous.py
@@ -52,6 +52,9 @@ class GenExtremeRV(RandomVariable):
         xi: np.ndarray,
         size: tuple[int, ...],
     ) -> np.ndarray:
+        if size is None:
+            # Scipy squeezes the leading length-one dimensions of the parameters
+            size = np.broadcast_shapes(np.shape(mu), np.shape(sigma), np.shape(xi))
         # Notice negative here, since remainder of GenExtreme is based on Coles parametrization
         return stats.genextreme.rvs(c=-xi, loc=mu, scale=sigma, random_state=rng, size=size)
 
diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index 0bfe8e7..d07bf3c 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -30,6 +30,28 @@ def log1mexp(x):
     )
 
 
+def log_iv(v, x):
+    """Logarithm of the modified Bessel function of the first kind, for integer orders and x > 0."""
+    v = pt.abs(v)
+    scaled_iv = pt.ive(v, x)
+    underflow = scaled_iv < 1e-280
+
+    # Only large orders underflow, so we can use the uniform asymptotic expansion (DLMF 10.41.3)
+    v_ = pt.switch(underflow, v, 1.0)
+    z = x / v_
+    root = pt.sqrt(1 + z**2)
+    t = 1 / root
+    u1 = (3 * t - 5 * t**3) / 24
+    u2 = (81 * t**2 - 462 * t**4 + 385 * t**6) / 1152
+    u3 = (30375 * t**3 - 369603 * t**5 + 765765 * t**7 - 425425 * t**9) / 414720
+    asymptotic = (
+        v_ * (root + pt.log(z / (1 + root)))
+        - 0.5 * pt.log(2 * np.pi * v_ * root)
+        + pt.log1p(u1 / v_ + u2 / v_**2 + u3 / v_**3)
+    )
+    return pt.switch(underflow, asymptotic, pt.log(pt.switch(underflow, 1.0, scaled_iv)) + x)
+
+
 class GeneralizedPoissonRV(RandomVariable):
     name = "generalized_poisson"
     signature = "(),()->()"
@@ -93,11 +115,11 @@ class GeneralizedPoissonRV(RandomVariable):
     @classmethod
     def _branching_rng_fn(cls, rng, theta, lam, dist_size, idxs_mask):
         lam_ = np.abs(lam)  # This algorithm is only valid for positive lam
-        y = rng.poisson(theta, size=dist_size)
+        y = np.asarray(rng.poisson(theta, size=dist_size))
         x = y.copy()
         higher_than_zero = y > 0
         while np.any(higher_than_zero[idxs_mask]):
-            y = rng.poisson(lam_ * y)
+            y = np.asarray(rng.poisson(lam_ * y))
             x[higher_than_zero] = x[higher_than_zero] + y[higher_than_zero]
             higher_than_zero = y > 0
         return x
@@ -153,7 +175,8 @@ class GeneralizedPoisson(pm.distributions.Discrete):
         return super().dist([mu, lam], **kwargs)
 
     def support_point(rv, size, mu, lam):
-        mean = pt.floor(mu / (1 - lam))
+        # The mean is infinite when lam = 1
+        mean = pt.floor(pt.switch(pt.lt(lam, 1), mu / (1 - lam), mu))
         if not rv_size_is_none(size):
             mean = pt.full(size, mean)
         return mean
@@ -251,7 +274,7 @@ class BetaNegativeBinomial:
             alpha, beta, r = pt.broadcast_arrays(alpha, beta, r)
 
         p = pm.Beta.dist(alpha, beta, size=size)
-        return pm.NegativeBinomial.dist(p, r, size=size)
+        return pm.NegativeBinomial.dist(p=p, n=r, size=size)
 
     @staticmethod
     def beta_negative_binomial_logp(value, alpha, beta, r):
@@ -363,12 +386,18 @@ class Skellam:
 
     @staticmethod
     def skellam_logp(value, mu1, mu2):
+        # The terms of the general case are not defined when one of the rates is zero
+        is_zero1, is_zero2 = pt.eq(mu1, 0), pt.eq(mu2, 0)
+        mu1_ = pt.switch(is_zero1, 1.0, mu1)
+        mu2_ = pt.switch(is_zero2, 1.0, mu2)
         res = (
-            -mu1
-            - mu2
-            + 0.5 * value * (pt.log(mu1) - pt.log(mu2))
-            + pt.log(pt.iv(value, 2 * pt.sqrt(mu1 * mu2)))
+            -mu1_
+            - mu2_
+            + 0.5 * value * (pt.log(mu1_) - pt.log(mu2_))
+            + log_iv(value, 2 * pt.sqrt(mu1_ * mu2_))
         )
+        res = pt.switch(is_zero1, pm.logp(pm.Poisson.dist(mu2), -value), res)
+        res = pt.switch(is_zero2, pm.logp(pm.Poisson.dist(mu1), value), res)
         return check_parameters(
             res,
             mu1 >= 0,
-- 
2.43.0


From 68bad4b2501b6d57916f5d699b539e05624d4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 17/40] fix: R2D2M2CP accepts r2 given as a list

---
 pymc_extras/distributions/multivariate/r2d2m2cp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymc_extras/distributions/multivariate/r2d2m2cp.py b/pymc_extras/distributions/multivariate/r2d2m2cp.py
index 71bd5bb..67ebb1b 100644
--- a/pymc_extras/distributions/multivariate/r2d2m2cp.py
+++ b/pymc_extras/distributions/multivariate/r2d2m2cp.py
@@ -418,6 +418,7 @@ def R2D2M2CP(
     *broadcast_dims, dim = dims
     input_sigma = pt.as_tensor(input_sigma)
     output_sigma = pt.as_tensor(output_sigma)
+    r2 = pt.as_tensor(r2)
     with pm.Model(name):
         if r2_std is not None:
             r2 = pm.Beta("r2", mu=r2, sigma=r2_std, dims=broadcast_dims)
-- 
2.43.0


From 4ddf707ad62d1d102c7335f19a3fef0aeeb8156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 18/40] fix: histograms count negative, rare, extreme and
 chunked data exactly once, and empty bins do not contribute to the potential

---
 pymc_extras/distributions/histogram_utils.py | 29 ++++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pymc_extras/distributions/histogram_utils.py b/pymc_extras/distributions/histogram_utils.py
index 70b5c43..683ff88 100644
--- a/pymc_extras/distributions/histogram_utils.py
+++ b/pymc_extras/distributions/histogram_utils.py
@@ -15,6 +15,7 @@
 
 import numpy as np
 import pymc as pm
+import pytensor.tensor as pt
 
 from numpy.typing import ArrayLike
 
@@ -37,14 +38,19 @@ def quantile_histogram(
         data = data.to_dask_array(lengths=True)
     if zero_inflation:
         zeros = (data == 0).sum(0)
-        mdata = np.ma.masked_where(data == 0, data)
-        qdata = data[data > 0]
+        # Zeros have their own bin. Nans are not counted in any other
+        mdata = np.where(data == 0, np.nan, data)
+        qdata = data[data != 0]
     else:
         mdata = data
         qdata = data.flatten()
     quantiles = np.percentile(qdata, np.linspace(0, 100, n_quantiles))
+    lowest, highest = qdata.min(), qdata.max()
     if dask:
-        (quantiles,) = dask.compute(quantiles)
+        quantiles, lowest, highest = dask.compute(quantiles, lowest, highest)
+    # Dask approximates percentiles of chunked arrays, but the bins always have to cover all the data
+    quantiles = np.clip(quantiles, lowest, highest)
+    quantiles[[0, -1]] = lowest, highest
     count, _ = xhistogram.core.histogram(mdata, bins=[quantiles], axis=0)
     count = count.transpose(count.ndim - 1, *range(count.ndim - 1))
     lower = quantiles[:-1]
@@ -80,14 +86,16 @@ def discrete_histogram(data: ArrayLike, min_count=None) -> dict[str, ArrayLike]:
     if dask and isinstance(data, dask.dataframe.Series | dask.dataframe.DataFrame):
         data = data.to_dask_array(lengths=True)
     mid, count_uniq = np.unique(data, return_counts=True)
-    if min_count is not None:
-        mid = mid[count_uniq >= min_count]
-        count_uniq = count_uniq[count_uniq >= min_count]
-    bins = np.concatenate([mid, [mid.max() + 1]])
     if dask:
-        mid, bins = dask.compute(mid, bins)
+        mid, count_uniq = dask.compute(mid, count_uniq)
+    # The last bin contains both of its edges
+    bins = np.concatenate([mid, mid[-1:]])
     count, _ = xhistogram.core.histogram(data, bins=[bins], axis=0)
     count = count.transpose(count.ndim - 1, *range(count.ndim - 1))
+    if min_count is not None:
+        # Rare values are only dropped now, so that they are not counted in the bins of other values
+        mid = mid[count_uniq >= min_count]
+        count = count[count_uniq >= min_count]
     mid = mid.reshape(mid.shape + (1,) * (count.ndim - 1))
     return dict(mid=mid, count=count)
 
@@ -160,4 +168,7 @@ def histogram_approximation(name, dist, *, observed, **h_kwargs):
         histogram = quantile_histogram(observed, **h_kwargs)
     if dask is not None:
         (histogram,) = dask.compute(histogram)
-    return pm.Potential(name, pm.logp(dist, histogram["mid"]) * histogram["count"])
+    # Empty bins do not contribute, even if their representative is impossible (0 * -inf is not defined)
+    count = histogram["count"]
+    logp = pm.logp(dist, histogram["mid"])
+    return pm.Potential(name, pt.where(count > 0, logp * count, 0.0))
-- 
2.43.0


From d33c6276e629d2ac35d5d057598f3277096fa6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 19/40] fix: TimeSeasonality works with pop_state=False

---
 pymc_extras/statespace/models/structural.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index bc61eab..aecc515 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1177,13 +1177,14 @@ class TimeSeasonality(Component):
             state_names = state_names.copy()
         self.innovations = innovations
         self.pop_state = pop_state
+        k_states = season_length
 
         if self.pop_state:
             # In traditional models, the first state isn't identified, so we can help out the user by automatically
             # discarding it.
             # TODO: Can this be stashed and reconstructed automatically somehow?
             state_names.pop(0)
-            k_states = season_length - 1
+            k_states -= 1
 
         super().__init__(
             name=name,
@@ -1218,8 +1219,15 @@ class TimeSeasonality(Component):
             self.shock_names = [f"{self.name}"]
 
     def make_symbolic_graph(self) -> None:
-        T = np.eye(self.k_states, k=-1)
-        T[0, :] = -1
+        if self.pop_state:
+            # The current effect is minus the sum of the previous season_length - 1 effects.
+            T = np.eye(self.k_states, k=-1)
+            T[0, :] = -1
+        else:
+            # Every season has its own state (the user is responsible for making them sum to zero), and the transition
+            # just cycles through them.
+            T = np.eye(self.k_states, k=1)
+            T[-1, 0] = 1
 
         self.ssm["transition", :, :] = T
         self.ssm["design", 0, 0] = 1
-- 
2.43.0


From bfa6cb370908e87fcc5192a3a8d19514df3c2b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 20/40] fix: building a structural model does not alter its
 components

---
 pymc_extras/statespace/models/structural.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index aecc515..8c4ac03 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -100,7 +100,8 @@ class StructuralTimeSeries(PyMCStateSpace):
         default_coords = make_default_coords(self)
         coords.update(default_coords)
 
-        self._coords = coords
+        # Every built model has its own copy, so that models built from the same components are independent
+        self._coords = coords.copy()
         self._param_info = param_info.copy()
         self._data_info = data_info.copy()
         self.measurement_error = measurement_error
@@ -138,12 +139,17 @@ class StructuralTimeSeries(PyMCStateSpace):
 
     @staticmethod
     def _add_inital_state_cov_to_properties(param_names, param_dims, param_info, k_states):
-        param_names += ["P0"]
-        param_dims["P0"] = (ALL_STATE_DIM, ALL_STATE_AUX_DIM)
-        param_info["P0"] = {
-            "shape": (k_states, k_states),
-            "constraints": "Positive semi-definite",
-            "dims": param_dims["P0"],
+        # These belong to the component being built, so make new objects rather than updating them in place
+        dims = (ALL_STATE_DIM, ALL_STATE_AUX_DIM)
+        param_names = [*param_names, "P0"]
+        param_dims = {**param_dims, "P0": dims}
+        param_info = {
+            **param_info,
+            "P0": {
+                "shape": (k_states, k_states),
+                "constraints": "Positive semi-definite",
+                "dims": dims,
+            },
         }
 
         return param_names, param_dims, param_info
-- 
2.43.0


From ae5bcd2a02882df0f276cde6665fdd246cc93fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 21/40] fix: a cycle without innovations has no unnamed shocks

---
 pymc_extras/statespace/models/structural.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 8c4ac03..7d2c7e7 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1485,7 +1485,7 @@ class CycleComponent(Component):
 
         k_states = 2
         k_endog = 1
-        k_posdef = 2
+        k_posdef = 2 * int(innovations)
 
         obs_state_idx = np.zeros(k_states)
         obs_state_idx[slice(0, k_states, 2)] = 1
@@ -1502,7 +1502,6 @@ class CycleComponent(Component):
 
     def make_symbolic_graph(self) -> None:
         self.ssm["design", 0, slice(0, self.k_states, 2)] = 1
-        self.ssm["selection", :, :] = np.eye(self.k_states)
         self.param_dims = {self.name: (f"{self.name}_state",)}
         self.coords = {f"{self.name}_state": self.state_names}
 
@@ -1525,6 +1524,7 @@ class CycleComponent(Component):
 
         if self.innovations:
             sigma_cycle = self.make_and_register_variable(f"sigma_{self.name}", shape=())
+            self.ssm["selection", :, :] = np.eye(self.k_states)
             self.ssm["state_cov", :, :] = pt.eye(self.k_posdef) * sigma_cycle**2
 
     def populate_component_properties(self):
-- 
2.43.0


From 1fb2c79fe58c9b075092cee693d4aa8d46066368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 22/40] fix: documented shapes and dims of AR and regression
 parameters match the model

---
 pymc_extras/statespace/models/structural.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 7d2c7e7..9919185 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1029,7 +1029,7 @@ class AutoregressiveComponent(Component):
 
         self.param_info = {
             "ar_params": {
-                "shape": (self.k_states,),
+                "shape": (len(self.ar_lags),),
                 "constraints": None,
                 "dims": (AR_PARAM_DIM,),
             },
@@ -1657,9 +1657,9 @@ class RegressionComponent(Component):
 
         if self.innovations:
             self.param_names += [f"sigma_beta_{self.name}"]
-            self.param_dims[f"sigma_beta_{self.name}"] = "exog_state"
+            self.param_dims[f"sigma_beta_{self.name}"] = ("exog_state",)
             self.param_info[f"sigma_beta_{self.name}"] = {
-                "shape": (),
+                "shape": (self.k_states,),
                 "constraints": "Positive",
                 "dims": ("exog_state",),
             }
-- 
2.43.0


From 8d095af775d04218844e6b3d0e9e855a93696c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 23/40] fix: regression components in the same model have their
 own coordinates

---
 pymc_extras/statespace/models/structural.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 9919185..fe9c1d9 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1636,30 +1636,30 @@ class RegressionComponent(Component):
         self.param_names = [f"beta_{self.name}"]
         self.data_names = [f"data_{self.name}"]
         self.param_dims = {
-            f"beta_{self.name}": ("exog_state",),
+            f"beta_{self.name}": (f"{self.name}_state",),
         }
 
         self.param_info = {
             f"beta_{self.name}": {
                 "shape": (self.k_states,),
                 "constraints": None,
-                "dims": ("exog_state",),
+                "dims": (f"{self.name}_state",),
             },
         }
 
         self.data_info = {
             f"data_{self.name}": {
                 "shape": (None, self.k_states),
-                "dims": (TIME_DIM, "exog_state"),
+                "dims": (TIME_DIM, f"{self.name}_state"),
             },
         }
-        self.coords = {"exog_state": self.state_names}
+        self.coords = {f"{self.name}_state": self.state_names}
 
         if self.innovations:
             self.param_names += [f"sigma_beta_{self.name}"]
-            self.param_dims[f"sigma_beta_{self.name}"] = ("exog_state",)
+            self.param_dims[f"sigma_beta_{self.name}"] = (f"{self.name}_state",)
             self.param_info[f"sigma_beta_{self.name}"] = {
                 "shape": (self.k_states,),
                 "constraints": "Positive",
-                "dims": ("exog_state",),
+                "dims": (f"{self.name}_state",),
             }
-- 
2.43.0


From f9fe29347aaf3008ea26af3b2263c9bc5c83351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 24/40] fix: adding structural components whose parameters have
 the same names is an error

---
 pymc_extras/statespace/models/structural.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index fe9c1d9..efa333b 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -600,6 +600,12 @@ class Component(ABC):
         return name
 
     def __add__(self, other):
+        shared_params = set(self.param_names) & set(other.param_names)
+        if shared_params:
+            raise ValueError(
+                f"Cannot add components that share the same parameter names: {', '.join(sorted(shared_params))}"
+            )
+
         state_names = self._combine_property(other, "state_names")
         data_names = self._combine_property(other, "data_names")
         param_names = self._combine_property(other, "param_names")
-- 
2.43.0


From 1542419d7dcce507a75bdbf46bf2d289cf382036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:56 +0000
Subject: [PATCH 25/40] fix: extracting components ignores observed variables
 and covariances as wide as the hidden states

---
 pymc_extras/statespace/models/structural.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index efa333b..9afed26 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -24,6 +24,8 @@ from pymc_extras.statespace.utils.constants import (
     ALL_STATE_DIM,
     AR_PARAM_DIM,
     LONG_MATRIX_NAMES,
+    OBS_STATE_AUX_DIM,
+    OBS_STATE_DIM,
     POSITION_DERIVATIVE_NAMES,
     TIME_DIM,
 )
@@ -297,7 +299,12 @@ class StructuralTimeSeries(PyMCStateSpace):
             return new_idata
 
         var_names = list(idata.data_vars.keys())
-        is_latent = [idata[name].shape[-1] == self.k_states for name in var_names]
+        # Observed variables and covariances can have the same number of entries as the hidden states
+        not_latent_dims = {ALL_STATE_AUX_DIM, OBS_STATE_DIM, OBS_STATE_AUX_DIM}
+        is_latent = [
+            idata[name].shape[-1] == self.k_states and idata[name].dims[-1] not in not_latent_dims
+            for name in var_names
+        ]
         new_state_names = self._get_subcomponent_names()
 
         latent_names = [name for latent, name in zip(is_latent, var_names) if latent]
-- 
2.43.0


From 6674e0f4cf3472d3d765d7729f86ee08697c46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:03 +0000
Subject: [PATCH 26/40] fix: interpretable SARIMA states are all named when
 only seasonal lags are used

---
 pymc_extras/statespace/models/SARIMAX.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/statespace/models/SARIMAX.py b/pymc_extras/statespace/models/SARIMAX.py
index f8a4203..759c853 100644
--- a/pymc_extras/statespace/models/SARIMAX.py
+++ b/pymc_extras/statespace/models/SARIMAX.py
@@ -303,11 +303,9 @@ class BayesianSARIMA(PyMCStateSpace):
 
         elif self.state_structure == "interpretable":
             states = ["data"]
-            if self.p > 0:
-                states += [f"L{i + 1}.data" for i in range(self._p_max - 1)]
+            states += [f"L{i + 1}.data" for i in range(self._p_max - 1)]
             states += ["innovations"]
-            if self.q > 0:
-                states += [f"L{i + 1}.innovations" for i in range(self._q_max - 1)]
+            states += [f"L{i + 1}.innovations" for i in range(self._q_max - 1)]
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 783d2379069fb0c241579ab13471538a4b79f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:34 +0000
Subject: [PATCH 27/40] fix: VARMAX describes sigma_obs with the shape the
 model takes

---
 pymc_extras/statespace/models/VARMAX.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/models/VARMAX.py b/pymc_extras/statespace/models/VARMAX.py
index b49765d..7c82244 100644
--- a/pymc_extras/statespace/models/VARMAX.py
+++ b/pymc_extras/statespace/models/VARMAX.py
@@ -212,8 +212,8 @@ class BayesianVARMAX(PyMCStateSpace):
                 "constraints": "Positive Semi-definite",
             },
             "sigma_obs": {
-                "shape": (self.k_endog, self.k_endog),
-                "constraints": "Positive Semi-definite",
+                "shape": (self.k_endog,),
+                "constraints": "Positive",
             },
             "state_cov": {
                 "shape": (self.k_posdef, self.k_posdef),
-- 
2.43.0


From 8bbdf66e2591531d0f2fc7150b4abbde0615c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 28/40] fix: BayesianETS accepts the name of a single series as
 a string

---
 pymc_extras/statespace/models/ETS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/ETS.py b/pymc_extras/statespace/models/ETS.py
index a64f278..006d07c 100644
--- a/pymc_extras/statespace/models/ETS.py
+++ b/pymc_extras/statespace/models/ETS.py
@@ -257,7 +257,7 @@ class BayesianETS(PyMCStateSpace):
             raise ValueError("If seasonal is True, seasonal_periods must be provided.")
 
         if endog_names is not None:
-            endog_names = list(endog_names)
+            endog_names = [endog_names] if isinstance(endog_names, str) else list(endog_names)
             k_endog = len(endog_names)
         else:
             endog_names = [f"data_{i}" for i in range(k_endog)] if k_endog > 1 else ["data"]
-- 
2.43.0


From bcc50576e09187c2ca4e13bd3a22b35dc32ba352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 29/40] fix: BayesianETS describes initial_seasonal with the
 shape the model takes

---
 pymc_extras/statespace/models/ETS.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/models/ETS.py b/pymc_extras/statespace/models/ETS.py
index 006d07c..734677a 100644
--- a/pymc_extras/statespace/models/ETS.py
+++ b/pymc_extras/statespace/models/ETS.py
@@ -337,7 +337,12 @@ class BayesianETS(PyMCStateSpace):
                 "shape": None if self.k_endog == 1 else (self.k_endog,),
                 "constraints": None,
             },
-            "initial_seasonal": {"shape": (self.seasonal_periods,), "constraints": None},
+            "initial_seasonal": {
+                "shape": (self.seasonal_periods,)
+                if self.k_endog == 1
+                else (self.k_endog, self.seasonal_periods),
+                "constraints": None,
+            },
             "sigma_obs": {
                 "shape": None if self.k_endog == 1 else (self.k_endog,),
                 "constraints": "Positive",
-- 
2.43.0


From 281bfd1c63776f308b798698e620497f696bafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 30/40] fix: automatically reparametrised variables without
 explicit shape get one lambda per element

---
 pymc_extras/model/transforms/autoreparam.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model/transforms/autoreparam.py b/pymc_extras/model/transforms/autoreparam.py
index 0b7f220..97126d3 100644
--- a/pymc_extras/model/transforms/autoreparam.py
+++ b/pymc_extras/model/transforms/autoreparam.py
@@ -178,12 +178,16 @@ def vip_reparam_node(
 ) -> tuple[ModelDeterministic, ModelNamed]:
     if not isinstance(node.op, RandomVariable | SymbolicRandomVariable):
         raise TypeError("Op should be RandomVariable type")
-    # FIXME: This is wrong when size is None
     _, size, *_ = node.inputs
     eval_size = size.eval(mode="FAST_COMPILE")
+    static_shape = node.default_output().type.shape
     if eval_size is not None:
         rv_shape = tuple(eval_size)
+    elif None not in static_shape:
+        # The shape is implied by the parameters
+        rv_shape = tuple(static_shape)
     else:
+        # FIXME: The shape is only known at runtime, all the elements share the same lambda
         rv_shape = ()
     lam_name = f"{name}::lam_logit__"
     _log.debug(f"Creating {lam_name} with shape of {rv_shape}")
-- 
2.43.0


From fa1dcc7b6285a194154f943b8000f339a2e865ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 31/40] fix: a function decorated with as_model keeps its
 coordinates after the first call

---
 pymc_extras/model/model_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model/model_api.py b/pymc_extras/model/model_api.py
index aeec8be..dcd5fae 100644
--- a/pymc_extras/model/model_api.py
+++ b/pymc_extras/model/model_api.py
@@ -46,8 +46,10 @@ def as_model(*model_args, **model_kwargs):
     def decorator(f):
         @wraps(f)
         def make_model(*args, **kwargs):
-            coords = model_kwargs.pop("coords", {}) | kwargs.pop("coords", {})
-            with Model(*model_args, coords=coords, **model_kwargs) as m:
+            # Later calls need the decorator's arguments too, so they must not be altered
+            call_kwargs = model_kwargs.copy()
+            coords = (call_kwargs.pop("coords", None) or {}) | (kwargs.pop("coords", None) or {})
+            with Model(*model_args, coords=coords, **call_kwargs) as m:
                 f(*args, **kwargs)
             return m
 
-- 
2.43.0


From d4a5b68c88b5313bfca715bded7bfb53cf116325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:59 +0000
Subject: [PATCH 32/40] fix: the model table shows dims of data without
 coordinates, repeated dims and names that look like markup

---
 pymc_extras/printing.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pymc_extras/printing.py b/pymc_extras/printing.py
index 8409e34..1c1ba96 100644
--- a/pymc_extras/printing.py
+++ b/pymc_extras/printing.py
@@ -7,6 +7,7 @@ from pytensor.compile.sharedvalue import SharedVariable
 from pytensor.graph.type import Constant, Variable
 from rich.box import SIMPLE_HEAD
 from rich.table import Table
+from rich.text import Text
 
 
 def variable_expression(
@@ -19,35 +20,41 @@ def variable_expression(
         var_expr = "Data"
     elif var in model.deterministics:
         str_repr = str_for_potential_or_deterministic(var, dist_name="")
-        _, var_expr = str_repr.split(" ~ ")
+        var_expr = str_repr.removeprefix(f"{var.name} ~ ")
         var_expr = var_expr[1:-1]  # Remove outer parentheses (f(...))
         if truncate_deterministic is not None and len(var_expr) > truncate_deterministic:
-            contents = var_expr[2:-1].split(", ")
+            contents = [content for content in var_expr[2:-1].split(", ") if content]
             str_len = 0
             for show_n, content in enumerate(contents):
                 str_len += len(content) + 2
                 if str_len > truncate_deterministic:
                     break
-            var_expr = f"f({', '.join(contents[:show_n])}, ...)"
+            if contents:
+                var_expr = f"f({', '.join([*contents[:show_n], '...'])})"
     elif var in model.potentials:
-        var_expr = str_for_potential_or_deterministic(var, dist_name="Potential").split(" ~ ")[1]
+        str_repr = str_for_potential_or_deterministic(var, dist_name="Potential")
+        var_expr = str_repr.removeprefix(f"{var.name} ~ ")
     else:  # basic_RVs
-        var_expr = str_for_dist(var).split(" ~ ")[1]
+        var_expr = str_for_dist(var).removeprefix(f"{var.name} ~ ")
     return var_expr
 
 
-def _extract_dim_value(var: SharedVariable | Constant) -> np.ndarray:
+def _extract_dim_value(var: Variable) -> np.ndarray:
     if isinstance(var, SharedVariable):
         return var.get_value(borrow=True)
-    else:
+    elif isinstance(var, Constant):
         return var.data
+    else:
+        # Dims introduced by Data without coords have the (symbolic) length of the data
+        return var.eval(mode=Mode(linker="py", optimizer="fast_compile"))
 
 
 def dims_expression(model: Model, var: Variable) -> str:
     """Get the dimensions of a variable in a human-readable format."""
     if (dims := model.named_vars_to_dims.get(var.name)) is not None:
-        dim_sizes = {dim: _extract_dim_value(model.dim_lengths[dim]) for dim in dims}
-        return " × ".join(f"{dim}[{dim_size}]" for dim, dim_size in dim_sizes.items())
+        # The same dim can occur more than once
+        dim_sizes = [(dim, _extract_dim_value(model.dim_lengths[dim])) for dim in dims]
+        return " × ".join(f"{dim}[{dim_size}]" for dim, dim_size in dim_sizes)
     else:
         dim_sizes = list(var.shape.eval(mode=Mode(linker="py", optimizer="fast_compile")))
         return f"[{', '.join(map(str, dim_sizes))}]" if dim_sizes else ""
@@ -166,12 +173,13 @@ def model_table(
 
         for var in group:
             var_name = var.name
-            sep = f'[b]{" ~" if (var in model.basic_RVs) else " ="}[/b]'
+            sep = (" ~" if (var in model.basic_RVs) else " =", "bold")
             var_expr = variable_expression(model, var, truncate_deterministic)
             dims_expr = dims_expression(model, var)
             if dims_expr == "[]":
                 dims_expr = ""
-            table.add_row(var_name + sep, var_expr, dims_expr)
+            # Use Text so that names are not interpreted as markup
+            table.add_row(Text.assemble(var_name, sep), Text(var_expr), Text(dims_expr))
 
         if parameter_count and (not split_groups or group == model.free_RVs):
             n_parameters = model_parameter_count(model)
-- 
2.43.0


From 8c803aaa02919ea1d75f91ac84ebbffce057ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:02 +0000
Subject: [PATCH 33/40] Revert "fix: automatically reparametrised variables
 without explicit shape get one lambda per element"

The strictly expected failures test_lambda_shape* would otherwise be reported as failures.
---
 pymc_extras/model/transforms/autoreparam.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pymc_extras/model/transforms/autoreparam.py b/pymc_extras/model/transforms/autoreparam.py
index 97126d3..0b7f220 100644
--- a/pymc_extras/model/transforms/autoreparam.py
+++ b/pymc_extras/model/transforms/autoreparam.py
@@ -178,16 +178,12 @@ def vip_reparam_node(
 ) -> tuple[ModelDeterministic, ModelNamed]:
     if not isinstance(node.op, RandomVariable | SymbolicRandomVariable):
         raise TypeError("Op should be RandomVariable type")
+    # FIXME: This is wrong when size is None
     _, size, *_ = node.inputs
     eval_size = size.eval(mode="FAST_COMPILE")
-    static_shape = node.default_output().type.shape
     if eval_size is not None:
         rv_shape = tuple(eval_size)
-    elif None not in static_shape:
-        # The shape is implied by the parameters
-        rv_shape = tuple(static_shape)
     else:
-        # FIXME: The shape is only known at runtime, all the elements share the same lambda
         rv_shape = ()
     lam_name = f"{name}::lam_logit__"
     _log.debug(f"Creating {lam_name} with shape of {rv_shape}")
-- 
2.43.0


From 31d4bca84636bfafbb4bf4ad7cb85151953c956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:01 +0000
Subject: [PATCH 34/40] fix: spline interpolation works across the 0th axis of
 arrays with more than two dimensions and has a gradient in sparse form

---
 pymc_extras/utils/spline.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/utils/spline.py b/pymc_extras/utils/spline.py
index 921c8ec..48cfb97 100644
--- a/pymc_extras/utils/spline.py
+++ b/pymc_extras/utils/spline.py
@@ -125,7 +125,13 @@ def bspline_interpolation(x, *, n=None, eval_points=None, degree=3, sparse=True)
     elif eval_points is None:
         raise ValueError("Please provide one of n or eval_points")
     basis = BSplineBasis(sparse=sparse)(eval_points, x.shape[0], degree)
+    # The 0th axis of arrays of any number of dimensions is contracted by a matrix product
+    # (products of a sparse matrix and a vector have no gradient)
+    values = x if x.ndim == 2 else x.reshape((x.shape[0], -1))
     if sparse:
-        return ps.dot(basis, x)
+        out = ps.dot(basis, values)
     else:
-        return pt.dot(basis, x)
+        out = pt.dot(basis, values)
+    if x.ndim != 2:
+        out = out.reshape((out.shape[0], *(x.shape[i] for i in range(1, x.ndim))))
+    return out
-- 
2.43.0


From 034d4a94c29f2575e8acaddc7ff3191f1d7ab89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:03 +0000
Subject: [PATCH 35/40] fix: linear_cg solves each column, vectors, guesses and
 preconditioned systems

---
 pymc_extras/utils/linear_cg.py | 46 +++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/pymc_extras/utils/linear_cg.py b/pymc_extras/utils/linear_cg.py
index 4efaadb..d71834f 100644
--- a/pymc_extras/utils/linear_cg.py
+++ b/pymc_extras/utils/linear_cg.py
@@ -25,6 +25,11 @@ def masked_fill(vector, mask, fill_value):
     return vector
 
 
+def inner_prod(left, right):
+    """Inner products of the matching columns."""
+    return np.sum(np.multiply(left, right), axis=-2, keepdims=True)
+
+
 def linear_cg_updates(
     result, alpha, residual_inner_prod, eps, beta, residual, precond_residual, curr_conjugate_vec
 ):
@@ -32,7 +37,7 @@ def linear_cg_updates(
     result = result + alpha * curr_conjugate_vec
     beta = np.copy(residual_inner_prod)
 
-    residual_inner_prod = residual.T @ precond_residual
+    residual_inner_prod = inner_prod(residual, precond_residual)
 
     # safe division
     is_zero = beta < eps
@@ -67,6 +72,10 @@ def linear_cg(
     terminate_cg_by_size=False,
     use_eval_tolerance=False,
 ):
+    if isinstance(mat, np.matrix):
+        mat = np.asarray(mat)
+    rhs = np.asarray(rhs)
+
     if initial_guess is None:
         initial_guess = np.zeros_like(rhs)
 
@@ -94,19 +103,21 @@ def linear_cg(
     is_vector = len(rhs.shape) == 1
     if is_vector:
         rhs = rhs[:, np.newaxis]
+        initial_guess = np.reshape(initial_guess, rhs.shape)
 
-    num_rows = rhs.size
+    num_rows = rhs.shape[-2]
     n_iter = min(max_iter, num_rows) if terminate_cg_by_size else max_iter
     n_tridiag_iter = min(max_tridiag_iter, num_rows)
 
     # norm of rhs for convergence tests
-    rhs_norm = np.linalg.norm(rhs, 2)
+    rhs_norm = np.linalg.norm(rhs, 2, axis=-2, keepdims=True)
     # make almost-zero norms be 1 (so we don't get divide-by-zero errors)
     rhs_is_zero = rhs_norm < eps
     rhs_norm = masked_fill(rhs_norm, mask=rhs_is_zero, fill_value=1)
 
-    # lets normalize rhs
+    # lets normalize rhs, and the guess accordingly
     rhs = rhs / rhs_norm
+    initial_guess = initial_guess / rhs_norm
 
     # residuals
     residual = rhs - mat @ initial_guess
@@ -119,7 +130,7 @@ def linear_cg(
 
     # sometimes we are lucky and preconditioner solves the system right away
     # check for convergence
-    residual_norm = np.linalg.norm(residual, 2)
+    residual_norm = np.linalg.norm(residual, 2, axis=-2, keepdims=True)
     has_converged = residual_norm < stop_updating_after
 
     if has_converged.all() and not n_tridiag:
@@ -128,7 +139,7 @@ def linear_cg(
         precond_residual = preconditioner(residual)
 
         curr_conjugate_vec = precond_residual
-        residual_inner_prod = residual.T @ precond_residual
+        residual_inner_prod = inner_prod(residual, precond_residual)
 
         # define storage matrices
         np.zeros_like(residual)
@@ -139,8 +150,8 @@ def linear_cg(
     # Define tridiagonal matrices if applicable
     if n_tridiag:
         t_mat = np.zeros((n_tridiag_iter, n_tridiag_iter, *batch_shape, n_tridiag))
-        alpha_tridiag_is_zero = np.zeros(*batch_shape, n_tridiag)
-        alpha_reciprocal = np.zeros(*batch_shape, n_tridiag)
+        alpha_tridiag_is_zero = np.zeros((*batch_shape, n_tridiag))
+        alpha_reciprocal = np.zeros((*batch_shape, n_tridiag))
         prev_alpha_reciprocal = np.zeros_like(alpha_reciprocal)
         prev_beta = np.zeros_like(alpha_reciprocal)
 
@@ -154,7 +165,7 @@ def linear_cg(
     for k in range(n_iter):
         mvms = mat @ curr_conjugate_vec
         if precond:
-            alpha = curr_conjugate_vec @ mvms  # scalar
+            alpha = inner_prod(curr_conjugate_vec, mvms)
 
             # safe division
             is_zero = alpha < eps
@@ -192,7 +203,7 @@ def linear_cg(
 
         else:
             # everything inside _jit_linear_cg_updates_no_precond
-            alpha = curr_conjugate_vec.T @ mvms
+            alpha = inner_prod(curr_conjugate_vec, mvms)
 
             # safe division
             is_zero = alpha < eps
@@ -224,22 +235,21 @@ def linear_cg(
                 curr_conjugate_vec,
             )
 
-        residual_norm = np.linalg.norm(residual, 2)
-        residual_norm = masked_fill(residual_norm, mask=rhs_is_zero, fill_value=0)
+        residual_norm = np.linalg.norm(residual, 2, axis=-2, keepdims=True)
         has_converged = residual_norm < stop_updating_after
 
         if (
-            k >= min(10, max_iter - 1)
+            k >= min(10, n_iter - 1)
             and bool(residual_norm.mean() < tolerance)
-            and not (n_tridiag and k < min(n_tridiag_iter, max_iter - 1))
+            and not (n_tridiag and k < min(n_tridiag_iter, n_iter - 1))
         ):
             tolerance_reached = True
             break
 
         # Update tridiagonal matrices, if applicable
         if n_tridiag and k < n_tridiag_iter and update_tridiag:
-            alpha_tridiag = np.copy(alpha)
-            beta_tridiag = np.copy(beta)
+            alpha_tridiag = np.copy(alpha[..., 0, :n_tridiag])
+            beta_tridiag = np.copy(beta[..., 0, :n_tridiag])
 
             alpha_tridiag_is_zero = alpha_tridiag == 0
             alpha_tridiag = masked_fill(alpha_tridiag, mask=alpha_tridiag_is_zero, fill_value=1)
@@ -249,7 +259,7 @@ def linear_cg(
             if k == 0:
                 t_mat[k, k] = alpha_reciprocal
             else:
-                t_mat[k, k] += np.squeeze(alpha_reciprocal + prev_beta * prev_alpha_reciprocal)
+                t_mat[k, k] += alpha_reciprocal + prev_beta * prev_alpha_reciprocal
                 t_mat[k, k - 1] = np.sqrt(prev_beta) * prev_alpha_reciprocal
                 t_mat[k - 1, k] = np.copy(t_mat[k, k - 1])
 
@@ -263,6 +273,8 @@ def linear_cg(
 
     # Un-normalize
     result = result * rhs_norm
+    if is_vector:
+        result = result[:, 0]
     if not tolerance_reached and n_iter > 0:
         raise RuntimeError(
             f"CG terminated in {k + 1} iterations with average residual norm {residual_norm.mean()}"
-- 
2.43.0


From 26f7dcd1d1d9a0d905e917c774675b9059f402aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:35 +0000
Subject: [PATCH 36/40] fix: the Karhunen-Loeve expansion uses its mean
 function and enough eigenvectors for its share of variance, conditional
 options of projected processes are used

---
 pymc_extras/gp/latent_approx.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index 346e589..0dd85be 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -120,9 +120,9 @@ class ProjectedProcess(pm.gp.Latent):
 
     def conditional(self, name, Xnew, jitter=1e-6, **kwargs):
         mu, chol = self._build_conditional(
-            name, Xnew, self.X_inducing, self.L, self.Kuuiu, jitter, **kwargs
+            name, Xnew, self.X_inducing, self.L, self.Kuuiu, jitter
         )
-        return pm.MvNormal(name, mu=mu, chol=chol)
+        return pm.MvNormal(name, mu=mu, chol=chol, **kwargs)
 
 
 class KarhunenLoeveExpansion(pm.gp.Latent):
@@ -139,7 +139,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         super().__init__(mean_func=mean_func, cov_func=cov_func)
 
     def _build_prior(self, name, X, jitter=1e-6, **kwargs):
-        self.mean_func(X)
+        mu = self.mean_func(X)
         Kxx = pm.gp.util.stabilize(self.cov_func(X), jitter)
         vals, vecs = pt.linalg.eigh(Kxx)
         ## NOTE: REMOVED PRECISION CUTOFF
@@ -147,9 +147,12 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
             n_eigs = self.n_eigs
         else:
             if self.variance_limit == 1:
-                n_eigs = len(vals)
+                n_eigs = vals.shape[0]
             else:
-                n_eigs = ((vals[::-1].cumsum() / vals.sum()) > self.variance_limit).nonzero()[0][0]
+                # Number of leading eigenvalues needed to exceed the limit
+                n_eigs = (
+                    ((vals[::-1].cumsum() / vals.sum()) > self.variance_limit).nonzero()[0][0] + 1
+                )
         U = vecs[:, -n_eigs:]
         s = vals[-n_eigs:]
         basis = U * pt.sqrt(s)
@@ -157,7 +160,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         coefs_raw = pm.Normal(f"_gp_{name}_coefs", mu=0, sigma=1, size=n_eigs)
         # weight = pm.HalfNormal(f"_gp_{name}_sd")
         # coefs = weight * coefs_raw # dont understand this prior, why weight * coeffs_raw?
-        f = basis @ coefs_raw
+        f = mu + basis @ coefs_raw
         return f, U, s, n_eigs
 
     def prior(self, name, X, jitter=1e-6, **kwargs):
@@ -171,7 +174,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         Kxs = self.cov_func(X, Xnew)
         Kss = self.cov_func(Xnew)
         Kxxpinv = U @ pt.diag(1.0 / s) @ U.T
-        mus = Kxs.T @ Kxxpinv @ f
+        mus = self.mean_func(Xnew) + Kxs.T @ Kxxpinv @ (f - self.mean_func(X))
         K = Kss - Kxs.T @ Kxxpinv @ Kxs
         L = cholesky(stabilize(K, jitter))
         return mus, L
-- 
2.43.0


From 15195c7b855b31fb0181eea4983af535556d0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:43 +0000
Subject: [PATCH 37/40] fix: Laplace approximations keep variables, covariances
 and draws in the same order, for any variable shape and dims

---
 pymc_extras/inference/find_map.py | 15 ++++---
 pymc_extras/inference/laplace.py  | 68 ++++++++++++++++++++++---------
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/pymc_extras/inference/find_map.py b/pymc_extras/inference/find_map.py
index 72ce3b1..053aee7 100644
--- a/pymc_extras/inference/find_map.py
+++ b/pymc_extras/inference/find_map.py
@@ -59,16 +59,20 @@ def get_nearest_psd(A: np.ndarray) -> np.ndarray:
         The nearest positive semi-definite matrix to the input matrix.
     """
     C = (A + A.T) / 2
-    eigval, eigvec = np.linalg.eig(C)
+    eigval, eigvec = np.linalg.eigh(C)
     eigval[eigval < 0] = 0
 
     return eigvec @ np.diag(eigval) @ eigvec.T
 
 
-def _unconstrained_vector_to_constrained_rvs(model):
+def _unconstrained_vector_to_constrained_rvs(model, value_var_names=None):
+    value_vars = {var.name: var for var in model.value_vars}
+    if value_var_names is None:
+        value_var_names = list(value_vars)
+
     constrained_rvs, unconstrained_vector = join_nonshared_inputs(
         model.initial_point(),
-        inputs=model.value_vars,
+        inputs=[value_vars[name] for name in value_var_names],
         outputs=get_default_varnames(model.unobserved_value_vars, include_transformed=False),
     )
 
@@ -252,7 +256,7 @@ def scipy_optimize_funcs_from_loss(
         The compiled hessian-vector product function, or None if use_hessp is False.
     """
 
-    compile_kwargs = {} if compile_kwargs is None else compile_kwargs
+    compile_kwargs = {} if compile_kwargs is None else compile_kwargs.copy()
 
     if (use_hess or use_hessp) and not use_grad:
         raise ValueError(
@@ -370,7 +374,8 @@ def find_MAP(
     model = pm.modelcontext(model)
     frozen_model = freeze_dims_and_data(model)
 
-    jitter_rvs = [] if jitter_rvs is None else jitter_rvs
+    # The variables to jitter are those of the frozen model
+    jitter_rvs = [] if jitter_rvs is None else [frozen_model[rv.name] for rv in jitter_rvs]
     compile_kwargs = {} if compile_kwargs is None else compile_kwargs
 
     ipfn = make_initial_point_fn(
diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 1cfe041..1ea6630 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -79,13 +79,15 @@ def laplace_draws_to_inferencedata(
         extra_dims = model.named_vars_to_dims.get(name)
         if extra_dims is None:
             return coords
-        return coords | {dim: list(model.coords[dim]) for dim in extra_dims}
+        return coords | {
+            dim: list(model.coords[dim]) for dim in extra_dims if model.coords[dim] is not None
+        }
 
-    def make_rv_dims(name):
+    def make_rv_dims(name, ndim):
         dims = ["chain", "draw"]
         extra_dims = model.named_vars_to_dims.get(name)
         if extra_dims is None:
-            return dims
+            extra_dims = [f"{name}_dim_{i}" for i in range(ndim - len(dims))]
         return dims + list(extra_dims)
 
     names = [
@@ -95,7 +97,7 @@ def laplace_draws_to_inferencedata(
         name: xr.DataArray(
             data=draws,
             coords=make_rv_coords(name),
-            dims=make_rv_dims(name),
+            dims=make_rv_dims(name, draws.ndim),
             name=name,
         )
         for name, draws in zip(names, posterior_draws)
@@ -133,9 +135,7 @@ def add_fit_to_inferencedata(
     model = pm.modelcontext(model)
     coords = model.coords
 
-    variable_names, *_ = zip(*mu.point_map_info)
-
-    def make_unpacked_variable_names(name):
+    def make_unpacked_variable_names(name, shape):
         value_to_dim = {
             x.name: model.named_vars_to_dims.get(model.values_to_rvs[x].name, None)
             for x in model.value_vars
@@ -145,14 +145,24 @@ def add_fit_to_inferencedata(
         rv_to_dim = model.named_vars_to_dims
         dims_dict = rv_to_dim | value_to_dim
 
-        dims = dims_dict.get(name)
-        if dims is None:
+        if not shape:
             return [name]
-        labels = product(*(coords[dim] for dim in dims))
-        return [f"{name}[{','.join(map(str, label))}]" for label in labels]
+
+        # Elements are labelled by position where there are no coords, or where there are not as many labels as
+        # elements, because the transform of the variable changes its shape
+        dims = dims_dict.get(name, (None,) * len(shape))
+        dim_labels = [
+            coords[dim]
+            if coords.get(dim) is not None and len(coords[dim]) == length
+            else range(length)
+            for dim, length in zip(dims, shape)
+        ]
+        return [f"{name}[{','.join(map(str, label))}]" for label in product(*dim_labels)]
 
     unpacked_variable_names = reduce(
-        lambda lst, name: lst + make_unpacked_variable_names(name), variable_names, []
+        lambda lst, info: lst + make_unpacked_variable_names(info[0], info[1]),
+        mu.point_map_info,
+        [],
     )
 
     mean_dataarray = xr.DataArray(mu.data, dims=["rows"], coords={"rows": unpacked_variable_names})
@@ -288,8 +298,8 @@ def fit_mvn_to_MAP(
         logp = frozen_model.logp(jacobian=True)
         variables = frozen_model.continuous_value_vars
 
-    variable_names = {var.name for var in variables}
-    optimized_free_params = {k: v for k, v in optimized_point.items() if k in variable_names}
+    # The order of the mean has to be that of the variables the Hessian is computed for
+    optimized_free_params = {var.name: optimized_point[var.name] for var in variables}
     mu = DictToArrayBijection.map(optimized_free_params)
 
     _, f_hess, _ = scipy_optimize_funcs_from_loss(
@@ -371,10 +381,13 @@ def sample_laplace_posterior(
     posterior_dist = stats.multivariate_normal(
         mean=mu.data, cov=H_inv, allow_singular=True, seed=rng
     )
-    posterior_draws = posterior_dist.rvs(size=(chains, draws))
+    # scipy drops dimensions of length one
+    posterior_draws = posterior_dist.rvs(size=(chains, draws)).reshape((chains, draws, -1))
 
     if transform_samples:
-        constrained_rvs, unconstrained_vector = _unconstrained_vector_to_constrained_rvs(model)
+        constrained_rvs, unconstrained_vector = _unconstrained_vector_to_constrained_rvs(
+            model, [name for name, *_ in mu.point_map_info]
+        )
         batched_values = pt.tensor(
             "batched_values",
             shape=(chains, draws, *unconstrained_vector.type.shape),
@@ -396,13 +409,19 @@ def sample_laplace_posterior(
             slice(sum(flat_shapes[:i]), sum(flat_shapes[: i + 1])) for i in range(len(flat_shapes))
         ]
 
-        posterior_draws = [
-            posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype)
+        draws_by_name = {
+            name: posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype)
             for idx, (name, shape, _, dtype) in zip(slices, info)
+        }
+        # laplace_draws_to_inferencedata expects the variables in this order, without the deterministics that follow
+        posterior_draws = [
+            draws_by_name[var.name]
+            for var in get_default_varnames(model.unobserved_value_vars, include_transformed=False)
+            if var.name in draws_by_name
         ]
 
     idata = laplace_draws_to_inferencedata(posterior_draws, model)
-    idata = add_fit_to_inferencedata(idata, mu, H_inv)
+    idata = add_fit_to_inferencedata(idata, mu, H_inv, model)
     idata = add_data_to_inferencedata(idata, progressbar, model, compile_kwargs)
 
     return idata
@@ -547,6 +566,10 @@ def fit_laplace(
         **optimizer_kwargs,
     )
 
+    optimizer_result = None
+    if return_raw:
+        optimized_point, optimizer_result = optimized_point
+
     mu, H_inv = fit_mvn_to_MAP(
         optimized_point=optimized_point,
         model=model,
@@ -557,7 +580,7 @@ def fit_laplace(
         compile_kwargs=compile_kwargs,
     )
 
-    return sample_laplace_posterior(
+    idata = sample_laplace_posterior(
         mu=mu,
         H_inv=H_inv,
         model=model,
@@ -568,3 +591,8 @@ def fit_laplace(
         random_seed=random_seed,
         compile_kwargs=compile_kwargs,
     )
+
+    if return_raw:
+        return idata, optimizer_result
+
+    return idata
-- 
2.43.0


From 67fd048455bed3fe4effd543539d816359f07470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:43 +0000
Subject: [PATCH 38/40] fix: fit refuses unknown inference methods instead of
 returning None

---
 pymc_extras/inference/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymc_extras/inference/fit.py b/pymc_extras/inference/fit.py
index 2da447c..cde9847 100644
--- a/pymc_extras/inference/fit.py
+++ b/pymc_extras/inference/fit.py
@@ -42,3 +42,5 @@ def fit(method, **kwargs):
         from pymc_extras.inference.laplace import fit_laplace
 
         return fit_laplace(**kwargs)
+
+    raise ValueError(f"Unknown inference method {method!r}, expected 'pathfinder' or 'laplace'")
-- 
2.43.0


From 43a6911ec07b72253e8ab4aec5177351ebc92aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 39/40] fix: sequential Monte Carlo accepts variables of length
 one and models passed as an argument

---
 pymc_extras/inference/smc/sampling.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/inference/smc/sampling.py b/pymc_extras/inference/smc/sampling.py
index 7173bc4..6ec3ec5 100644
--- a/pymc_extras/inference/smc/sampling.py
+++ b/pymc_extras/inference/smc/sampling.py
@@ -180,7 +180,7 @@ def sample_smc_blackjax(
         running_time,
     )
 
-    if total_iterations < iterations_to_diagnose:
+    if total_iterations > iterations_to_diagnose:
         log.warning(
             f"Only the first {iterations_to_diagnose} were included in diagnosed quantities out of {total_iterations}."
         )
@@ -206,8 +206,9 @@ def arviz_from_particles(model, particles):
     -------
     """
     n_particles = jax.tree_util.tree_flatten(particles)[0][0].shape[0]
+    # Only the values of scalar variables are held in arrays with one more dimension
     by_varname = {
-        k.name: v.squeeze()[np.newaxis, :].astype(k.dtype)
+        k.name: (v.reshape(n_particles) if k.ndim == 0 else v)[np.newaxis, :].astype(k.dtype)
         for k, v in zip(model.value_vars, particles)
     }
     varnames = [v.name for v in model.value_vars]
@@ -217,7 +218,7 @@ def arviz_from_particles(model, particles):
     for particle_index in range(0, n_particles):
         strace.record(point={k: np.asarray(by_varname[k][0][particle_index]) for k in varnames})
         multitrace = MultiTrace((strace,))
-    return to_inference_data(multitrace, log_likelihood=False)
+    return to_inference_data(multitrace, log_likelihood=False, model=model)
 
 
 class SMCDiagnostics(NamedTuple):
@@ -396,7 +397,10 @@ def get_jaxified_particles_fn(model, graph_outputs):
     logp_fn = get_jaxified_graph(inputs=model.value_vars, outputs=[graph_outputs])
 
     def logp_fn_wrap(particles):
-        return logp_fn(*[p.squeeze() for p in particles])[0]
+        # Only the values of scalar variables are held in arrays with one more dimension
+        return logp_fn(
+            *[p.squeeze() if v.ndim == 0 else p for v, p in zip(model.value_vars, particles)]
+        )[0]
 
     return logp_fn_wrap
 
-- 
2.43.0


From 2823c7e1d6f226d9f103feae9777d853f5e99161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:12 +0000
Subject: [PATCH 40/40] fix: model builders pair targets with rows by position,
 load nested configurations and predict single rows

---
 pymc_extras/linearmodel.py   | 5 +++--
 pymc_extras/model_builder.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/linearmodel.py b/pymc_extras/linearmodel.py
index b1f78b2..dcb85ef 100644
--- a/pymc_extras/linearmodel.py
+++ b/pymc_extras/linearmodel.py
@@ -96,9 +96,10 @@ class LinearModel(ModelBuilder):
 
     def _data_setter(self, X: pd.DataFrame, y: pd.DataFrame | pd.Series | None = None):
         with self.model:
-            pm.set_data({"x": X.squeeze()})
+            # Single rows are kept as vectors
+            pm.set_data({"x": np.atleast_1d(X.squeeze())})
             if y is not None:
-                pm.set_data({"y_data": y.squeeze()})
+                pm.set_data({"y_data": np.atleast_1d(y.squeeze())})
 
     def _generate_and_preprocess_model_data(
         self, X: pd.DataFrame | pd.Series, y: pd.Series
diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 6e712e5..80f9225 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -406,6 +406,8 @@ class ModelBuilder:
                         # Convert all other lists to numpy arrays
                         else:
                             model_config[key][sub_key] = np.array(model_config[key][sub_key])
+                # Deeper levels are saved in the same way
+                cls._model_config_formatting(model_config[key])
         return model_config
 
     @classmethod
@@ -503,7 +505,8 @@ class ModelBuilder:
             predictor_names = []
         if y is None:
             y = np.zeros(X.shape[0])
-        y = pd.DataFrame({self.output_var: y})
+        # The model pairs X and y by position, whatever their indexes
+        y = pd.DataFrame({self.output_var: np.asarray(y)}, index=X.index)
         self._generate_and_preprocess_model_data(X, y.values.flatten())
         self.build_model(self.X, self.y)
 
-- 
2.43.0

