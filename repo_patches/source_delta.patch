From 8d38e74e5f7bb431c4e4815330d678c0a8fe087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 01/25] fix: em() uses the model's current em_vars, or the
 documented default, in all linear filters

---
 pykalman/sqrt/bierman.py  |  3 +++
 pykalman/sqrt/cholesky.py |  3 +++
 pykalman/standard.py      | 23 ++++++++++++-----------
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efc77ad..7ffdf65 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -15,6 +15,7 @@ import numpy as np
 from scipy import linalg
 
 from ..standard import (
+    DEFAULT_EM_VARS,
     DIM,
     KalmanFilter,
     _arg_or_default,
@@ -814,6 +815,8 @@ class BiermanKalmanFilter(KalmanFilter):
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
             em_vars = self.em_vars
+        if em_vars is None:
+            em_vars = DEFAULT_EM_VARS
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 71f8cc1..5ab2a8c 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -14,6 +14,7 @@ import numpy as np
 from scipy import linalg
 
 from ..standard import (
+    DEFAULT_EM_VARS,
     DIM,
     KalmanFilter,
     _arg_or_default,
@@ -645,6 +646,8 @@ class CholeskyKalmanFilter(KalmanFilter):
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
             em_vars = self.em_vars
+        if em_vars is None:
+            em_vars = DEFAULT_EM_VARS
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/standard.py b/pykalman/standard.py
index 2f183f0..adadf11 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -36,6 +36,15 @@ DIM = {
 }
 
 
+# Parameters estimated by EM unless told otherwise
+DEFAULT_EM_VARS = [
+    "transition_covariance",
+    "observation_covariance",
+    "initial_state_mean",
+    "initial_state_covariance",
+]
+
+
 def _arg_or_default(arg, default, dim, name):
     if arg is None:
         result = np.asarray(default)
@@ -1102,16 +1111,6 @@ class KalmanFilter:
         self.n_dim_state = n_dim_state
         self.n_dim_obs = n_dim_obs
 
-        if em_vars is None:
-            self._em_vars = [
-                "transition_covariance",
-                "observation_covariance",
-                "initial_state_mean",
-                "initial_state_covariance",
-            ]
-        else:
-            self._em_vars = em_vars
-
     def sample(self, n_timesteps, initial_state=None, random_state=None):
         r"""Sample a state sequence :math:`n_{\\text{timesteps}}` timesteps in length.
 
@@ -1450,7 +1449,9 @@ class KalmanFilter:
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self._em_vars
+            em_vars = self.em_vars
+        if em_vars is None:
+            em_vars = DEFAULT_EM_VARS
 
         if em_vars == "all":
             given = {}
-- 
2.43.0


From 80b72c8ba3bf019c1b63fb58159032b0430c12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 02/25] fix: filter_update of the square-root filters returns
 one covariance matrix, not a stack of one

---
 pykalman/sqrt/bierman.py   | 2 +-
 pykalman/sqrt/cholesky.py  | 2 +-
 pykalman/sqrt/unscented.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 7ffdf65..c9e35c8 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -704,7 +704,7 @@ class BiermanKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 5ab2a8c..e0d5b7b 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -535,7 +535,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 320634b..99f4508 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -764,7 +764,7 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
-- 
2.43.0


From d7024841f559dc1d9514d81b340c63aa2576a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 03/25] fix: a single multi-dimensional observation is not
 transposed into a sequence

---
 pykalman/standard.py  | 4 +++-
 pykalman/unscented.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index adadf11..cc711ea 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1644,6 +1644,8 @@ class KalmanFilter:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = np.ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        # a flat list of numbers is a sequence of one-dimensional observations,
+        # unless it has the size of one observation
+        if obs.shape[0] == 1 and obs.shape[1] > 1 and obs.shape[1] != self.n_dim_obs:
             obs = obs.T
         return obs
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index e4027a4..5fc7086 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -733,7 +733,9 @@ class UnscentedMixin:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        # a flat list of numbers is a sequence of one-dimensional observations,
+        # unless it has the size of one observation
+        if obs.shape[0] == 1 and obs.shape[1] > 1 and obs.shape[1] != self.n_dim_obs:
             obs = obs.T
         return obs
 
-- 
2.43.0


From 854ff1d098bfa5559b53a8c9d0d9f16fcf4fa4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 04/25] fix: loglikelihood honours a time-varying observation
 covariance

---
 pykalman/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index cc711ea..9af1599 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -171,6 +171,7 @@ def _loglikelihoods(
         if not np.any(np.ma.getmask(observation)):
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             predicted_state_mean = _last_dims(predicted_state_means, t, ndims=1)
             predicted_state_covariance = _last_dims(predicted_state_covariances, t)
 
@@ -182,7 +183,7 @@ def _loglikelihoods(
                     observation_matrix,
                     np.dot(predicted_state_covariance, observation_matrix.T),
                 )
-                + observation_covariance
+                + observation_covariance_t
             )
             lmnd_arr = log_multivariate_normal_density(
                 observation[np.newaxis, :],
-- 
2.43.0


From 24441080ea81eb6a86d3e59518639d7e8c0eee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 05/25] fix: sample uses the noise covariances of each time
 step

---
 pykalman/standard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 9af1599..0ade2a0 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1162,8 +1162,8 @@ class KalmanFilter:
             else:
                 transition_matrix = _last_dims(transition_matrices, t - 1)
                 transition_offset = _last_dims(transition_offsets, t - 1, ndims=1)
-                transition_covariance = _last_dims(transition_covariance, t - 1)
-                cov = newbyteorder(transition_covariance, "=")
+                transition_covariance_t = _last_dims(transition_covariance, t - 1)
+                cov = newbyteorder(transition_covariance_t, "=")
                 states[t] = (
                     np.dot(transition_matrix, states[t - 1])
                     + transition_offset
@@ -1172,12 +1172,12 @@ class KalmanFilter:
 
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
-            observation_covariance = _last_dims(observation_covariance, t)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             observations[t] = (
                 np.dot(observation_matrix, states[t])
                 + observation_offset
                 + rng.multivariate_normal(
-                    np.zeros(n_dim_obs), newbyteorder(observation_covariance, "=")
+                    np.zeros(n_dim_obs), newbyteorder(observation_covariance_t, "=")
                 )
             )
 
-- 
2.43.0


From 958e8e1247908aef5f777c43a9bbd3001646f947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 06/25] fix: integer covariances and observation matrices are
 not truncated by BiermanKalmanFilter

---
 pykalman/sqrt/bierman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index c9e35c8..cb6874d 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -72,7 +72,7 @@ def udu(M):
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-    M = np.triu(M)
+    M = np.triu(M).astype(float)
     U = np.eye(n)
     d = np.zeros(n)
     for j in reversed(range(2, n + 1)):
@@ -135,7 +135,7 @@ def decorrelate_observations(
     observation_covariance_inv = linalg.pinv(observation_covariance2)
 
     # decorrelate observation_matrices
-    observation_matrices2 = np.copy(observation_matrices)
+    observation_matrices2 = np.array(observation_matrices, dtype=float)
     if len(observation_matrices.shape) == DIM["observation_matrices"] + 1:
         n_timesteps = observation_matrices.shape[0]
         for t in range(n_timesteps):
-- 
2.43.0


From 82c40eb5cfbe4250f63841e40ff9db2d9426b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 07/25] fix: unscented filters use the function of each time
 step when given a list

---
 pykalman/sqrt/unscented.py | 10 +++++-----
 pykalman/unscented.py      | 26 ++++++++++++++++----------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 99f4508..2c009be 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -22,9 +22,9 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from ..standard import _arg_or_default, _last_dims
+from ..standard import _arg_or_default
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
-from ..unscented import Moments, SigmaPoints
+from ..unscented import Moments, SigmaPoints, _function_at
 from ..utils import array2d
 
 
@@ -457,14 +457,14 @@ def _additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma2_transition=Q2
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma2_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma2_observation=R2
         )
@@ -516,7 +516,7 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        transition_function = _last_dims(f, t, ndims=1)[0]
+        transition_function = _function_at(f, t)
         (points_pred, moments_pred) = _unscented_transform(
             points_state, transition_function, sigma2_noise=Q2
         )
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 5fc7086..b911997 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -35,6 +35,12 @@ SigmaPoints = namedtuple(
 Moments = namedtuple("Moments", ["mean", "covariance"])
 
 
+def _function_at(functions, t):
+    """Select the function of time step `t`; a single one applies to all steps."""
+    functions = _last_dims(functions, t, ndims=1)
+    return functions[t] if len(functions) > 1 else functions[0]
+
+
 def points2moments(points, sigma_noise=None):
     """Calculate estimated mean and covariance of sigma points.
 
@@ -452,13 +458,13 @@ def augmented_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (points_pred, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, points_transition=points_transition
             )
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function,
             moments_pred,
@@ -516,7 +522,7 @@ def augmented_unscented_smoother(mu_filt, sigma_filt, f, Q):
         )
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, points_noise=points_transition
         )
@@ -592,14 +598,14 @@ def additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma_transition=Q
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[x_t | z_{0:t}], Var(x_t | z_{0:t})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma_observation=R
         )
@@ -650,7 +656,7 @@ def additive_unscented_smoother(mu_filt, sigma_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, sigma_noise=Q
         )
@@ -849,12 +855,12 @@ class UnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1], transition_noise)
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t], observation_noise)
@@ -1165,12 +1171,12 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1]) + transition_noise
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t]) + observation_noise
-- 
2.43.0


From db6c3acfbbb862b5cfaa1516777b9e2ac90532f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 08/25] fix: newbyteorder converts values instead of
 reinterpreting their bytes

---
 pykalman/utils/_numpy.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pykalman/utils/_numpy.py b/pykalman/utils/_numpy.py
index c6521e4..3d97b74 100644
--- a/pykalman/utils/_numpy.py
+++ b/pykalman/utils/_numpy.py
@@ -1,9 +1,5 @@
 """Utility functions to handle numpy 2."""
 
-from skbase.utils.dependencies import _check_soft_dependencies
-
-numpy2 = _check_soft_dependencies("numpy>=2", severity="none")
-
 
 def newbyteorder(arr, new_order):
     """Change the byte order of an array.
@@ -20,7 +16,4 @@ def newbyteorder(arr, new_order):
     arr : ndarray
         Array with new byte order.
     """
-    if numpy2:
-        return arr.view(arr.dtype.newbyteorder(new_order))
-    else:
-        return arr.newbyteorder(new_order)
+    return arr.astype(arr.dtype.newbyteorder(new_order))
-- 
2.43.0


From 67b992c347c693ca7769ab99021ca615323c582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 09/25] fix: an invalid random state is refused with ValueError

---
 pykalman/utils/_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 1569372..3f86ddb 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -83,8 +83,8 @@ def check_random_state(seed):
     if isinstance(seed, np.random.RandomState):
         return seed
     raise ValueError(
-        "{0} cannot be used to seed a numpy.random.RandomState" + " instance"
-    ).format(seed)
+        f"{seed} cannot be used to seed a numpy.random.RandomState instance"
+    )
 
 
 class Bunch(dict):
-- 
2.43.0


From 6ca037221a76d954b68a5c1c84368c850ea52329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 10/25] fix: cholupdate handles singular factors, singular
 results and integer input

---
 pykalman/sqrt/unscented.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 2c009be..4ef0771 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -81,8 +81,8 @@ def cholupdate(A2, X, weight):
         end
     """
     # make copies
-    X = X.copy()
-    A2 = A2.copy()
+    X = np.array(X, dtype=float)
+    A2 = np.array(A2, dtype=float)
 
     # standardize input shape
     if len(X.shape) == 1:
@@ -96,8 +96,19 @@ def cholupdate(A2, X, weight):
     for i in range(n_vec):
         x = X[i, :]
         for k in range(n_dim):
+            if x[k] == 0:
+                continue
             r_squared = A2[k, k] ** 2 + sign * x[k] ** 2
-            r = 0.0 if r_squared < 0 else np.sqrt(r_squared)
+            if r_squared <= np.finfo(float).eps * A2[k, k] ** 2:
+                # the updated matrix is singular, nothing is left of this row
+                A2[k, k:] = 0.0
+                x[k:] = 0.0
+                continue
+            r = np.sqrt(r_squared)
+            if A2[k, k] == 0:
+                # rotate x into the place of a row without pivot
+                A2[k, k:], x[k:] = np.sign(x[k]) * x[k:], -A2[k, k:]
+                continue
             c = r / A2[k, k]
             s = x[k] / A2[k, k]
             A2[k, k] = r
-- 
2.43.0


From 36a4484ac8ed9f34416a4c786e822029c42abb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 11/25] fix: square-root points2moments honours the sign of
 negative weights

---
 pykalman/sqrt/unscented.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 4ef0771..1b923a5 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -145,15 +145,17 @@ def points2moments(points, sigma2_noise=None):
     mu = points.T.dot(weights_mu)
 
     # make points to perform QR factorization on. each column is one data point
-    qr_points = [
-        np.sign(weights_sigma)[np.newaxis, :]
-        * np.sqrt(np.abs(weights_sigma))[np.newaxis, :]
-        * (points.T - mu[:, np.newaxis])
-    ]
+    weighted_points = np.sqrt(np.abs(weights_sigma))[np.newaxis, :] * (
+        points.T - mu[:, np.newaxis]
+    )
+    negative = weights_sigma < 0
+    qr_points = [weighted_points[:, ~negative]]
     if sigma2_noise is not None:
         qr_points.append(sigma2_noise)
     sigma2 = qr(np.hstack(qr_points).T)
-    # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
+    # the center point has negative weight if there are more than 3 dimensions
+    if np.any(negative):
+        sigma2 = cholupdate(sigma2, weighted_points[:, negative].T, -1.0)
     return Moments(mu.ravel(), sigma2)
 
 
-- 
2.43.0


From b49e25e15d0f1feabc0d751880aef31ec05c4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 12/25] fix: square-root unscented smoother copes with steps
 that add no information

---
 pykalman/sqrt/unscented.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 1b923a5..31aa6ca 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -558,8 +558,14 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         mu_smooth[t] = mu_filt[t] + smoother_gain.dot(
             mu_smooth[t + 1] - moments_pred.mean
         )
-        U = cholupdate(moments_pred.covariance, sigma2_smooth[t + 1], -1.0)
-        sigma2_smooth[t] = cholupdate(sigma2_filt[t], smoother_gain.dot(U.T).T, -1.0)
+        # add the smoothed covariance before taking away the predicted one, as
+        # their difference may be singular
+        sigma2 = cholupdate(
+            sigma2_filt[t], sigma2_smooth[t + 1].dot(smoother_gain.T), 1.0
+        )
+        sigma2_smooth[t] = cholupdate(
+            sigma2, moments_pred.covariance.dot(smoother_gain.T), -1.0
+        )
 
     return (mu_smooth, sigma2_smooth)
 
-- 
2.43.0


From c1884abefece9389e6d0525ebc502e36387b7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 13/25] fix: square-root unscented filter adds correlated noise
 covariances correctly

---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 31aa6ca..1417e01 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -151,7 +151,7 @@ def points2moments(points, sigma2_noise=None):
     negative = weights_sigma < 0
     qr_points = [weighted_points[:, ~negative]]
     if sigma2_noise is not None:
-        qr_points.append(sigma2_noise)
+        qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
     # the center point has negative weight if there are more than 3 dimensions
     if np.any(negative):
-- 
2.43.0


From 03b594b4e25211342b8a92d6917411a0bf1352ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 14/25] fix: square-root unscented correction uses the
 observation factor the right way round

---
 pykalman/sqrt/unscented.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 1417e01..cb9ad6b 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -299,14 +299,14 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
         ##############################################
 
         # equivalent to this MATLAB code
-        # K = (cross_sigma / obs_sigma2_pred.T) / obs_sigma2_pred
-        K = linalg.lstsq(obs_sigma2_pred, cross_sigma.T)[0]
-        K = linalg.lstsq(obs_sigma2_pred.T, K)[0]
+        # K = (cross_sigma / obs_sigma2_pred) / obs_sigma2_pred.T
+        K = linalg.lstsq(obs_sigma2_pred.T, cross_sigma.T)[0]
+        K = linalg.lstsq(obs_sigma2_pred, K)[0]
         K = K.T
 
         # correct mu, sigma
         mu_filt = mu_pred + K.dot(z - obs_mu_pred)
-        U = K.dot(obs_sigma2_pred)
+        U = K.dot(obs_sigma2_pred.T)
         sigma2_filt = cholupdate(sigma2_pred, U.T, -1.0)
     else:
         # no corrections to be made
-- 
2.43.0


From aadcf475664b755b688483aaee635f92c5917412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 15/25] fix: keep covariances estimated by EM symmetric so that
 rounding does not grow over iterations

---
 pykalman/standard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 0ade2a0..ca5eed7 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -799,6 +799,7 @@ def _em_observation_covariance(
                 np.dot(smoothed_state_covariances[t], observation_matrix.T),
             )
             n_obs += 1
+    res = 0.5 * (res + res.T)  # rounding must not accumulate over iterations
     if n_obs > 0:
         return (1.0 / n_obs) * res
     else:
@@ -880,6 +881,7 @@ def _em_transition_covariance(
             - Vt1t_A.T
         )
 
+    res = 0.5 * (res + res.T)  # rounding must not accumulate over iterations
     if n_timesteps > 1:
         return (1.0 / (n_timesteps - 1)) * res
     else:
@@ -914,12 +916,13 @@ def _em_initial_state_covariance(
     """
     x0 = smoothed_state_means[0]
     x0_x0 = smoothed_state_covariances[0] + np.outer(x0, x0)
-    return (
+    res = (
         x0_x0
         - np.outer(initial_state_mean, x0)
         - np.outer(x0, initial_state_mean)
         + np.outer(initial_state_mean, initial_state_mean)
     )
+    return 0.5 * (res + res.T)  # rounding must not accumulate over iterations
 
 
 def _em_transition_offset(transition_matrices, smoothed_state_means):
-- 
2.43.0


From d14239d2c2e72735ad84bea9d16951d1c2814160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 16/25] fix: convert parameters in non-native byte order before
 they reach scipy.linalg

---
 pykalman/sqrt/cholesky.py  |  4 ++--
 pykalman/sqrt/unscented.py |  2 +-
 pykalman/standard.py       |  2 +-
 pykalman/unscented.py      |  2 +-
 pykalman/utils/_sklearn.py | 11 +++++++++--
 5 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index e0d5b7b..1bb1364 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -24,7 +24,7 @@ from ..standard import (
     _smooth,
     _smooth_pair,
 )
-from ..utils import get_params
+from ..utils import array2d, get_params
 
 
 def _reconstruct_covariances(covariance2s):
@@ -510,7 +510,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         transition_covariance2 = linalg.cholesky(transition_covariance, lower=True)
         observation_covariance2 = linalg.cholesky(observation_covariance, lower=True)
         filtered_state_covariance2 = linalg.cholesky(
-            filtered_state_covariance, lower=True
+            array2d(filtered_state_covariance), lower=True
         )
 
         # predict
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index cb9ad6b..c194fb7 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -755,7 +755,7 @@ class AdditiveUnscentedKalmanFilter(AUKF):
             observation = np.ma.asarray(observation)
 
         # preprocess covariance matrices
-        filtered_state_covariance2 = linalg.cholesky(filtered_state_covariance)
+        filtered_state_covariance2 = linalg.cholesky(array2d(filtered_state_covariance))
         transition_covariance2 = linalg.cholesky(transition_covariance)
         observation_covariance2 = linalg.cholesky(observation_covariance)
 
diff --git a/pykalman/standard.py b/pykalman/standard.py
index ca5eed7..43de8ef 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -49,7 +49,7 @@ def _arg_or_default(arg, default, dim, name):
     if arg is None:
         result = np.asarray(default)
     else:
-        result = arg
+        result = newbyteorder(arg, "=")
     if len(result.shape) > dim:
         raise ValueError(
             ("%s is not constant for all time." + "  You must specify it manually.")
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index b911997..03a3432 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -97,7 +97,7 @@ def moments2points(moments, alpha=None, beta=None, kappa=None):
         kappa = 3.0 - n_dim
 
     # compute sqrt(sigma)
-    sigma2 = linalg.cholesky(sigma).T
+    sigma2 = linalg.cholesky(array2d(sigma)).T
 
     # Calculate scaling factor for all off-center points
     lamda = (alpha * alpha) * (n_dim + kappa) - n_dim
diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 3f86ddb..f4c5860 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -36,15 +36,22 @@ import inspect
 import numpy as np
 from scipy import linalg
 
+from pykalman.utils._numpy import newbyteorder
+
+
+def _native(X):
+    """Return X in native byte order, the only one `scipy.linalg` can be relied on."""
+    return X if X.dtype.isnative else newbyteorder(X, "=")
+
 
 def array1d(X, dtype=None, order=None):
     """Return at least 1-d array with data from X."""
-    return np.asarray(np.atleast_1d(X), dtype=dtype, order=order)
+    return _native(np.asarray(np.atleast_1d(X), dtype=dtype, order=order))
 
 
 def array2d(X, dtype=None, order=None):
     """Return at least 2-d array with data from X."""
-    return np.asarray(np.atleast_2d(X), dtype=dtype, order=order)
+    return _native(np.asarray(np.atleast_2d(X), dtype=dtype, order=order))
 
 
 def log_multivariate_normal_density(X, means, covars, min_covar=1.0e-7):
-- 
2.43.0


From f52faa9aa2ec8de10251884cb8fa8f65f6ada8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 17/25] fix: copies of a data set container keep attribute
 access and items in step

copy.deepcopy of a Bunch had no attributes at all, and in a copied or
unpickled one attributes and items were unrelated.
---
 pykalman/utils/_sklearn.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index f4c5860..d18f2bc 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -102,7 +102,24 @@ class Bunch(dict):
 
     def __init__(self, **kwargs):
         dict.__init__(self, kwargs)
-        self.__dict__ = self
+
+    def __getattr__(self, key):
+        try:
+            return self[key]
+        except KeyError:
+            raise AttributeError(key) from None
+
+    def __setattr__(self, key, value):
+        self[key] = value
+
+    def __delattr__(self, key):
+        try:
+            del self[key]
+        except KeyError:
+            raise AttributeError(key) from None
+
+    def __dir__(self):
+        return list(super().__dir__()) + [key for key in self if isinstance(key, str)]
 
 
 def get_params(obj):
-- 
2.43.0


From a18fc5c479c54e2248817b2fa6cf1dbeb455c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 18/25] fix: refuse transition and covariance matrices that are
 not square

---
 pykalman/standard.py  | 4 ++++
 pykalman/unscented.py | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 43de8ef..9a7265d 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1085,10 +1085,13 @@ class KalmanFilter:
         n_dim_state = _determine_dimensionality(
             [
                 (transition_matrices, array2d, -2),
+                (transition_matrices, array2d, -1),
                 (transition_offsets, array1d, -1),
                 (transition_covariance, array2d, -2),
+                (transition_covariance, array2d, -1),
                 (initial_state_mean, array1d, -1),
                 (initial_state_covariance, array2d, -2),
+                (initial_state_covariance, array2d, -1),
                 (observation_matrices, array2d, -1),
             ],
             n_dim_state,
@@ -1098,6 +1101,7 @@ class KalmanFilter:
                 (observation_matrices, array2d, -2),
                 (observation_offsets, array1d, -1),
                 (observation_covariance, array2d, -2),
+                (observation_covariance, array2d, -1),
             ],
             n_dim_obs,
         )
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 03a3432..6fe6e60 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -700,13 +700,19 @@ class UnscentedMixin:
         n_dim_state = _determine_dimensionality(
             [
                 (transition_covariance, array2d, -2),
+                (transition_covariance, array2d, -1),
                 (initial_state_covariance, array2d, -2),
+                (initial_state_covariance, array2d, -1),
                 (initial_state_mean, array1d, -1),
             ],
             n_dim_state,
         )
         n_dim_obs = _determine_dimensionality(
-            [(observation_covariance, array2d, -2)], n_dim_obs
+            [
+                (observation_covariance, array2d, -2),
+                (observation_covariance, array2d, -1),
+            ],
+            n_dim_obs,
         )
 
         # set parameters
-- 
2.43.0


From 2fddbcf3fb8b4f750295e52658cf85f0556dce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 19/25] fix: smooth accurately when the covariance of a
 predicted state is singular

---
 pykalman/standard.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 9a7265d..7052c3c 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -476,10 +476,13 @@ def _smooth_update(
     kalman_smoothing_gain : [n_dim_state, n_dim_state] array
         correction matrix for Kalman Smoothing at time t
     """
-    kalman_smoothing_gain = np.dot(
-        filtered_state_covariance,
-        np.dot(transition_matrix.T, linalg.pinv(predicted_state_covariance)),
-    )
+    # solve for the gain instead of multiplying by an explicit pseudo-inverse: when
+    # the predicted covariance is singular, entries of the latter can be so large
+    # that rounding errors in the product swamp the gain
+    kalman_smoothing_gain = linalg.lstsq(
+        predicted_state_covariance,
+        np.dot(transition_matrix, filtered_state_covariance),
+    )[0].T
 
     smoothed_state_mean = filtered_state_mean + np.dot(
         kalman_smoothing_gain, next_smoothed_state_mean - predicted_state_mean
-- 
2.43.0


From 6baf404c32e9a6716ce1788d45fe680b16a62198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 20/25] fix: accept a number as one-dimensional observation in
 the square-root filter_update

---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index cb6874d..6f77297 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -667,7 +667,7 @@ class BiermanKalmanFilter(KalmanFilter):
             observation = np.ma.array(np.zeros(n_dim_obs))
             observation.mask = True
         else:
-            observation = np.ma.asarray(observation)
+            observation = np.ma.atleast_1d(np.ma.asarray(observation))
 
         # transform filtered_state_covariance into its UDU decomposition
         filtered_state_covariance = udu(filtered_state_covariance)
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 1bb1364..ed322d4 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -504,7 +504,7 @@ class CholeskyKalmanFilter(KalmanFilter):
             observation = np.ma.array(np.zeros(n_dim_obs))
             observation.mask = True
         else:
-            observation = np.ma.asarray(observation)
+            observation = np.ma.atleast_1d(np.ma.asarray(observation))
 
         # turn covariance into cholesky factorizations
         transition_covariance2 = linalg.cholesky(transition_covariance, lower=True)
-- 
2.43.0


From 758044b57500d688d3c92f083550a30ac567b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 21/25] fix: refuse observations, states and covariances of the
 wrong size instead of broadcasting them

---
 pykalman/sqrt/cholesky.py  |  2 ++
 pykalman/sqrt/unscented.py |  5 ++++-
 pykalman/standard.py       |  8 ++++++++
 pykalman/unscented.py      | 13 ++++++++++++-
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index ed322d4..61945e2 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -18,6 +18,7 @@ from ..standard import (
     DIM,
     KalmanFilter,
     _arg_or_default,
+    _check_size,
     _em,
     _last_dims,
     _loglikelihoods,
@@ -156,6 +157,7 @@ def _filter_correct(
         # extract size of state space
         n_dim_state = len(predicted_state_mean)
         n_dim_obs = len(observation)
+        _check_size(observation, observation_matrix.shape[0], "observation")
 
         # construct matrix M = [    R^{1/2}^{T},            0;
         #                       (C S_{t|t-1})^T,  S_{t|t-1}^T]
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index c194fb7..130ef1e 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -22,7 +22,7 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from ..standard import _arg_or_default
+from ..standard import _arg_or_default, _check_size
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
 from ..unscented import Moments, SigmaPoints, _function_at
 from ..utils import array2d
@@ -192,6 +192,7 @@ def moments2points(moments, alpha=None, beta=None, kappa=None):
 
     # just because I saw it in the MATLAB implementation
     sigma2 = sigma2.T
+    _check_size(sigma2, n_dim * n_dim, "covariance")
 
     # Calculate scaling factor for all off-center points
     lamda = (alpha * alpha) * (n_dim + kappa) - n_dim
@@ -288,6 +289,8 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
     obs_mu_pred, obs_sigma2_pred = obs_moments_pred
 
     if not np.any(ma.getmask(z)):
+        _check_size(z, len(obs_mu_pred), "observation")
+
         ##############################################
         # Same as this, but more stable (supposedly) #
         ##############################################
diff --git a/pykalman/standard.py b/pykalman/standard.py
index 7052c3c..97e17a4 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -58,6 +58,12 @@ def _arg_or_default(arg, default, dim, name):
     return result
 
 
+def _check_size(value, size, name):
+    """Refuse a value that numpy would silently broadcast to the expected size."""
+    if np.size(value) != size:
+        raise ValueError(f"{name} has {np.size(value)} components instead of {size}")
+
+
 def _determine_dimensionality(variables, default):
     """Derive the dimensionality of the state space.
 
@@ -283,6 +289,7 @@ def _filter_correct(
         [0...t]
     """
     if not np.any(np.ma.getmask(observation)):
+        _check_size(observation, observation_matrix.shape[0], "observation")
         predicted_observation_mean = (
             np.dot(observation_matrix, predicted_state_mean) + observation_offset
         )
@@ -1168,6 +1175,7 @@ class KalmanFilter:
         # logic for generating samples
         for t in range(n_timesteps):
             if t == 0:
+                _check_size(initial_state, n_dim_state, "initial_state")
                 states[t] = initial_state
             else:
                 transition_matrix = _last_dims(transition_matrices, t - 1)
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 6fe6e60..82f8dcb 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -14,7 +14,12 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from .standard import _arg_or_default, _determine_dimensionality, _last_dims
+from .standard import (
+    _arg_or_default,
+    _check_size,
+    _determine_dimensionality,
+    _last_dims,
+)
 from .utils import (
     array1d,
     array2d,
@@ -98,6 +103,7 @@ def moments2points(moments, alpha=None, beta=None, kappa=None):
 
     # compute sqrt(sigma)
     sigma2 = linalg.cholesky(array2d(sigma)).T
+    _check_size(sigma2, n_dim * n_dim, "covariance")
 
     # Calculate scaling factor for all off-center points
     lamda = (alpha * alpha) * (n_dim + kappa) - n_dim
@@ -199,6 +205,8 @@ def unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
     obs_mu_pred, obs_sigma_pred = obs_moments_pred
 
     if not np.any(ma.getmask(z)):
+        _check_size(z, len(obs_mu_pred), "observation")
+
         # calculate Kalman gain
         K = cross_sigma.dot(linalg.pinv(obs_sigma_pred))
 
@@ -285,6 +293,7 @@ def augmented_unscented_filter_points(
     # get sizes of dimensions
     n_dim_state = covariance_state.shape[0]
     n_dim_obs = covariance_observation.shape[0]
+    _check_size(mean_state, n_dim_state, "mean")
 
     # extract sigma points using augmented representation
     state_moments = Moments(mean_state, covariance_state)
@@ -859,6 +868,7 @@ class UnscentedKalmanFilter(UnscentedMixin):
         z = np.zeros((n_timesteps, n_dim_obs))
         for t in range(n_timesteps):
             if t == 0:
+                _check_size(initial_state, n_dim_state, "initial_state")
                 x[0] = initial_state
             else:
                 transition_func = _function_at(transition_functions, t - 1)
@@ -1175,6 +1185,7 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
         z = np.zeros((n_timesteps, n_dim_obs))
         for t in range(n_timesteps):
             if t == 0:
+                _check_size(initial_state, n_dim_state, "initial_state")
                 x[0] = initial_state
             else:
                 transition_func = _function_at(transition_functions, t - 1)
-- 
2.43.0


From 712b5d535ada3445e370667fab0c080a64edfc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 22/25] fix: evaluate user functions on copies, so that they
 may change their arguments or reuse their result array

---
 pykalman/sqrt/unscented.py |  8 +++++---
 pykalman/unscented.py      | 22 ++++++++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 130ef1e..2f7670e 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -24,7 +24,7 @@ from scipy import linalg
 
 from ..standard import _arg_or_default, _check_size
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
-from ..unscented import Moments, SigmaPoints, _function_at
+from ..unscented import Moments, SigmaPoints, _evaluate, _function_at
 from ..utils import array2d
 
 
@@ -246,9 +246,11 @@ def _unscented_transform(points, f=None, points_noise=None, sigma2_noise=None):
     # propagate points through f.  Each column is a sample point
     if f is not None:
         if points_noise is None:
-            points_pred = [f(points[i]) for i in range(n_points)]
+            points_pred = [_evaluate(f, points[i]) for i in range(n_points)]
         else:
-            points_pred = [f(points[i], points_noise[i]) for i in range(n_points)]
+            points_pred = [
+                _evaluate(f, points[i], points_noise[i]) for i in range(n_points)
+            ]
     else:
         points_pred = points
 
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 82f8dcb..cd2129b 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -46,6 +46,14 @@ def _function_at(functions, t):
     return functions[t] if len(functions) > 1 else functions[0]
 
 
+def _evaluate(f, *args):
+    """Apply a user's function to copies of `args` and copy its result.
+
+    The function may change its arguments, or return one array again and again.
+    """
+    return np.array(f(*[np.array(arg) for arg in args]))
+
+
 def points2moments(points, sigma_noise=None):
     """Calculate estimated mean and covariance of sigma points.
 
@@ -161,10 +169,12 @@ def unscented_transform(points, f=None, points_noise=None, sigma_noise=None):
     # propagate points through f
     if f is not None:
         if points_noise is None:
-            points_pred = [f(points[i]) for i in range(n_points)]
+            points_pred = [_evaluate(f, points[i]) for i in range(n_points)]
         else:
             points_noise = points_noise.points
-            points_pred = [f(points[i], points_noise[i]) for i in range(n_points)]
+            points_pred = [
+                _evaluate(f, points[i], points_noise[i]) for i in range(n_points)
+            ]
     else:
         points_pred = points
 
@@ -874,12 +884,12 @@ class UnscentedKalmanFilter(UnscentedMixin):
                 transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
-                x[t] = transition_func(x[t - 1], transition_noise)
+                x[t] = _evaluate(transition_func, x[t - 1], transition_noise)
 
             observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
-            z[t] = observation_function(x[t], observation_noise)
+            z[t] = _evaluate(observation_function, x[t], observation_noise)
 
         return (x, ma.asarray(z))
 
@@ -1191,12 +1201,12 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
                 transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
-                x[t] = transition_func(x[t - 1]) + transition_noise
+                x[t] = _evaluate(transition_func, x[t - 1]) + transition_noise
 
             observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
-            z[t] = observation_function(x[t]) + observation_noise
+            z[t] = _evaluate(observation_function, x[t]) + observation_noise
 
         return (x, ma.asarray(z))
 
-- 
2.43.0


From 8b86d209da84ad57f8e1f8f3fedf9889c318cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 23/25] fix: accept an array of names as em_vars

---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 pykalman/standard.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 6f77297..b4da9ec 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -818,7 +818,7 @@ class BiermanKalmanFilter(KalmanFilter):
         if em_vars is None:
             em_vars = DEFAULT_EM_VARS
 
-        if em_vars == "all":
+        if isinstance(em_vars, str) and em_vars == "all":
             given = {}
         else:
             given = {
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 61945e2..5204382 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -651,7 +651,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         if em_vars is None:
             em_vars = DEFAULT_EM_VARS
 
-        if em_vars == "all":
+        if isinstance(em_vars, str) and em_vars == "all":
             given = {}
         else:
             given = {
diff --git a/pykalman/standard.py b/pykalman/standard.py
index 97e17a4..d7ee7ce 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1472,7 +1472,7 @@ class KalmanFilter:
         if em_vars is None:
             em_vars = DEFAULT_EM_VARS
 
-        if em_vars == "all":
+        if isinstance(em_vars, str) and em_vars == "all":
             given = {}
         else:
             given = {
-- 
2.43.0


From 7a6ab9910250a57fb3c5d7007d92257c96e64dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 24/25] fix: treat integer parameters as floating point
 numbers, and filter_update's as array_like

---
 pykalman/standard.py       | 4 +++-
 pykalman/utils/_sklearn.py | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index d7ee7ce..0bf3211 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -49,7 +49,9 @@ def _arg_or_default(arg, default, dim, name):
     if arg is None:
         result = np.asarray(default)
     else:
-        result = newbyteorder(arg, "=")
+        result = newbyteorder(np.asarray(arg), "=")
+        if result.dtype.kind in "biu":
+            result = result.astype(float)
     if len(result.shape) > dim:
         raise ValueError(
             ("%s is not constant for all time." + "  You must specify it manually.")
diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index d18f2bc..5fa7427 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -40,7 +40,13 @@ from pykalman.utils._numpy import newbyteorder
 
 
 def _native(X):
-    """Return X in native byte order, the only one `scipy.linalg` can be relied on."""
+    """Return X as `scipy.linalg` can be relied on to treat it.
+
+    Integers become floating point numbers, so that no sum or product overflows, and
+    other values get the native byte order.
+    """
+    if X.dtype.kind in "biu":
+        return X.astype(float)
     return X if X.dtype.isnative else newbyteorder(X, "=")
 
 
-- 
2.43.0


From f2b64df8ae681f99feb576abade3b5ffb62ae889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:38 +0000
Subject: [PATCH 25/25] fix: keep the masks of observations collected in a list

np.ma.atleast_2d drops the masks of a list of masked arrays (and refuses
the constant np.ma.masked), so missing observations were used.
---
 pykalman/standard.py  | 2 +-
 pykalman/unscented.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 0bf3211..cf9036f 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1664,7 +1664,7 @@ class KalmanFilter:
 
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
-        obs = np.ma.atleast_2d(obs)
+        obs = np.ma.atleast_2d(np.ma.asarray(obs))
         # a flat list of numbers is a sequence of one-dimensional observations,
         # unless it has the size of one observation
         if obs.shape[0] == 1 and obs.shape[1] > 1 and obs.shape[1] != self.n_dim_obs:
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index cd2129b..b9bc8d8 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -763,7 +763,7 @@ class UnscentedMixin:
 
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
-        obs = ma.atleast_2d(obs)
+        obs = ma.atleast_2d(ma.asarray(obs))
         # a flat list of numbers is a sequence of one-dimensional observations,
         # unless it has the size of one observation
         if obs.shape[0] == 1 and obs.shape[1] > 1 and obs.shape[1] != self.n_dim_obs:
-- 
2.43.0

