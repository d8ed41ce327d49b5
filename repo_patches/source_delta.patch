From 62f3fe28d609b64050659a6c0c98152d9c4cdb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 01/16] fix: carry the last level of diff=True estimators
 through get_state/set_state

get_state dropped the previous observation that a differencing estimator needs, so a
restored stream lost one difference (and a reused instance differenced against a stale
level).
---
 precise/base.py             | 22 +++++++++++++++++++---
 precise/block_covariance.py |  7 ++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index c06fff5..c1915bc 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -140,14 +140,30 @@ class BaseOnlineCovariance:
     def get_state(self) -> dict | None:
         """Return the current state as a plain, JSON-friendly dict (or None if unfitted)."""
         if self._state is None:
-            return None
-        return {
+            return self._with_prev_x(None)
+        return self._with_prev_x({
             k: (v.tolist() if isinstance(v, np.ndarray) else v)
             for k, v in self._state.items()
-        }
+        })
+
+    def _with_prev_x(self, state: dict | None) -> dict | None:
+        """Add the last level seen by a ``diff=True`` estimator to a serialized state."""
+        if self._prev_x is None:
+            return state
+        return {**(state or {}), "prev_x": self._prev_x.tolist()}
+
+    def _take_prev_x(self, state: dict | None) -> dict | None:
+        """Inverse of :meth:`_with_prev_x`: restore the level, return the remaining state."""
+        self._prev_x = None
+        if state is None or state.get("prev_x") is None:
+            return state
+        self._prev_x = np.array(state["prev_x"], dtype=float)
+        rest = {k: v for k, v in state.items() if k != "prev_x"}
+        return rest or None
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
         """Restore state previously produced by :meth:`get_state`."""
+        state = self._take_prev_x(state)
         if state is None:
             self._state = None
             self.n_features_in_ = None
diff --git a/precise/block_covariance.py b/precise/block_covariance.py
index 90f4253..f1e06ad 100644
--- a/precise/block_covariance.py
+++ b/precise/block_covariance.py
@@ -93,9 +93,9 @@ class BlockCovariance(BaseOnlineCovariance):
     # explicitly to flat JSON rather than relying on the base list/array coercion.
     def get_state(self) -> dict | None:
         if self._state is None:
-            return None
+            return self._with_prev_x(None)
         s = self._state
-        return {
+        return self._with_prev_x({
             "n_dim": int(s["n_dim"]),
             "n_samples": int(s["n_samples"]),
             "r": float(s["r"]),
@@ -103,9 +103,10 @@ class BlockCovariance(BaseOnlineCovariance):
             "slices": [[int(a), int(b)] for a, b in s["slices"]],
             "block_means": [np.asarray(sub["mean"], dtype=float).tolist() for sub in s["subs"]],
             "block_covs": [np.asarray(sub["cov"], dtype=float).tolist() for sub in s["subs"]],
-        }
+        })
 
     def set_state(self, state: dict | None) -> BaseOnlineCovariance:
+        state = self._take_prev_x(state)
         if state is None:
             self._state = None
             self.n_features_in_ = None
-- 
2.43.0


From 30ba26cb658e30c368e275d0517fef1f7f574c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 02/16] fix: diff=True keeps its own copy of the previous
 observation

_prev_x was a view of the caller's buffer, so a caller refilling one array in place
made every later difference zero.
---
 precise/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index c1915bc..7ee4b61 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -53,9 +53,9 @@ class BaseOnlineCovariance:
         for x in as_rows(X):
             if use_diff:
                 if self._prev_x is None:
-                    self._prev_x = x
+                    self._prev_x = x.copy()
                     continue
-                x, self._prev_x = x - self._prev_x, x
+                x, self._prev_x = x - self._prev_x, x.copy()
             if self._state is None:
                 self.n_features_in_ = len(x)
                 self._state = self._init_state(len(x))
-- 
2.43.0


From b47c11aa9bc3b4074bddfc909c802f23758641e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 03/16] fix: location_ returns a copy of the running mean

It handed out the internal array, so writing to the result corrupted the estimator.
---
 precise/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precise/base.py b/precise/base.py
index 7ee4b61..5602df2 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -86,7 +86,7 @@ class BaseOnlineCovariance:
 
     @property
     def location_(self) -> np.ndarray:
-        return np.asarray(self._state_to_mean(self._fitted_state()), dtype=float)
+        return np.array(self._state_to_mean(self._fitted_state()), dtype=float)
 
     @property
     def covariance_(self) -> np.ndarray:
-- 
2.43.0


From f1fa2b4fa57e4ab5f9ab48cce97d4927c7a7bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 04/16] fix: fit validates its input before discarding the
 fitted state

---
 precise/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index 5602df2..aa3f397 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -64,11 +64,11 @@ class BaseOnlineCovariance:
 
     def fit(self, X, y=None) -> BaseOnlineCovariance:
         """Reset and fit on a 2d batch ``X`` (sklearn drop-in)."""
-        self._state = None
-        self._prev_x = None
         arr = np.asarray(X, dtype=float)
         if arr.ndim != 2:
             raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
+        self._state = None
+        self._prev_x = None
         return self.partial_fit(arr)
 
     def _fitted_state(self) -> dict:
-- 
2.43.0


From 736fa703091756278b95cfe0e606e799608546a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 05/16] fix: reject observations whose width differs from the
 fitted number of features

A one-element observation was broadcast across all features, silently changing the
estimate; other widths failed half-way through a batch.
---
 precise/base.py        | 19 ++++++++++++++++---
 precise/conditional.py |  3 +--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/precise/base.py b/precise/base.py
index aa3f397..44008d8 100644
--- a/precise/base.py
+++ b/precise/base.py
@@ -50,7 +50,7 @@ class BaseOnlineCovariance:
     def partial_fit(self, X, y=None) -> BaseOnlineCovariance:
         """Update the estimate with one observation (1d) or a batch of rows (2d)."""
         use_diff = getattr(self, "diff", False)
-        for x in as_rows(X):
+        for x in self._as_rows(X):
             if use_diff:
                 if self._prev_x is None:
                     self._prev_x = x.copy()
@@ -69,8 +69,21 @@ class BaseOnlineCovariance:
             raise ValueError("fit expects a 2d array of shape (n_samples, n_features).")
         self._state = None
         self._prev_x = None
+        self.n_features_in_ = None
         return self.partial_fit(arr)
 
+    def _as_rows(self, X) -> np.ndarray:
+        """Rows of ``X``, checked against the number of features seen so far."""
+        rows = as_rows(X)
+        expected = self.n_features_in_
+        if expected is None and self._prev_x is not None:
+            expected = len(self._prev_x)
+        if expected is not None and rows.shape[1] != expected:
+            raise ValueError(
+                f"Expected observations with {expected} features, got {rows.shape[1]}."
+            )
+        return rows
+
     def _fitted_state(self) -> dict:
         if self._state is None or self._state.get("n_samples", 0) < 1:
             raise NotFittedError(
@@ -107,14 +120,14 @@ class BaseOnlineCovariance:
     # ----------------------------------------------------------- scoring
     def mahalanobis(self, X) -> np.ndarray:
         """Squared Mahalanobis distance of each row of ``X`` from ``location_``."""
-        rows = as_rows(X)
+        rows = self._as_rows(X)
         prec = self.precision_
         centered = rows - self.location_
         return np.einsum("ij,jk,ik->i", centered, prec, centered)
 
     def score(self, X, y=None) -> float:
         """Mean Gaussian log-likelihood of the rows of ``X`` under the fitted estimate."""
-        rows = as_rows(X)
+        rows = self._as_rows(X)
         prec = self.precision_
         _, logdet = np.linalg.slogdet(prec)
         p = rows.shape[1]
diff --git a/precise/conditional.py b/precise/conditional.py
index f0d7149..4957efb 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -23,7 +23,6 @@ from __future__ import annotations
 
 import numpy as np
 
-from precise._conventions import as_rows
 from precise.base import BaseOnlineCovariance
 from precise.ewa import EwaCovariance
 
@@ -131,7 +130,7 @@ class ConditionalCovariance(BaseOnlineCovariance):
         raise TypeError("vol must be a positional estimator instance or a from_skater(...) factory")
 
     def partial_fit(self, X, y=None) -> ConditionalCovariance:
-        for x in as_rows(X):
+        for x in self._as_rows(X):
             if self._state is None:
                 d = len(x)
                 self.n_features_in_ = d
-- 
2.43.0


From 51c1aa0c1c53eb259260a08f47c278c7155f01d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 06/16] fix: cov_to_corrcoef gives a unit diagonal at every
 scale

The additive 1e-12 in the denominator shrank correlations of small-variance series
(1e-6 standard deviations gave a diagonal of 0.5).
---
 precise/_linalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index aba34d2..fcb9d86 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -21,9 +21,11 @@ def to_symmetric(a: np.ndarray) -> np.ndarray:
 
 def cov_to_corrcoef(a: np.ndarray) -> np.ndarray:
     """Normalize a covariance matrix to a correlation matrix (unit diagonal)."""
-    variances = np.diagonal(a)
-    denominator = np.sqrt(variances[np.newaxis, :] * variances[:, np.newaxis]) + EPS
-    return a / denominator
+    sd = np.sqrt(np.diagonal(a))
+    denominator = np.outer(sd, sd)
+    corr = np.divide(a, denominator, out=np.zeros_like(denominator), where=denominator != 0)
+    np.fill_diagonal(corr, 1.0)
+    return corr
 
 
 def is_positive_def(a: np.ndarray) -> bool:
-- 
2.43.0


From e7cb9b1081154ae3c4befa80cad544c904b0d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 07/16] fix: constant-correlation target of near-constant
 series stays positive semi-definite

Flooring the standard deviations at 1e-6 while keeping the true variances on the
diagonal gave implied correlations above one for series with smaller variance.
---
 precise/shrunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/precise/shrunk.py b/precise/shrunk.py
index be3d17b..8ad1fd8 100644
--- a/precise/shrunk.py
+++ b/precise/shrunk.py
@@ -12,6 +12,7 @@ from __future__ import annotations
 
 import numpy as np
 
+from precise._linalg import cov_to_corrcoef
 from precise._state import ewa_init, ewa_update
 from precise.base import BaseOnlineCovariance
 
@@ -50,8 +51,8 @@ class ShrunkCovariance(BaseOnlineCovariance):
         if self.target == "identity":
             target = (np.trace(S) / p) * np.eye(p)
         else:  # constant_correlation
-            d = np.sqrt(np.maximum(np.diag(S), 1e-12))
-            corr = S / np.outer(d, d)
+            d = np.sqrt(np.diag(S))
+            corr = cov_to_corrcoef(S)
             off = corr[~np.eye(p, dtype=bool)]
             rbar = float(np.mean(off)) if off.size else 0.0
             target = rbar * np.outer(d, d)
-- 
2.43.0


From 99590099a428c91fad1990775a1183de2e50a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 08/16] fix: Tyler ignores zero deviations instead of
 collapsing to NaN

An all-zero first observation (or r=1 and a repeat of the mean) gave a zero shape
matrix, and 0/0 in its normalisation made the estimate NaN for ever.
---
 precise/tyler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/precise/tyler.py b/precise/tyler.py
index 356b434..ad87ca2 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -51,6 +51,8 @@ class TylerCovariance(BaseOnlineCovariance):
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
         dev = x - s["mean"]
         C = np.asarray(s["C"], dtype=float)
+        if not np.any(dev):  # a zero deviation has no direction: the shape is unchanged
+            return {**s, "n_samples": n, "mean": mean}
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
         C = p * C / np.trace(C)  # fix the scale: trace == p
-- 
2.43.0


From 9ff61e82b931db780ebf58c3eab90c7e717260cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 09/16] fix: the first observation is not an innovation from a
 zero mean

Diagonal, DCC, Factor, PartialMoments and Tyler scored their first observation against
the zero vector their mean is initialised to, so the level of the data (squared) leaked
into the variances and directions: adding 100 to a unit-variance stream gave variances
in the thousands.
---
 precise/dcc.py            | 5 +++--
 precise/diagonal.py       | 5 +++--
 precise/factor.py         | 3 ++-
 precise/partialmoments.py | 3 ++-
 precise/tyler.py          | 3 ++-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/precise/dcc.py b/precise/dcc.py
index e84fa52..3e4aa34 100644
--- a/precise/dcc.py
+++ b/precise/dcc.py
@@ -42,10 +42,11 @@ class DCCCovariance(BaseOnlineCovariance):
         p = s["n_dim"]
         n = s["n_samples"] + 1
         r, rv, n_burn = s["r"], s["vol_r"], s["n_burn"]
-        dev = x - s["mean"]  # innovation about the prior mean
+        # Innovation about the prior mean; the first observation has no prior mean.
+        dev = x - s["mean"] if n > 1 else np.zeros(p)
 
         if n <= n_burn:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             h = s["h"] + (dev * dev - s["h"]) / n
         else:
             mean = (1 - rv) * s["mean"] + rv * x
diff --git a/precise/diagonal.py b/precise/diagonal.py
index e6c9fd3..78230f0 100644
--- a/precise/diagonal.py
+++ b/precise/diagonal.py
@@ -37,10 +37,11 @@ class DiagonalCovariance(BaseOnlineCovariance):
 
     def _update_state(self, s: dict, x: np.ndarray) -> dict:
         n = s["n_samples"] + 1
-        dev = x - s["mean"]
+        # Innovation about the prior mean; the first observation has no prior mean.
+        dev = x - s["mean"] if n > 1 else np.zeros(s["n_dim"])
         sq = dev * dev
         if n <= s["n_burn"]:
-            mean = s["mean"] + dev / n
+            mean = s["mean"] + (x - s["mean"]) / n
             var = s["var"] + (sq - s["var"]) / n
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
diff --git a/precise/factor.py b/precise/factor.py
index e859784..df741db 100644
--- a/precise/factor.py
+++ b/precise/factor.py
@@ -45,7 +45,8 @@ class FactorCovariance(BaseOnlineCovariance):
         n = s["n_samples"] + 1
         r, k, n_burn = s["r"], s["k"], s["n_burn"]
 
-        dev = x - s["mean"]
+        # Innovation about the prior mean; the first observation has no prior mean.
+        dev = x - s["mean"] if n > 1 else np.zeros(s["n_dim"])
         sq = dev * dev
         if n <= n_burn:
             # Sample-mean learning rate / empirical accumulation while warming up.
diff --git a/precise/partialmoments.py b/precise/partialmoments.py
index 1884b50..063a1c5 100644
--- a/precise/partialmoments.py
+++ b/precise/partialmoments.py
@@ -48,7 +48,8 @@ class PartialMomentsCovariance(BaseOnlineCovariance):
             mean = s["mean"] + (x - s["mean"]) / count
         else:
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        centered = x - s["mean"]
+        # Innovation about the prior mean; the first observation has no prior mean.
+        centered = x - s["mean"] if count > 1 else np.zeros(s["n_dim"])
 
         prev = np.asarray(s["quadrants"], dtype=float)
         quadrants = np.empty_like(prev)
diff --git a/precise/tyler.py b/precise/tyler.py
index ad87ca2..2aed754 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -49,7 +49,8 @@ class TylerCovariance(BaseOnlineCovariance):
         else:
             lr = s["r"]
             mean = (1 - s["r"]) * s["mean"] + s["r"] * x
-        dev = x - s["mean"]
+        # Innovation about the prior mean; the first observation has no prior mean.
+        dev = x - s["mean"] if n > 1 else np.zeros(p)
         C = np.asarray(s["C"], dtype=float)
         if not np.any(dev):  # a zero deviation has no direction: the shape is unchanged
             return {**s, "n_samples": n, "mean": mean}
-- 
2.43.0


From 9fb42bfb6ec65259f222c402d533ab52a386aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 10/16] fix: nearest_pos_def of a zero matrix has a finite
 inverse

---
 precise/_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/precise/_linalg.py b/precise/_linalg.py
index fcb9d86..41f0c87 100644
--- a/precise/_linalg.py
+++ b/precise/_linalg.py
@@ -49,7 +49,8 @@ def nearest_pos_def(a: np.ndarray) -> np.ndarray:
     if is_positive_def(a3):
         return a3
 
-    spacing = np.spacing(np.linalg.norm(a))
+    # Never denormal: the inverse of the result must be representable, even for a zero matrix.
+    spacing = max(np.spacing(np.linalg.norm(a)), np.finfo(float).tiny)
     identity = np.eye(a.shape[0])
     k = 1
     while not is_positive_def(a3):
-- 
2.43.0


From da3f6670a45dc7baa9fee82eceb4d44a2b2ca3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 11/16] fix: ConditionalCovariance does not standardize by a
 missing variance forecast

A one-observation volatility model forecasts zero variance, so the second residual was
divided by the 1e-6 floor and pinned every correlation at +-1 for hundreds of
observations; the first was scored against a made-up N(0, 1) forecast.
---
 precise/conditional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/precise/conditional.py b/precise/conditional.py
index 4957efb..d4766e5 100644
--- a/precise/conditional.py
+++ b/precise/conditional.py
@@ -141,8 +141,11 @@ class ConditionalCovariance(BaseOnlineCovariance):
             assert models is not None and self._corr_model is not None
             # One-step-ahead standardization: use the forecast made before seeing x.
             m = np.array([vm.mean for vm in models])
-            v = np.array([max(vm.variance, 1e-12) for vm in models])
-            eps = (x - m) / np.sqrt(v)
+            v = np.array([vm.variance for vm in models])
+            # A series without a usable forecast yet (nothing seen, or no variation) carries no
+            # standardized information; dividing by a floor instead would swamp the correlation.
+            known = (v > 1e-12) & (self._state["n_samples"] > 0)
+            eps = np.where(known, (x - m) / np.sqrt(np.where(known, v, 1.0)), 0.0)
             self._corr_model.partial_fit(eps)
             for i, vm in enumerate(models):
                 vm.push(float(x[i]))
-- 
2.43.0


From a2ec55e9febfc5340a8827981e16e91ff4687d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 12/16] fix: DynamicUniverse never evicts the universe it has
 just created

With max_universes reached and every older universe still fresh, the new one had the
lowest longevity and was evicted on creation, so a newly entered name was never tracked.
---
 precise/keyed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 8db2f31..5163373 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -240,9 +240,11 @@ class DynamicUniverse(_KeyedAdapter):
             fresh = _Universe(keys=x.keys(), factory=self._make)
             fresh.update(x)
             self._add_universe(fresh)
-            if len(self.states) > self.max_universes:
+            if len(self.states) > max(1, self.max_universes):
+                # Never the universe just created: its names could otherwise never enter.
                 victim = sorted(
-                    self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)
+                    ((n, u) for n, u in self.states.items() if u is not fresh),
+                    key=lambda kv: (-kv[1].staleness, kv[1].longevity),
                 )[0][0]
                 del self.states[victim]
         return self
-- 
2.43.0


From 248c7186af6dfd2c8bb63f0d514ea965d48cea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 13/16] fix: exporting the trained recommender truncated the
 class fractions of every mixed leaf to zero

---
 research/train_recommender.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/research/train_recommender.py b/research/train_recommender.py
index 12976b7..43d61e2 100644
--- a/research/train_recommender.py
+++ b/research/train_recommender.py
@@ -54,6 +54,7 @@ def generate(n_problems=800, seed=0):
 
 def export(clf, mean, std):
     t = clf.tree_
+    # ``tree_.value`` holds fractions since scikit-learn 1.3: int() would zero every mixed leaf.
     docstring = (
         '"""Frozen recommender model (auto-generated by research/train_recommender.py).\n'
         "Numpy-only decision tree walked by precise.suggest; do not edit by hand.\n"
@@ -66,12 +67,12 @@ def export(clf, mean, std):
         f"FEATURES = {FEATURES!r}",
         f"MEAN = {[round(float(v), 6) for v in mean]!r}",
         f"STD = {[round(float(v), 6) for v in std]!r}",
-        f"CLASSES = {list(clf.classes_)!r}",
+        f"CLASSES = {[str(c) for c in clf.classes_]!r}",
         f"FEATURE = {t.feature.tolist()!r}",
         f"THRESHOLD = {[round(float(v), 6) for v in t.threshold]!r}",
         f"LEFT = {t.children_left.tolist()!r}",
         f"RIGHT = {t.children_right.tolist()!r}",
-        f"VALUE = {[[int(c) for c in node[0]] for node in t.value]!r}",
+        f"VALUE = {[[round(float(c), 6) for c in node[0]] for node in t.value]!r}",
         "",
     ]
     _OUT.write_text("\n".join(lines))
-- 
2.43.0


From 0eb2cd484be0943658b0c106c7a344c55c3cfe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:03 +0000
Subject: [PATCH 14/16] fix: canonical_corr2 takes the eigenvalues of a matrix
 that is symmetric

---
 research/schur_likelihood_theory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/research/schur_likelihood_theory.py b/research/schur_likelihood_theory.py
index 7b323c4..525a9f0 100644
--- a/research/schur_likelihood_theory.py
+++ b/research/schur_likelihood_theory.py
@@ -200,7 +200,8 @@ def canonical_corr2(Sig, p1):
     S11 = Sig[:p1, :p1]
     S22 = Sig[p1:, p1:]
     S12 = Sig[:p1, p1:]
-    Mmat = np.linalg.solve(S11, S12) @ np.linalg.solve(S22, S12.T)
+    W = np.linalg.solve(np.linalg.cholesky(S11), S12)  # whiten block-1, so that Mmat is symmetric
+    Mmat = W @ np.linalg.solve(S22, W.T)
     return np.clip(np.sort(np.linalg.eigvalsh(0.5 * (Mmat + Mmat.T)))[::-1], 0, 1)
 
 
-- 
2.43.0


From eb38f27ea4a24ae6b04cb6a56a4b1f7e21beb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:15 +0000
Subject: [PATCH 15/16] fix: TylerCovariance weighs by direction also for data
 in tiny units

---
 precise/tyler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/precise/tyler.py b/precise/tyler.py
index 2aed754..671186c 100644
--- a/precise/tyler.py
+++ b/precise/tyler.py
@@ -54,6 +54,7 @@ class TylerCovariance(BaseOnlineCovariance):
         C = np.asarray(s["C"], dtype=float)
         if not np.any(dev):  # a zero deviation has no direction: the shape is unchanged
             return {**s, "n_samples": n, "mean": mean}
+        dev = dev / np.max(np.abs(dev))  # only the direction counts, whatever the units
         q = max(float(dev @ try_invert(C) @ dev), 1e-12)  # Mahalanobis under the current shape
         C = (1 - lr) * C + lr * p * np.outer(dev, dev) / q  # direction-only contribution
         C = p * C / np.trace(C)  # fix the scale: trace == p
-- 
2.43.0


From 7f13557293e955d5b79ac360392780805d7c690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:40 +0000
Subject: [PATCH 16/16] fix: keyed adapters can be pickled

The estimator factory of FixedUniverse and DynamicUniverse was a lambda, which
pickle refuses, so a keyed adapter could not be pickled although the estimators
and compositions it wraps can.
---
 precise/keyed.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/precise/keyed.py b/precise/keyed.py
index 5163373..2e00bf2 100644
--- a/precise/keyed.py
+++ b/precise/keyed.py
@@ -19,6 +19,8 @@ Both add no covariance math of their own — they delegate entirely to the wrapp
 
 from __future__ import annotations
 
+from functools import partial
+
 import numpy as np
 
 from precise._linalg import cov_to_corrcoef, nearest_pos_def, to_symmetric
@@ -32,12 +34,12 @@ def _clone(estimator: BaseOnlineCovariance) -> BaseOnlineCovariance:
 
 
 def _factory(estimator, kwargs):
-    """Build a zero-arg factory from either a configured instance or a class + kwargs."""
+    """Build a picklable zero-arg factory from a configured instance or a class + kwargs."""
     if isinstance(estimator, type):
-        return lambda: estimator(**kwargs)
+        return partial(estimator, **kwargs)
     if kwargs:
         raise ValueError("Pass estimator keyword arguments only with a class, not an instance.")
-    return lambda: _clone(estimator)
+    return partial(_clone, estimator)
 
 
 class _KeyedAdapter:
-- 
2.43.0

