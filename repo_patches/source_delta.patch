From 0e8ed86f02a398356d1e333a19efd1af0fc7cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 01/57] fix: keep the sample axis for single-bin or
 single-sample multivariate normal draws

---
 src/spey/backends/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cd34f2e..0d03db5 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -147,9 +147,11 @@ class MultivariateNormal:
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-        return multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
+        sample = multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
             size=(sample_size,)
         )
+        # ! scipy squeezes singleton dimensions, i.e. single bin or single sample
+        return np.reshape(sample, (sample_size, -1))
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
-- 
2.43.0


From e9a74c69fe62ff427fc534c97098b7743e5c2f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 02/57] fix: sample signal-uncertainty constraints with the
 full parameter vector

---
 src/spey/backends/default_pdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 1eaeb4f..c6f640f 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -733,7 +733,7 @@ class DefaultPDFBase(BackendBase):
             sample = self.main_model.sample(pars, sample_size)
 
             if include_auxiliary:
-                constraint_sample = self.constraint_model.sample(pars[1:], sample_size)
+                constraint_sample = self.constraint_model.sample(pars, sample_size)
                 sample = np.hstack([sample, constraint_sample])
 
             return sample
-- 
2.43.0


From 646e83abc1c305f6bba4ddfd463304e9034df478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 03/57] fix: do not write fixed parameter values into the
 caller's start values or the model configuration

---
 src/spey/optimizer/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index c7fe0cb..1cac246 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -89,7 +89,9 @@ def fit(
         provided) and the corresponding fit parameter vector.
     """
 
-    init_pars = (
+    # copy, fixed values are written below; these should not leak to the caller's list
+    # or to the model configuration.
+    init_pars = list(
         initial_parameters
         if isinstance(initial_parameters, (list, tuple, np.ndarray))
         else model_configuration.suggested_init
-- 
2.43.0


From a650c29d1434a00cfebbca30e9fd5c3f518dda4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 04/57] fix: positivity constraint of default.poisson uses the
 absolute uncertainties

---
 src/spey/backends/default_pdf/simple_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 8fefd8f..fcb4eec 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -604,7 +604,7 @@ class Poisson(SimplePDFBase):
                 """Compute the constraint term"""
                 return (
                     self.background_yields
-                    + pars[slice(1, len(self.data) + 1)] * self.background_yields
+                    + pars[slice(1, len(self.data) + 1)] * self.absolute_uncertainties
                 )
 
             jac_constr = jacobian(constraint)
-- 
2.43.0


From 9680c9a9021049cb452969d97bab203ccf853f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 05/57] fix: accept lists of non-integer data in the Poisson
 log-likelihood

---
 src/spey/backends/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 0d03db5..cff20f2 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -45,8 +45,9 @@ class Poisson:
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
+        value = np.array(value)
         # for code efficiency
-        if np.array(value).dtype in [np.int32, np.int16, np.int64]:
+        if value.dtype in [np.int32, np.int16, np.int64]:
             return logpmf(value, self.loc).astype(np.float64)
 
         return (value * np.log(self.loc) - self.loc - gammaln(value + 1.0)).astype(
-- 
2.43.0


From 8b36b5610ad6ed026d9f74488c9fb236cae096a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 06/57] fix: do not append the backend constraints to the
 caller's list

---
 src/spey/interface/statistical_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 19b7384..4dbbb2c 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -417,7 +417,8 @@ class StatisticalModel(HypothesisTestingBase):
                 expected=expected, data=data, do_grad=do_grad
             )
 
-        constraints = kwargs.pop("constraints", [])
+        # copy, the constraints of the backend should not leak to the caller's list
+        constraints = list(kwargs.pop("constraints", []))
         if hasattr(self.backend, "constraints"):
             for constraint in self.backend.constraints:
                 constraints.append(constraint)
-- 
2.43.0


From 92c75383543a531136b37c11f36d1ba8bef45f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 07/57] fix: chi2 forwards start values and bounds only when
 given

---
 src/spey/base/hypotest_base.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 86083bb..9cece31 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -600,20 +600,25 @@ class HypothesisTestingBase(ABC):
             mle_kwargs = {}
         if likelihood_kwargs is None:
             likelihood_kwargs = {}
+
+        # only forward what has been given, not every model accepts these, e.g. combiner
+        fit_kwargs = {}
+        if init_pars is not None:
+            fit_kwargs.update({"init_pars": init_pars})
+        if par_bounds is not None:
+            fit_kwargs.update({"par_bounds": par_bounds})
         if poi_test_denominator is None:
             _, denominator = self.maximize_likelihood(
                 expected=expected,
                 allow_negative_signal=allow_negative_signal,
-                init_pars=init_pars,
-                par_bounds=par_bounds,
+                **fit_kwargs,
                 **mle_kwargs,
             )
         else:
             denominator = self.likelihood(
                 poi_test=poi_test_denominator,
                 expected=expected,
-                init_pars=init_pars,
-                par_bounds=par_bounds,
+                **fit_kwargs,
                 **mle_kwargs,
             )
         log.debug(f"denominator: {denominator}")
@@ -627,8 +632,7 @@ class HypothesisTestingBase(ABC):
                             poi_test=p,
                             expected=expected,
                             return_nll=True,
-                            init_pars=init_pars,
-                            par_bounds=par_bounds,
+                            **fit_kwargs,
                             **likelihood_kwargs,
                         )
                         for p in poi_test
@@ -650,8 +654,7 @@ class HypothesisTestingBase(ABC):
                             poi_test=current_poi_test,
                             expected=expected,
                             return_nll=True,
-                            init_pars=init_pars,
-                            par_bounds=par_bounds,
+                            **fit_kwargs,
                             **likelihood_kwargs,
                         )
             elif len(scan_list) > 1:
@@ -662,8 +665,7 @@ class HypothesisTestingBase(ABC):
                 poi_test=poi_test,
                 expected=expected,
                 return_nll=True,
-                init_pars=init_pars,
-                par_bounds=par_bounds,
+                **fit_kwargs,
                 **likelihood_kwargs,
             )
         return 2.0 * (llhd - denominator)
-- 
2.43.0


From 16657e935ba1a24572ebcf731d07b50d06d22662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 08/57] fix: chi2 scans keep double precision

---
 src/spey/base/hypotest_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 9cece31..dd19ca3 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -637,7 +637,7 @@ class HypothesisTestingBase(ABC):
                         )
                         for p in poi_test
                     ),
-                    np.float32,
+                    np.float64,
                 )
         if isinstance(poi_test, dict):
             scan_list = [
@@ -645,7 +645,7 @@ class HypothesisTestingBase(ABC):
             ]
             if len(scan_list) == 1:
                 poi_list = np.atleast_1d(poi_test[scan_list[0]])
-                llhd = np.empty(len(poi_list), dtype=np.float32)
+                llhd = np.empty(len(poi_list), dtype=np.float64)
                 with capture_logs(logging.INFO) as _:
                     current_poi_test = poi_test.copy()
                     for i, param in enumerate(poi_list):
-- 
2.43.0


From 4ead5bb95ffa9db391569d05e760a75c0317e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 09/57] fix: never evict in-flight computations from the result
 cache

---
 src/spey/system/cache.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index e744fbd..6672259 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -268,7 +268,6 @@ class _PerInstanceCacheDescriptor:
                     event = threading.Event()
                     events[key] = event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None
 
             if event is not None:
@@ -284,16 +283,17 @@ class _PerInstanceCacheDescriptor:
                 with lock:
                     if cache.get(key) is _COMPUTING:
                         del cache[key]
-                        order.remove(key)
                     evt = events.pop(key, None)
                 if evt is not None:
                     evt.set()
                 raise
 
             with lock:
+                if cache.get(key, _COMPUTING) is _COMPUTING:
+                    order.append(key)  # only completed results can be evicted
                 cache[key] = result
                 if maxsize is not None:
-                    while len(cache) > maxsize:
+                    while len(order) > maxsize:
                         oldest = order.popleft()
                         cache.pop(oldest, None)
                 evt = events.pop(key, None)
@@ -433,7 +433,6 @@ def cache_results(
                     event = threading.Event()
                     events[key] = event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None  # signals "I am the computing thread"
 
             if event is not None:
@@ -454,7 +453,6 @@ def cache_results(
                 with lock:
                     if cache.get(key) is _COMPUTING:
                         del cache[key]
-                        order.remove(key)
                     evt = events.pop(key, None)
                 if evt is not None:
                     evt.set()  # wake up waiters
@@ -462,10 +460,12 @@ def cache_results(
 
             # ---- store result (under lock) ---------------------------------
             with lock:
+                if cache.get(key, _COMPUTING) is _COMPUTING:
+                    order.append(key)  # only completed results can be evicted
                 cache[key] = result
                 # Evict oldest entries if maxsize is exceeded.
                 if maxsize is not None:
-                    while len(cache) > maxsize:
+                    while len(order) > maxsize:
                         oldest = order.popleft()
                         cache.pop(oldest, None)
                 evt = events.pop(key, None)
-- 
2.43.0


From cbc5412f35a67df89cde2dd7667d65a90ac49c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 10/57] fix: clearing the result cache wakes up the callers
 waiting for a result

---
 src/spey/system/cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 6672259..75abac2 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -307,6 +307,8 @@ class _PerInstanceCacheDescriptor:
             with lock:
                 cache.clear()
                 order.clear()
+                for evt in events.values():
+                    evt.set()  # wake up waiters, they will recompute
                 events.clear()
 
         def cache_info() -> dict:
@@ -480,6 +482,8 @@ def cache_results(
             with lock:
                 cache.clear()
                 order.clear()
+                for evt in events.values():
+                    evt.set()  # wake up waiters, they will recompute
                 events.clear()
 
         def cache_info() -> dict:
-- 
2.43.0


From 064c2baf539419dc515ebd6a9be1fc739ffbe10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 11/57] fix: cache keys of dictionaries with mixed key types
 and of lists of pairs

---
 src/spey/system/cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 75abac2..8bcbb90 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -16,7 +16,7 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
   SHA-256 hash of the raw buffer so the key captures the full content
   without retaining a copy of the array bytes.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
-* ``dict`` -> sorted-items tuple of ``(key_token, value_token)`` pairs.
+* ``dict`` -> tagged frozenset of ``(key_token, value_token)`` pairs.
 * Anything else -> falls back to ``repr()``.
 
 The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
@@ -96,7 +96,9 @@ def _make_token(obj: Any) -> Any:
         digest = hashlib.sha256(buf.data).digest()
         return (obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
-        return tuple(sorted((_make_token(k), _make_token(v)) for k, v in obj.items()))
+        # keys are not necessarily comparable with each other
+        items = frozenset((_make_token(k), _make_token(v)) for k, v in obj.items())
+        return ("dict", items)
     if isinstance(obj, (list, tuple)):
         return tuple(_make_token(item) for item in obj)
     if isinstance(obj, (set, frozenset)):
-- 
2.43.0


From c16ccb51c940ae02a65efb567a8629ebf19a2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 12/57] fix: cache keys of object arrays use the content, not
 the addresses

---
 src/spey/system/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 8bcbb90..a62946c 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -90,6 +90,9 @@ def _make_token(obj: Any) -> Any:
     2. **Hashable** -- the token can be used inside a ``dict`` key tuple.
     """
     if isinstance(obj, np.ndarray):
+        if obj.dtype.hasobject:
+            # the buffer holds addresses, not the content
+            return (obj.shape, obj.dtype.str, _make_token(obj.tolist()))
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
         buf = np.ascontiguousarray(obj)
-- 
2.43.0


From 9921dcc32cb23bcefd196ef0dc402b24779bf055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 13/57] fix: concurrent first accesses of a cached method share
 one cache

---
 src/spey/system/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index a62946c..c1b1ec1 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -204,11 +204,11 @@ class _PerInstanceCacheDescriptor:
             return self._get_fallback(obj)
         wrapper = inst_dict.get(self._name)
         if wrapper is None:
-            wrapper = self._build_wrapper(obj)
             # Storing under the method name makes subsequent lookups land in
             # the instance dict directly (non-data descriptor rule), so the
             # descriptor overhead is paid exactly once per instance.
-            inst_dict[self._name] = wrapper
+            # setdefault: concurrent first accesses share a single cache.
+            wrapper = inst_dict.setdefault(self._name, self._build_wrapper(obj))
         return wrapper
 
     def _get_fallback(self, obj: Any) -> Callable:
-- 
2.43.0


From cc56225478a8b474f6df124f689843fb4a036670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 14/57] fix: overridden cached methods do not share an entry
 with the base class method

---
 src/spey/system/cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index c1b1ec1..e3e38f7 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -197,6 +197,10 @@ class _PerInstanceCacheDescriptor:
         if obj is None:
             # When accessed via class, return the ORIGINAL FUNCTION without caching.
             return self._fn  # type: ignore[return-value]
+        # An overriding method of the same name owns the instance dict entry,
+        # this one can only be reached through super().
+        if inspect.getattr_static(type(obj), self._name, self) is not self:
+            return self._get_fallback(obj)
         # Fast path: try instance __dict__ (available for most classes).
         try:
             inst_dict = obj.__dict__
-- 
2.43.0


From 4592a7327fe13314d26ae77da1aa9b4e46a61339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 15/57] fix: pull is zero instead of nan at the best fit

---
 src/spey/base/hypotest_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index dd19ca3..66e817e 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -718,7 +718,10 @@ class HypothesisTestingBase(ABC):
             expected=expected, allow_negative_signal=allow_negative_signal, **kwargs
         )
         llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
-        return np.sign(muhat - poi_test) * np.sqrt(2.0 * (llhd - min_nll))
+        # numerical noise around the best fit can make the difference negative
+        return np.sign(muhat - poi_test) * np.sqrt(
+            np.clip(2.0 * (llhd - min_nll), 0.0, None)
+        )
 
     def _prepare_for_hypotest(
         self,
-- 
2.43.0


From 8416a0e09451bf0e2d1a26297066eb08cbda3ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 16/57] fix: pull accepts several signal strengths at once

---
 src/spey/base/hypotest_base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 66e817e..7a21944 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -717,7 +717,13 @@ class HypothesisTestingBase(ABC):
         muhat, min_nll = self.maximize_likelihood(
             expected=expected, allow_negative_signal=allow_negative_signal, **kwargs
         )
-        llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
+        if isinstance(poi_test, Iterable) and not isinstance(poi_test, dict):
+            poi_test = np.array([float(p) for p in poi_test])
+            llhd = np.array(
+                [self.likelihood(poi_test=p, expected=expected, **kwargs) for p in poi_test]
+            )
+        else:
+            llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
         # numerical noise around the best fit can make the difference negative
         return np.sign(muhat - poi_test) * np.sqrt(
             np.clip(2.0 * (llhd - min_nll), 0.0, None)
-- 
2.43.0


From ddd23d1a1237b8de314b9258c78141da75ba45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 17/57] fix: sigma_mu accepts integer signal strengths without
 a Hessian

---
 src/spey/base/hypotest_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 7a21944..709bfe9 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -900,7 +900,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=mu if isinstance(mu, float) else mu[0],
+                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
-- 
2.43.0


From 28fc7fc68f63d4d4f03e22d6188a66e881bdcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 18/57] fix: the Asimov estimate of sigma_mu uses the distance
 to the Asimov best fit

---
 src/spey/base/hypotest_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 709bfe9..8dd70b8 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -908,7 +908,9 @@ class HypothesisTestingBase(ABC):
 
         qmuA = teststat_func(poi_test, muhatA, -min_nllA, logpdf_asimov)
 
-        return 1.0 if qmuA <= 0.0 else np.true_divide(poi_test, np.sqrt(qmuA))
+        # the discovery test statistic is computed at zero signal strength
+        mu = 0.0 if test_statistics == "q0" else poi_test
+        return 1.0 if qmuA <= 0.0 else np.true_divide(np.abs(mu - muhatA), np.sqrt(qmuA))
 
     @warning_tracker
     def exclusion_confidence_level(
-- 
2.43.0


From e5fea87f0032feded5380762847288f465ce302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 19/57] fix: hypothesis tests accept numpy scalars as signal
 strength

---
 src/spey/base/hypotest_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 8dd70b8..e27492b 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -807,14 +807,14 @@ class HypothesisTestingBase(ABC):
 
         def logpdf(mu: Union[float, np.ndarray]) -> float:
             return -self.likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 **kwargs,
             )
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -900,7 +900,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -998,7 +998,7 @@ class HypothesisTestingBase(ABC):
             ) -> float:
                 """Compute logpdf with respect to poi and given data"""
                 return -self.likelihood(
-                    poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                    poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                     expected=expected,
                     data=data,
                     **kwargs,
-- 
2.43.0


From 7324ba5e58491840479252303507489ff5cabc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 20/57] fix: coarse chi2_test scans always include the best fit

---
 src/spey/base/hypotest_base.py | 1 +
 src/spey/base/utils.py         | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index e27492b..723c978 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1650,6 +1650,7 @@ class HypothesisTestingBase(ABC):
                 xtol=xtol,
                 rtol=rtol,
                 maxiter=maxiter,
+                anchor=reference,
             )
             left_found = any(r < reference - 1e-12 for r in roots_sorted)
             right_found = any(r > reference + 1e-12 for r in roots_sorted)
diff --git a/src/spey/base/utils.py b/src/spey/base/utils.py
index dd2bc62..29d2e1c 100644
--- a/src/spey/base/utils.py
+++ b/src/spey/base/utils.py
@@ -1,4 +1,4 @@
-from typing import Callable, List, Tuple, Union
+from typing import Callable, List, Optional, Tuple, Union
 import logging
 import numpy as np
 
@@ -139,6 +139,7 @@ def _enumerate_crossings_1d(
     xtol: float = 2e-12,
     rtol: float = 1e-4,
     maxiter: int = 10000,
+    anchor: Optional[float] = None,
 ) -> List[float]:
     r"""
     Return **every** root of a 1D scalar function on ``[lo, hi]``.
@@ -161,6 +162,8 @@ def _enumerate_crossings_1d(
             feature is narrower than ``(hi-lo)/(n_scan-1)`` the feature may
             be skipped.
         xtol, rtol, maxiter: Forwarded to the inner root-finder.
+        anchor: Point known to lie inside the confidence region. It is added to the
+            grid so that the region is never skipped by a coarse scan.
 
     Returns:
         ``List[float]`` — sorted, deduplicated root list (possibly empty).
@@ -172,6 +175,9 @@ def _enumerate_crossings_1d(
     n_scan = max(3, int(n_scan))
 
     xs = np.linspace(float(lo), float(hi), n_scan)
+    if anchor is not None and lo < anchor < hi:
+        xs = np.union1d(xs, [float(anchor)])
+        n_scan = len(xs)
     fs = np.full(n_scan, np.nan, dtype=float)
     for i, x in enumerate(xs):
         try:
-- 
2.43.0


From 7f9ac7c63b998bd5eeaaf826ec18ea655236ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 21/57] fix: bounds passed to the optimiser always contain the
 pinned values

---
 src/spey/optimizer/core.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index 1cac246..d1a3bab 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -127,6 +127,20 @@ def fit(
             if isfixed:
                 fixed_vals[idx] = True
 
+    # bounds that exclude a pinned value would make the problem infeasible
+    if par_bounds is not None:
+        par_bounds = [
+            (
+                bound
+                if not fixed
+                else (
+                    None if bound[0] is None else min(bound[0], val),
+                    None if bound[1] is None else max(bound[1], val),
+                )
+            )
+            for bound, fixed, val in zip(par_bounds, fixed_vals, init_pars)
+        ]
+
     options.update({"poi_index": model_configuration.poi_index})
 
     fun, x = _get_minimizer(minimizer_opt)(
-- 
2.43.0


From e171493ffd96d47b95966bfc6ea1febedf07ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 22/57] fix: find_most_sensitive of a combination returns the
 model, accept numpy integers as position

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index d765803..53b4b90 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -318,7 +318,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
             :obj:`~spey.system.exceptions.AnalysisQueryError`: If an integer index
               is out of range or the analysis name is not found in the stack.
         """
-        if isinstance(item, int):
+        if isinstance(item, (int, np.integer)):
             if item < len(self):
                 return self.statistical_models[item]
             raise AnalysisQueryError(
-- 
2.43.0


From ebb9de1502d295c42b5e0dd1575c08defee0f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 23/57] fix: out of range negative positions in a combination
 raise AnalysisQueryError

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 53b4b90..39ad027 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -319,7 +319,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
               is out of range or the analysis name is not found in the stack.
         """
         if isinstance(item, (int, np.integer)):
-            if item < len(self):
+            if -len(self) <= item < len(self):
                 return self.statistical_models[item]
             raise AnalysisQueryError(
                 "Request exceeds number of statistical models available."
-- 
2.43.0


From cbfdf38f8ca87ea635e53d82d688da4e3e866545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 24/57] fix: negative yields of a member give nan for every
 form of the tested point

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 39ad027..9d00932 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -468,7 +468,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 )
             except NegativeExpectedYields as err:
                 warnings.warn(
-                    err.args[0] + f"\nSetting NLL({poi_test:.3f}) = nan",
+                    f"{err}\nSetting NLL({poi_test}) = nan",
                     category=RuntimeWarning,
                 )
                 nll = np.nan
-- 
2.43.0


From 336c71c5b893d3c6a640c5aa64a8ecae29e6a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 25/57] fix: bounds for a fixed parameter are always a fresh
 copy

---
 src/spey/base/model_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 65043b9..72993ae 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -74,7 +74,7 @@ class ModelConfig:
             Updated bounds.
         """
         if poi_value is None:
-            return self.suggested_bounds
+            return copy.deepcopy(self.suggested_bounds)
         bounds = copy.deepcopy(self.suggested_bounds)
         if any(b is None for b in bounds[self.poi_index]):
             return bounds
@@ -139,7 +139,7 @@ class ModelConfig:
             Updated bounds.
         """
         if not poi_values:
-            return self.suggested_bounds
+            return copy.deepcopy(self.suggested_bounds)
         bounds = copy.deepcopy(self.suggested_bounds)
         for idx, val in poi_values.items():
             if any(b is None for b in bounds[idx]):
-- 
2.43.0


From 2e9c6e44a3b7c97734422934a27cb19db18da255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 26/57] fix: bounds of a fixed parameter other than the POI
 contain its value

---
 src/spey/base/model_config.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 72993ae..a03166b 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -145,10 +145,17 @@ class ModelConfig:
             if any(b is None for b in bounds[idx]):
                 continue
             if not bounds[idx][0] < val < bounds[idx][1]:
-                bounds[idx] = (
-                    self.minimum_poi if val < 0.0 else 0.0,
-                    val + 1,
-                )
+                if idx == self.poi_index:
+                    bounds[idx] = (
+                        self.minimum_poi if val < 0.0 else 0.0,
+                        max([val + 1, self.minimum_poi if val < 0.0 else 0.0]),
+                    )
+                else:
+                    # the minimum of the POI does not restrict the other parameters
+                    bounds[idx] = (
+                        min(bounds[idx][0], val - 1),
+                        max(bounds[idx][1], val + 1),
+                    )
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0


From 26d0c6adbd23593129e6d0c28eb7208fc6d20034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 27/57] fix: rescale_poi_bounds keeps the upper bound when none
 is given

---
 src/spey/base/model_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index a03166b..5b8b67a 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -194,6 +194,6 @@ class ModelConfig:
         else:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
-                bounds[self.poi_index],
+                bounds[self.poi_index][1],
             )
         return bounds
-- 
2.43.0


From ac36e0e1aa8872b0b18e5da0daa432f6aadf4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 28/57] fix: renaming parameters is simultaneous,
 all-or-nothing and keeps names unique

---
 src/spey/base/model_config.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 5b8b67a..6c71c14 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -160,14 +160,15 @@ class ModelConfig:
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
         """Change the parameter names"""
-        new_names = []
-        for old, new in name_map.items():
-            if old not in self.parameter_names:
+        current = list(self.parameter_names or [])
+        for old in name_map:
+            if old not in current:
                 raise ValueError(f"Parameter '{old}' does not exist.")
-            if new in new_names:
-                raise ValueError("Each name has to be unique.")
-            new_names.append(new)
-            self.parameter_names[self.parameter_names.index(old)] = new
+        new_names = [name_map.get(name, name) for name in current]
+        if len(set(new_names)) != len(new_names):
+            raise ValueError("Each name has to be unique.")
+        for idx, name in enumerate(new_names):
+            self.parameter_names[idx] = name
 
     def rescale_poi_bounds(
         self, allow_negative_signal: bool = True, poi_upper_bound: Optional[float] = None
-- 
2.43.0


From ad19400cf52f5c919b6e9f5126a0e6d4429369b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 29/57] fix: config() allows negative signal also with a custom
 upper bound

---
 src/spey/backends/default_pdf/__init__.py   | 3 ++-
 src/spey/backends/default_pdf/simple_pdf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index c6f640f..0b5ab0e 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -427,11 +427,12 @@ class DefaultPDFBase(BackendBase):
         if allow_negative_signal and poi_upper_bound == 10.0:
             return self._config
 
+        poi_lower_bound = self._config.minimum_poi if allow_negative_signal else 0
         return ModelConfig(
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + self._config.suggested_bounds[1:],
+            [(poi_lower_bound, poi_upper_bound)] + self._config.suggested_bounds[1:],
             parameter_names=self._config.parameter_names,
         )
 
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index fcb4eec..00d8dce 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -260,12 +260,13 @@ class SimplePDFBase(BackendBase):
         if allow_negative_signal and poi_upper_bound == 10.0:
             return self._config
 
+        poi_lower_bound = self._config.minimum_poi if allow_negative_signal else 0
         extra_bounds = self._config.suggested_bounds[1:]
         return ModelConfig(
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + extra_bounds,
+            [(poi_lower_bound, poi_upper_bound)] + extra_bounds,
             parameter_names=self._config.parameter_names,
         )
 
-- 
2.43.0


From a46b912e68e659af248413bfa00ea5b1675661ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 30/57] fix: calculators whose methods the back-end does not
 implement are unavailable

---
 src/spey/interface/statistical_model.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 4dbbb2c..86c88cc 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -212,6 +212,13 @@ class StatisticalModel(HypothesisTestingBase):
         """Retreive model configuration"""
         return self.backend.config
 
+    def _is_implemented(self, method: str) -> bool:
+        """Whether the backend provides its own implementation of an optional method."""
+        implementation = getattr(self.backend, method)
+        # bound methods never compare equal to the function in the base class
+        implementation = getattr(implementation, "__func__", implementation)
+        return implementation is not getattr(BackendBase, method)
+
     @property
     def is_asymptotic_calculator_available(self) -> bool:
         """
@@ -228,11 +235,9 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the asymptotic calculator is available.
         """
-        return self.backend.expected_data != BackendBase.expected_data or (
-            self.backend.asimov_negative_loglikelihood
-            != BackendBase.asimov_negative_loglikelihood
-            and self.backend.minimize_asimov_negative_loglikelihood
-            != BackendBase.minimize_asimov_negative_loglikelihood
+        return self._is_implemented("expected_data") or (
+            self._is_implemented("asimov_negative_loglikelihood")
+            and self._is_implemented("minimize_asimov_negative_loglikelihood")
         )
 
     @property
@@ -246,7 +251,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the toy calculator is available.
         """
-        return self.backend.get_sampler != BackendBase.get_sampler
+        return self._is_implemented("get_sampler")
 
     @property
     def is_chi_square_calculator_available(self) -> bool:
-- 
2.43.0


From 3e3558dfd99b56deeaa010a5199a6a81e605490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 31/57] fix: native likelihood methods of a back-end honour
 their documented (nll, pars) return value

---
 src/spey/interface/statistical_model.py | 70 +++++++++++++++++--------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 86c88cc..4a53013 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -377,6 +377,38 @@ class StatisticalModel(HypothesisTestingBase):
             return poi_test
         return self.backend.config().resolve_poi_indices(poi_test)
 
+    @staticmethod
+    def _native_likelihood(
+        result: Union[float, Tuple[float, np.ndarray]],
+        return_nll: bool,
+        return_parameters: bool,
+    ) -> Union[float, Tuple[float, np.ndarray]]:
+        """Present the ``(nll, pars)`` of a native backend method as it has been requested"""
+        nll, fit_param = result if isinstance(result, tuple) else (result, None)
+        out = nll if return_nll else np.exp(-nll)
+        return (out, fit_param) if return_parameters else out
+
+    def _select_parameters(
+        self, fit_param: np.ndarray, poi_indices: Optional[List[Union[int, str]]]
+    ) -> Union[float, Dict[Union[int, str], float]]:
+        """Retrieve POI or the requested parameters from the fit parameters"""
+        config = self.backend.config()
+        if poi_indices is None:
+            return fit_param[config.poi_index]
+
+        result: Dict[Union[int, str], float] = {}
+        for key in poi_indices:
+            if isinstance(key, str):
+                if config.parameter_names is None:
+                    raise ValueError(
+                        "Cannot resolve POI name: parameter_names not set in ModelConfig."
+                    )
+                idx = config.parameter_names.index(key)
+            else:
+                idx = int(key)
+            result[key] = float(fit_param[idx])
+        return result
+
     def prepare_for_fit(
         self,
         data: Optional[Union[List[float], np.ndarray]] = None,
@@ -532,7 +564,7 @@ class StatisticalModel(HypothesisTestingBase):
             Likelihood of the statistical model at a fixed signal strength.
         """
         try:
-            return self.backend.negative_loglikelihood(
+            result = self.backend.negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 data=data,
@@ -541,6 +573,7 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            return self._native_likelihood(result, return_nll, return_parameters)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement negative_loglikelihood(), "
@@ -780,7 +813,7 @@ class StatisticalModel(HypothesisTestingBase):
             likelihood computed for asimov data
         """
         try:
-            return self.backend.asimov_negative_loglikelihood(
+            result = self.backend.asimov_negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 test_statistics=test_statistics,
@@ -788,6 +821,9 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            return self._native_likelihood(
+                result, return_nll, kwargs.get("return_parameters", False)
+            )
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `asimov_negative_loglikelihood()`, "
@@ -914,7 +950,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_negative_loglikelihood(
+            nll, fit_param = self.backend.minimize_negative_loglikelihood(
                 expected=expected,
                 allow_negative_signal=allow_negative_signal,
                 data=data,
@@ -923,6 +959,10 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            return (
+                self._select_parameters(fit_param, poi_indices),
+                nll if return_nll else np.exp(-nll),
+            )
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_negative_loglikelihood()`, "
@@ -945,23 +985,7 @@ class StatisticalModel(HypothesisTestingBase):
         log.debug(f"fit parameters:\n\t {fit_param}")
 
         nll = -logpdf if return_nll else np.exp(logpdf)
-        if poi_indices is None:
-            muhat = fit_param[self.backend.config().poi_index]
-            return muhat, nll
-
-        config = self.backend.config()
-        result: Dict[Union[int, str], float] = {}
-        for key in poi_indices:
-            if isinstance(key, str):
-                if config.parameter_names is None:
-                    raise ValueError(
-                        "Cannot resolve POI name: parameter_names not set in ModelConfig."
-                    )
-                idx = config.parameter_names.index(key)
-            else:
-                idx = int(key)
-            result[key] = float(fit_param[idx])
-        return result, nll
+        return self._select_parameters(fit_param, poi_indices), nll
 
     @cache_results(maxsize=128, copy_on_return=True, per_instance=True)
     def maximize_asimov_likelihood(  # pylint: disable = arguments-renamed
@@ -1081,7 +1105,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_asimov_negative_loglikelihood(
+            nll, fit_param = self.backend.minimize_asimov_negative_loglikelihood(
                 expected=expected,
                 test_statistics=test_statistics,
                 init_pars=init_pars,
@@ -1089,6 +1113,10 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            return (
+                self._select_parameters(fit_param, poi_indices),
+                nll if return_nll else np.exp(-nll),
+            )
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_asimov_negative_loglikelihood()`, "
-- 
2.43.0


From f49bb289a94ef0603be89df2d5a5571536c304af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 32/57] fix: chi2 of a parameter other than the POI profiles
 the signal strength in the region of the denominator

---
 src/spey/base/hypotest_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 723c978..c72cc9d 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -623,6 +623,13 @@ class HypothesisTestingBase(ABC):
             )
         log.debug(f"denominator: {denominator}")
 
+        if isinstance(poi_test, dict) and poi_test_denominator is None:
+            # POI may be free in the numerator, use the same region as the denominator
+            likelihood_kwargs = {
+                "allow_negative_signal": allow_negative_signal,
+                **likelihood_kwargs,
+            }
+
         llhd = None
         if isinstance(poi_test, Iterable) and not isinstance(poi_test, dict):
             with capture_logs(logging.INFO) as _:
-- 
2.43.0


From 87ef5664d14115fc0de8407a5854648eaf323c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 33/57] fix: out of range or repeated parameter indices are
 rejected instead of resolved to another parameter

---
 src/spey/base/model_config.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 6c71c14..4787d30 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -98,7 +98,8 @@ class ModelConfig:
               fixed values.
 
         Raises:
-            :obj:`ValueError`: If a string key cannot be found in :attr:`parameter_names`.
+            :obj:`ValueError`: If a string key cannot be found in :attr:`parameter_names`,
+              if an index is out of range or if a parameter is addressed more than once.
 
         Returns:
             :obj:`Dict[int, float]`:
@@ -118,9 +119,16 @@ class ModelConfig:
                         f"POI name '{key}' not found in parameter_names: "
                         f"{self.parameter_names}"
                     )
-                resolved[self.parameter_names.index(key)] = float(val)
+                index = self.parameter_names.index(key)
             else:
-                resolved[int(key)] = float(val)
+                index = int(key)
+                if index != key or not 0 <= index < self.npar:
+                    raise ValueError(
+                        f"POI index {key} is out of range [0, {self.npar})."
+                    )
+            if index in resolved:
+                raise ValueError(f"Parameter {index} has been given more than once.")
+            resolved[index] = float(val)
         return resolved
 
     def fixed_poi_bounds_multi(
-- 
2.43.0


From 9d9237d0c87f2124fefb1a53f966f0f010e1939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 34/57] fix: locally registered back-ends can be retrieved and
 described

---
 src/spey/__init__.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 129d39a..474ad98 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -269,11 +269,7 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = (
-            backend
-            if isinstance(backend, (BackendBase, ConverterBase))
-            else backend.load()
-        )
+        statistical_model = backend if isinstance(backend, type) else backend.load()
 
         assert hasattr(
             statistical_model, "spey_requires"
@@ -348,7 +344,7 @@ def get_backend_metadata(name: str) -> Dict[str, Any]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = backend.load()
+        statistical_model = backend if isinstance(backend, type) else backend.load()
         return {
             "name": getattr(statistical_model, "name", "__unknown_model__"),
             "author": getattr(statistical_model, "author", "__unknown_author__"),
-- 
2.43.0


From f551ee994a9dd4adfcdff0e596ac126bc0404b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 35/57] fix: colouring a log record does not modify the record
 for the other handlers

---
 src/spey/system/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 43218eb..e109ad7 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -1,4 +1,5 @@
 """Logging style for spey"""
+import copy
 import logging
 import sys
 from contextlib import contextmanager
@@ -36,6 +37,8 @@ class ColoredFormatter(logging.Formatter):
         else:  # ANYTHING ELSE
             color = "\x1b[0mSpey: "
 
+        # the record is shared by all handlers, it should not be modified in place
+        record = copy.copy(record)
         record.msg = color + str(record.msg) + "\x1b[0m"
         return logging.Formatter.format(self, record)
 
-- 
2.43.0


From e88d2c549f563045e22230b973aaeb20938925df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 36/57] fix: initialising the logger replaces all previous
 handlers

---
 src/spey/system/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index e109ad7..784de7f 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -65,7 +65,7 @@ def init(LoggerStream=sys.stdout):
     # we need to replace all root loggers by ma5 loggers for a proper
     # interface with madgraph5
     SpeyLogger = logging.getLogger("Spey")
-    for hdlr in SpeyLogger.handlers:
+    for hdlr in SpeyLogger.handlers[:]:
         SpeyLogger.removeHandler(hdlr)
     hdlr = logging.StreamHandler(LoggerStream)
     fmt = ColoredFormatter("%(message)s")
-- 
2.43.0


From e5b5a017d981cc55f69b08d505f714470592602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 37/57] fix: captured messages are written also if an exception
 leaves the block

---
 src/spey/system/logger.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 784de7f..64293db 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -146,13 +146,6 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
 
     try:
         yield
-        # Write unique messages to the provided stream
-        for m in records:
-            stream.write(m + "\n")
-        try:
-            stream.flush()
-        except Exception:
-            pass
     finally:
         spey_logger.removeHandler(handler)
         spey_logger.setLevel(prev_level)
@@ -160,3 +153,10 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
         # Restore original handlers
         for h in prev_handlers:
             spey_logger.addHandler(h)
+        # Write unique messages to the provided stream
+        for m in records:
+            stream.write(m + "\n")
+        try:
+            stream.flush()
+        except Exception:
+            pass
-- 
2.43.0


From caae43b6eb8b1fcbf0032635a5c0253912414b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 38/57] fix: version warnings do not depend on the form of the
 published python requirement

---
 src/spey/system/webutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 5ba082a..6574452 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -213,7 +213,6 @@ def check_updates() -> None:
         pypi_version = pypi_info.get("info", {}).get("version", False)
         version = __version__
         if pypi_version:
-            python_requires = SimpleSpec(pypi_info["info"]["requires_python"])
             log.debug(f"Curernt version {version}, latest version {pypi_version}.")
             if "beta" in Version(version).prerelease:
                 log.warning(
@@ -230,6 +229,10 @@ def check_updates() -> None:
                     f"An unstable version of Spey ({version}) is being used."
                     f" Latest stable version is {pypi_version}."
                 )
+            # the requirement is optional and may include spaces, e.g. ">3.8, <3.15"
+            python_requires = SimpleSpec(
+                (pypi_info["info"].get("requires_python") or "*").replace(" ", "")
+            )
             if py_version not in python_requires:
                 log.warning(
                     f"The latest version of Spey requires python{python_requires},"
-- 
2.43.0


From 70ff0232d555cb51e06854ae19023667e7dc9a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 39/57] fix: pinned parameters are respected by scipy methods
 without constraint support, retries keep open bounds

---
 src/spey/optimizer/scipy_tools.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6e99af2..14cf64f 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -17,6 +17,9 @@ _scipy_opts = ValidateOpts(
     opt_list=["method", "maxiter", "disp", "tol", "ntrials"], must_list=["poi_index"]
 )
 
+# scipy methods that support constraints
+_CONSTRAINED_METHODS = ["slsqp", "trust-constr", "cobyla", "cobyqa"]
+
 
 def minimize(
     func: Callable[[np.ndarray], float],
@@ -95,6 +98,15 @@ def minimize(
                 }
             )
 
+    # Methods without constraint support would silently ignore the equality constraints;
+    # pin the fixed parameters through the bounds instead.
+    pinned_bounds = any(fixed_vals) and str(method).lower() not in _CONSTRAINED_METHODS
+    if pinned_bounds:
+        bounds = [(None, None)] * len(init_pars) if bounds is None else bounds
+        for idx, isfixed in enumerate(fixed_vals):
+            if isfixed:
+                bounds[idx] = (init_pars[idx], init_pars[idx])
+
     ntrial = 0
     while ntrial < ntrials:
         ntrial += 1
@@ -119,11 +131,16 @@ def minimize(
             log.warning("Optimiser has not been able to satisfy all the conditions:")
             log.warning(opt.message + " Expanding the bounds...")
             init_pars = list(opt.x)
-            for bdx, bound in enumerate(bounds):
-                if bdx == poi_index:
-                    bounds[bdx] = (bound[0], bound[1] * 2.0)
-                else:
-                    bounds[bdx] = (min(bound[0], bound[0] * 10.0), bound[1] * 10.0)
+            for bdx, (lower, upper) in enumerate([] if bounds is None else bounds):
+                if pinned_bounds and fixed_vals[bdx]:
+                    continue
+                # open sides stay open and an expansion never moves a side inwards
+                scale = 2.0 if bdx == poi_index else 10.0
+                if upper is not None:
+                    upper = max(upper, upper * scale)
+                if lower is not None and bdx != poi_index:
+                    lower = min(lower, lower * scale)
+                bounds[bdx] = (lower, upper)
         elif opt.success:
             break
 
-- 
2.43.0


From 2c2c93254719291ccf747f0773f55be88a5022f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 40/57] fix: minuit evaluates the objective when every
 parameter is pinned

---
 src/spey/optimizer/minuit_tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spey/optimizer/minuit_tools.py b/src/spey/optimizer/minuit_tools.py
index d304bde..26af399 100644
--- a/src/spey/optimizer/minuit_tools.py
+++ b/src/spey/optimizer/minuit_tools.py
@@ -75,6 +75,11 @@ def minimize(
         objective = func
         grad = None
 
+    if all(fixed_vals):
+        # nothing to optimise; migrad reports this as a failed optimisation
+        pars = np.atleast_1d(np.array(init_pars, dtype=float))
+        return float(objective(pars)), pars
+
     opt = Minuit(objective, np.atleast_1d(init_pars), grad=grad)
     opt.limits = [(None, None)] * len(init_pars) if bounds is None else bounds
     opt.fixed = fixed_vals
-- 
2.43.0


From 98c8488ff07488ead4c11c583a37c9d1920ea336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 41/57] fix: minuit fits leave start values at the limits

---
 src/spey/optimizer/minuit_tools.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/spey/optimizer/minuit_tools.py b/src/spey/optimizer/minuit_tools.py
index 26af399..0ca74a2 100644
--- a/src/spey/optimizer/minuit_tools.py
+++ b/src/spey/optimizer/minuit_tools.py
@@ -80,7 +80,22 @@ def minimize(
         pars = np.atleast_1d(np.array(init_pars, dtype=float))
         return float(objective(pars)), pars
 
-    opt = Minuit(objective, np.atleast_1d(init_pars), grad=grad)
+    # The internal coordinates of Minuit have vanishing derivatives at the limits, a fit
+    # that starts there never leaves them. Move the start values slightly inwards.
+    start = np.atleast_1d(np.array(init_pars, dtype=float))
+    for idx, limits in enumerate([] if bounds is None else bounds):
+        lower, upper = (
+            lim if lim is not None and np.isfinite(lim) else None for lim in limits
+        )
+        if fixed_vals[idx]:
+            continue
+        margin = 0.1 if None in (lower, upper) else 0.05 * (upper - lower)
+        if lower is not None:
+            start[idx] = max(start[idx], lower + margin)
+        if upper is not None:
+            start[idx] = min(start[idx], upper - margin)
+
+    opt = Minuit(objective, start, grad=grad)
     opt.limits = [(None, None)] * len(init_pars) if bounds is None else bounds
     opt.fixed = fixed_vals
     opt.print_level = options.get("disp", 0)
-- 
2.43.0


From bc14c505798d53fba66cb671a5f85fe5dbacdd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 42/57] fix: overlapping merge groups are rejected

---
 src/spey/helper_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index 61a02b0..d5b7cb7 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -184,8 +184,9 @@ def merge_correlated_bins(
 
     N = covariance_matrix.shape[0]
 
-    # Flatten merge_groups and find missing indices
-    merged_indices = sorted({i for g in merge_groups for i in g})
+    # Flatten merge_groups and find missing indices, negative indices are resolved first
+    merge_groups = [[range(N)[i] for i in g] for g in merge_groups]
+    merged_indices = sorted(i for g in merge_groups for i in g)
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
-- 
2.43.0


From ea06d808666b63b436fea64067ea7b23ff1fd5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 43/57] fix: third moments of small or large asymmetric
 uncertainties are integrated accurately

---
 src/spey/backends/default_pdf/third_moment.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index bfd371b..12ad08e 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -316,11 +316,17 @@ def compute_third_moments(
 
     third_moment, error = [], []
     for upper, lower in zip(absolute_upper_uncertainties, absolute_lower_uncertainties):
+        # integrate in units of the larger uncertainty, the absolute tolerance and the
+        # sampling points of the integrator assume a scale of order one
+        scale = max(abs(upper), abs(lower)) or 1.0
         third_moment_tmp, error_tmp = integrate.quad(
-            compute_x3BifurgatedGaussian, -np.inf, np.inf, args=(abs(upper), abs(lower))
+            compute_x3BifurgatedGaussian,
+            -np.inf,
+            np.inf,
+            args=(abs(upper) / scale, abs(lower) / scale),
         )
-        third_moment.append(third_moment_tmp)
-        error.append(error_tmp)
+        third_moment.append(third_moment_tmp * scale**3)
+        error.append(error_tmp * scale**3)
 
     if return_integration_error:
         return np.array(third_moment), np.array(error)
-- 
2.43.0


From 10cc0e319e9c512ce5b7de259391a2ab7150817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 44/57] fix: correlations of the third moment expansion are
 stable for vanishing third moments

---
 src/spey/backends/default_pdf/third_moment.py | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index 12ad08e..9471f79 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -153,8 +153,10 @@ def third_moment_expansion(
         \rho_{ij} = \frac{1}{4C_i C_j}
         \left(\sqrt{(B_i B_j)^2 + 8\,C_i C_j\,\Sigma_{ij}} - B_i B_j\right).
 
-    A small regularisation :math:`\varepsilon = 10^{-5}` is added to :math:`C_i`
-    in the denominator to avoid division by zero when :math:`C_i = 0`.
+    This is evaluated as :math:`2\Sigma_{ij} / (\sqrt{(B_i B_j)^2 + 8\,C_i C_j\,\Sigma_{ij}} + B_i B_j)`
+    to avoid division by zero when :math:`C_i = 0`. If there is no solution, i.e. the argument of the
+    square root is negative, its absolute value is used and a small regularisation
+    :math:`\varepsilon = 10^{-5}` is added to :math:`C_i`.
 
     .. attention::
 
@@ -214,16 +216,22 @@ def third_moment_expansion(
         corr = np.zeros((C.shape[0], C.shape[0]))
         for i in range(corr.shape[0]):
             for j in range(corr.shape[0]):
-                ci = C[i] + eps if C[i] >= 0 else C[i] - eps
-                cj = C[j] + eps if C[j] >= 0 else C[j] - eps
-                cicj = ci * cj
                 bibj = B[i] * B[j]
 
                 discr1 = bibj**2
-                discr2 = 8 * cicj * covariance_matrix[i, j]
+                discr2 = 8 * C[i] * C[j] * covariance_matrix[i, j]
                 discr = discr1 + discr2
-
-                corr[i, j] = (np.sqrt(abs(discr)) - bibj) / 4 / cicj
+                denom = np.sqrt(max(discr, 0.0)) + bibj
+
+                if discr >= 0.0 and denom > 0.0:
+                    # eq. 2.12 multiplied by its conjugate: there is no cancellation
+                    # between large numbers and no division by vanishing C
+                    corr[i, j] = 2.0 * covariance_matrix[i, j] / denom
+                else:
+                    ci = C[i] + eps if C[i] >= 0 else C[i] - eps
+                    cj = C[j] + eps if C[j] >= 0 else C[j] - eps
+                    discr = discr1 + 8 * ci * cj * covariance_matrix[i, j]
+                    corr[i, j] = (np.sqrt(abs(discr)) - bibj) / 4 / ci / cj
 
                 if i != j:
                     corr[j, i] = corr[i, j]
-- 
2.43.0


From d1700c1beb7bfc5a15c10f334c7f47c014455f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 45/57] fix: third moment expansion with integer inputs or
 third moments at the limit of validity

---
 src/spey/backends/default_pdf/third_moment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index 9471f79..a0cc9cc 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -181,7 +181,9 @@ def third_moment_expansion(
         The triple :math:`(A, B, C)` (each of shape :math:`N`), and additionally
         :math:`\rho` (shape :math:`N \times N`) when ``return_correlation_matrix=True``.
     """
-    cov_diag = np.diag(covariance_matrix)
+    # powers of integer inputs might overflow
+    cov_diag = np.diag(covariance_matrix).astype(float)
+    third_moment = np.array(third_moment, dtype=float)
 
     if not np.all(8.0 * cov_diag**3 >= third_moment**2):
         log.warning(
@@ -203,7 +205,7 @@ def third_moment_expansion(
     C = np.where(np.isnan(C), 0.0, C)
 
     # arXiv:1809.05548 eq. 2.10
-    B = np.sqrt(cov_diag - 2 * C**2)
+    B = np.sqrt(np.maximum(cov_diag - 2 * C**2, 0.0))
     log.debug(f"B: {B}")
 
     # arXiv:1809.05548 eq. 2.11
-- 
2.43.0


From bf29033a5817e692cc2ab715a93f492c457a85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 46/57] fix: contours lie at half the chi-square quantile above
 the minimum

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f6bbf79..d6719d8 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -675,7 +675,7 @@ def find_contour(
     # DoF = k = number of contour parameters (profiled params are not DoF)
     # ------------------------------------------------------------------
     delta = float(chi2_dist.ppf(confidence_level, df=k))
-    threshold = nll_min + delta
+    threshold = nll_min + delta / 2.0
     log.debug("delta(chi2, df=%d) = %.4f, NLL threshold = %.6f", k, delta, threshold)
 
     # A basin contributes to the confidence region iff its NLL is below the
-- 
2.43.0


From a8fff20b4977fc8500d6b02f02ed0b09b9febfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 47/57] fix: contours of models whose best fit is outside the
 requested bounds

---
 src/spey/multiparameter/contour.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index d6719d8..e8252e1 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -466,8 +466,14 @@ def find_contour(
             f"bounds must have one entry per signal parameter (expected {k}, "
             f"got {len(bounds)})."
         )
+    par_bounds: Optional[List[Tuple[Optional[float], Optional[float]]]] = None
     if bounds is None:
         bounds = [cfg_bounds[idx] for idx in contour_indices]
+    else:
+        # the anchor of the search has to be inside the requested bounds as well
+        par_bounds = list(cfg_bounds)
+        for idx, bound in zip(contour_indices, bounds):
+            par_bounds[idx] = bound
 
     # Parameter names for the contour subspace only (mu excluded)
     _all_names: Optional[List[str]] = cfg.parameter_names
@@ -482,7 +488,7 @@ def find_contour(
     # ------------------------------------------------------------------
     logpdf_fn = stat_model.backend.get_logpdf_func()
 
-    theta_mle_all, nll_min = _find_mle(stat_model, all_signal_indices)
+    theta_mle_all, nll_min = _find_mle(stat_model, all_signal_indices, par_bounds)
     log.debug("MLE all signal params = %s, NLL_min = %.6f", theta_mle_all, nll_min)
 
     # Map global indices → positions within all_signal_indices
@@ -935,6 +941,7 @@ def find_contour(
 def _find_mle(
     stat_model,
     signal_indices: List[int],
+    par_bounds: Optional[List[Tuple[Optional[float], Optional[float]]]] = None,
 ) -> Tuple[np.ndarray, float]:
     r"""
     Find the MLE of the signal parameters with :math:`\mu` fixed at **1**.
@@ -953,6 +960,8 @@ def _find_mle(
         stat_model: A :class:`~spey.StatisticalModel` instance.
         signal_indices (``List[int]``): Indices of the parameters to
             optimise (typically all non-:math:`\mu` parameters).
+        par_bounds (default ``None``): Bounds for every model parameter,
+            ``None`` uses the bounds suggested by the model.
 
     Returns:
         ``Tuple[np.ndarray, float]``:
@@ -967,6 +976,7 @@ def _find_mle(
         poi_indices=signal_indices,
         return_nll=True,
         fixed_poi_value=1.0,  # fixes pars[poi_idx]=1; flows to fit()
+        par_bounds=par_bounds,
     )
     theta_mle = np.array([signal_dict[i] for i in signal_indices], dtype=float)
     nll_min = float(nll_min)
-- 
2.43.0


From 9d3f88fe67e807799656ca8a4812d1666f6c328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 48/57] fix: profiled contours of models with constraint
 objects

---
 src/spey/multiparameter/contour.py | 33 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index e8252e1..9a6678d 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -171,6 +171,7 @@ import autograd
 import autograd.numpy as anp
 import numpy as np
 from joblib import Parallel, cpu_count, delayed
+from scipy.optimize import LinearConstraint, NonlinearConstraint
 from scipy.optimize import minimize as _sp_minimize
 from scipy.optimize import root_scalar
 from scipy.stats import chi2 as chi2_dist
@@ -603,14 +604,34 @@ def find_contour(
                 return float(-logpdf_fn(_assemble(cp, pp)))
 
             # Adapt backend constraints (full-param) to profile-param space.
+            def _embed(fun):
+                """Constraint function on the profile-parameter space"""
+                return lambda pp, *args: fun(_assemble(cp, pp), *args)
+
+            def _embed_jac(jac):
+                """Profile-parameter columns of a constraint jacobian"""
+                return lambda pp, *args: np.asarray(jac(_assemble(cp, pp), *args))[
+                    ..., _profile_arr
+                ]
+
             constraints = []
             for c in _backend_constraints:
-                orig_fun = c["fun"]
-
-                def _wrapped(pp, _f=orig_fun, _cp=cp):
-                    return _f(_assemble(_cp, pp))
-
-                constraints.append({**c, "fun": _wrapped})
+                if isinstance(c, NonlinearConstraint):
+                    jac = _embed_jac(c.jac) if callable(c.jac) else c.jac
+                    constraints.append(
+                        NonlinearConstraint(_embed(c.fun), c.lb, c.ub, jac=jac)
+                    )
+                elif isinstance(c, LinearConstraint):
+                    A = np.atleast_2d(c.A)
+                    offset = A @ _assemble(cp, np.zeros(k_profile))
+                    constraints.append(
+                        LinearConstraint(A[:, _profile_arr], c.lb - offset, c.ub - offset)
+                    )
+                else:
+                    adapted = {**c, "fun": _embed(c["fun"])}
+                    if callable(c.get("jac")):
+                        adapted["jac"] = _embed_jac(c["jac"])
+                    constraints.append(adapted)
 
             res = _sp_minimize(
                 obj,
-- 
2.43.0


From 34e943c1cb937da2cec9f3f3cf4bb35916c794ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 49/57] fix: points of the contour walk whose projection failed
 are not returned

---
 src/spey/multiparameter/contour.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 9a6678d..cf6ba21 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -1783,6 +1783,17 @@ def _rattle_walk(
         n = np.linalg.norm(raw)
         return raw / n if n > 1e-15 else raw
 
+    def _on_contour(theta_: np.ndarray) -> bool:
+        """Has the projection onto the constraint converged?"""
+        return bool(
+            np.all(np.isfinite(theta_))
+            and abs(nll_scalar(theta_) - threshold) <= max(tol, 1e-6)
+        )
+
+    if not _on_contour(theta):
+        log.debug("RATTLE chain can not be started on the contour.")
+        return np.empty((0, k), dtype=float)
+
     p = _tangent_momentum(theta)
     resample_every = max(1, n_steps // 5)
 
@@ -1807,6 +1818,11 @@ def _rattle_walk(
             log.debug("RATTLE step failed at step %d; terminating chain.", step)
             break
 
+        # Terminate if the projection failed
+        if not _on_contour(theta):
+            log.debug("RATTLE projection failed at step %d; terminating chain.", step)
+            break
+
         # Terminate if any parameter has left its allowed range
         if bounds is not None:
             if any(
-- 
2.43.0


From 84d9b38d087d2dda47e3079791444ec58fac5584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 50/57] fix: concurrent evaluations of a multivariate normal
 model do not share the mean

---
 src/spey/backends/distributions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cff20f2..98f33d7 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -1,6 +1,7 @@
 """Autograd based differentiable distribution classes"""
 
 import logging
+from copy import copy
 from typing import Any, Callable, Dict, List, Literal, Union
 
 import autograd.numpy as np
@@ -203,13 +204,15 @@ class MainModel:
             else:
                 # Non-callable cov: inv(cov) and logdet(cov) are constant.
                 # Create a single MultivariateNormal once so those O(n³) ops run
-                # exactly once at construction time.  Each call only updates the
-                # mean (loc(pars)) in-place; _inv_cov and _logdet_cov stay cached.
+                # exactly once at construction time.  Each call gets a shallow copy
+                # with its own mean (loc(pars)), which keeps concurrent evaluations
+                # apart; _inv_cov and _logdet_cov stay cached.
                 _mv = MultivariateNormal(mean=np.zeros(len(cov)), cov=cov)
 
                 def _static_cov_pdf(pars):
-                    _mv.mean = loc(pars)
-                    return _mv
+                    pdf = copy(_mv)
+                    pdf.mean = loc(pars)
+                    return pdf
 
                 self._pdf = _static_cov_pdf
         else:
-- 
2.43.0


From d3f81e8c497e27b9117dc9463630304a711aa1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 51/57] fix: log-density of multivariate normals with
 functional covariances of small determinant

---
 src/spey/backends/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 98f33d7..60ea4e8 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -127,9 +127,7 @@ class MultivariateNormal:
 
         if callable(cov):
             self._inv_cov = lambda val: np.linalg.inv(cov(val))
-            self._logdet_cov = lambda val: np.clip(
-                np.linalg.slogdet(cov(val))[1], 1e-20, None
-            )
+            self._logdet_cov = lambda val: np.linalg.slogdet(cov(val))[1]
         else:
             # for code efficiency
             inv = np.linalg.inv(cov)
-- 
2.43.0


From 9a667584a4f9fdc5a073fbcf6117c75cadf03be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 52/57] fix: constraint distributions are found regardless of
 the case of their name

---
 src/spey/backends/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 60ea4e8..c9fe352 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -279,7 +279,7 @@ class ConstraintModel:
             ], f"Unknown distribution type: {desc['distribution_type']}"
             log.debug(f"{desc}")
             self._pdfs.append(
-                distributions[desc["distribution_type"]](
+                distributions[desc["distribution_type"].lower()](
                     *desc.get("args", []), **desc.get("kwargs", {})
                 )
             )
-- 
2.43.0


From 744b4dc279b9bdb6c1cebb88f5ad71094be7b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 53/57] fix: expected data of a multivariate normal is not the
 mean of the distribution itself

---
 src/spey/backends/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index c9fe352..f2b7836 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -143,7 +143,7 @@ class MultivariateNormal:
 
     def expected_data(self) -> np.ndarray:
         """The expectation value of the Multivariate Normal distribution."""
-        return self.mean
+        return np.array(self.mean)
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-- 
2.43.0


From 2b363bbd2d6ba3f28c58dc4d11eb6991743b4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 54/57] fix: carry on in units of the slope when SLSQP stops
 short of the minimum of a steep objective

---
 src/spey/optimizer/scipy_tools.py | 36 +++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 14cf64f..dc342e0 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -21,6 +21,21 @@ _scipy_opts = ValidateOpts(
 _CONSTRAINED_METHODS = ["slsqp", "trust-constr", "cobyla", "cobyqa"]
 
 
+def _free_slope(
+    gradient: np.ndarray,
+    pars: np.ndarray,
+    fixed_vals: List[bool],
+    bounds: List[Tuple[float, float]],
+) -> float:
+    """Largest slope of the objective along the parameters that are free to move downhill."""
+    lower, upper = np.full(len(pars), -np.inf), np.full(len(pars), np.inf)
+    for idx, (low, upp) in enumerate([] if bounds is None else bounds):
+        lower[idx] = -np.inf if low is None else low
+        upper[idx] = np.inf if upp is None else upp
+    downhill = np.where(gradient > 0.0, pars > lower, pars < upper)
+    return np.max(np.abs(gradient[downhill & ~np.array(fixed_vals)]), initial=0.0)
+
+
 def minimize(
     func: Callable[[np.ndarray], float],
     init_pars: List[float],
@@ -144,6 +159,27 @@ def minimize(
         elif opt.success:
             break
 
+    # The line search of SLSQP can stop far from the minimum of a steep objective and report
+    # convergence; in that case carry on from there in units of the objective's slope.
+    if do_grad and str(method).lower() == "slsqp" and hasattr(opt, "jac"):
+        slope = _free_slope(opt.jac, opt.x, fixed_vals, bounds)
+        if np.isfinite(slope) and slope > 1.0:
+            with warnings.catch_warnings():
+                warnings.filterwarnings(action="ignore", category=RuntimeWarning)
+                rescaled = scipy.optimize.minimize(
+                    lambda pars: tuple(np.divide(value, slope) for value in func(pars)),
+                    opt.x,
+                    method=method,
+                    jac=True,
+                    bounds=bounds,
+                    constraints=constraints,
+                    tol=tol / slope,
+                    options=options,
+                )
+            if rescaled.success and rescaled.fun * slope < opt.fun:
+                opt = rescaled
+                opt.fun *= slope
+
     if not opt.success:
         log.warning("Optimiser has not been able to satisfy all the conditions:")
         log.warning(opt.message)
-- 
2.43.0


From b40480729e7226978d6c903a6514c4435cd3eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 55/57] fix: report an unbracketed limit also when the start
 values are numpy scalars

---
 src/spey/hypothesis_testing/upper_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index ebffbde..336cdff 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -222,7 +222,7 @@ def find_poi_upper_limit(
                 + f"\n hig, low must bracket a root f({low.get_value(-1):.5e})={low[-1]:.5e}, "
                 + f"f({hig.get_value(-1):.5e})={hig[-1]:.5e}. "
                 + "This is likely due to low number of signal yields."
-                * (hig.get_value(-1) >= hig_bound),
+                * bool(hig.get_value(-1) >= hig_bound),
             )
             result.append(np.inf)
             continue
-- 
2.43.0


From 0dafb160b7f1a93aae635dd9aba6491b390aa1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 56/57] fix: fits rest at zero for shape uncertainties without
 an upward variation

---
 src/spey/backends/default_pdf/uncertainty_synthesizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/uncertainty_synthesizer.py b/src/spey/backends/default_pdf/uncertainty_synthesizer.py
index 445d840..e7bbc27 100644
--- a/src/spey/backends/default_pdf/uncertainty_synthesizer.py
+++ b/src/spey/backends/default_pdf/uncertainty_synthesizer.py
@@ -465,7 +465,7 @@ def signal_uncertainty_synthesizer(
                 indices: np.ndarray,
             ) -> np.ndarray:
                 alphas = param[indices]
-                chosen_log = np.where(alphas >= 0, lu, ld)
+                chosen_log = np.where(alphas > 0, lu, ld)
                 return alphas * chosen_log
 
             lambdas.append(partial(_lam_shape, lu=log_up, ld=log_dn, indices=bin_indices))
-- 
2.43.0


From 6dd7fde1375a7dd815ec981762876c1847bc7f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 57/57] fix: steep fits carry on until the slope is resolved

---
 src/spey/optimizer/scipy_tools.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index dc342e0..793d64c 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -162,8 +162,10 @@ def minimize(
     # The line search of SLSQP can stop far from the minimum of a steep objective and report
     # convergence; in that case carry on from there in units of the objective's slope.
     if do_grad and str(method).lower() == "slsqp" and hasattr(opt, "jac"):
-        slope = _free_slope(opt.jac, opt.x, fixed_vals, bounds)
-        if np.isfinite(slope) and slope > 1.0:
+        for _ in range(5):
+            slope = _free_slope(opt.jac, opt.x, fixed_vals, bounds)
+            if not np.isfinite(slope) or slope <= 1.0:
+                break
             with warnings.catch_warnings():
                 warnings.filterwarnings(action="ignore", category=RuntimeWarning)
                 rescaled = scipy.optimize.minimize(
@@ -176,9 +178,10 @@ def minimize(
                     tol=tol / slope,
                     options=options,
                 )
-            if rescaled.success and rescaled.fun * slope < opt.fun:
-                opt = rescaled
-                opt.fun *= slope
+            if not rescaled.success or rescaled.fun * slope >= opt.fun:
+                break
+            opt = rescaled
+            opt.fun, opt.jac = opt.fun * slope, opt.jac * slope
 
     if not opt.success:
         log.warning("Optimiser has not been able to satisfy all the conditions:")
-- 
2.43.0

