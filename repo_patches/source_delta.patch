From c8c98bb24f32cce21877325beb8493944f19a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 01/36] fix: support regions with bounds on only one side

A Region with only lower or only upper bounds raised an UnboundLocalError.
---
 src/tranquilo/region.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tranquilo/region.py b/src/tranquilo/region.py
index 52bbcc7..84fd419 100644
--- a/src/tranquilo/region.py
+++ b/src/tranquilo/region.py
@@ -142,11 +142,10 @@ def _create_cube_bounds(center, radius, bounds):
 
 def _any_bounds_binding(bounds, center, radius):
     """Check if any bound is binding, i.e. inside the trustregion."""
-    out = False
+    lower_binding, upper_binding = False, False
     if bounds is not None and bounds.has_any:
         if bounds.lower is not None:
             lower_binding = np.min(center - bounds.lower) <= radius
         if bounds.upper is not None:
             upper_binding = np.min(bounds.upper - center) <= radius
-        out = np.any(lower_binding) or np.any(upper_binding)
-    return out
+    return bool(lower_binding or upper_binding)
-- 
2.43.0


From 336b28e51b34cc66dfa43abac84f7931e04463d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 02/36] fix: do not truncate the hardness option of the optimal
 sampler

User options are converted to the type of the default, which was an int.
---
 src/tranquilo/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index c83eced..de37d3c 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -195,7 +195,7 @@ class FilterOptions(NamedTuple):
 
 class SamplerOptions(NamedTuple):
     distribution: str = None
-    hardness: float = 1
+    hardness: float = 1.0
     algorithm: str = "L-BFGS-B"
     algo_options: dict = None
     criterion: str = None
-- 
2.43.0


From 4b096b6073029c5bf0e56826434119dd4ee8ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 03/36] fix: do not modify the algo_options of the user in the
 optimal sampler

---
 src/tranquilo/sample_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/sample_points.py b/src/tranquilo/sample_points.py
index 5ff0745..b49f6ed 100644
--- a/src/tranquilo/sample_points.py
+++ b/src/tranquilo/sample_points.py
@@ -241,7 +241,7 @@ def _optimal_hull_sampler(
     if criterion is None:
         criterion = "determinant" if n_points == 1 else "distance"
 
-    algo_options = {} if algo_options is None else algo_options
+    algo_options = {} if algo_options is None else dict(algo_options)
     if "maxiter" not in algo_options:
         algo_options["maxiter"] = 2 * n_params + 5
 
-- 
2.43.0


From efd97af9b9b14e035d3d84341599c4dc947aaf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 04/36] fix: do not reseed the global random state in the
 multistart subsolver

The start values only depend on the seed passed to draw_exploration_sample.
---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 5192aad..0fdb711 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -39,7 +39,6 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
 
 
 def robust_cube_solver_multistart(model, x_candidate):
-    np.random.seed(12345)
     start_values = draw_exploration_sample(
         x=x_candidate,
         lower=-np.ones(len(x_candidate)),
-- 
2.43.0


From 8ac44c3d0c6c1b8ca21db686b4c69c8bf15ea706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 05/36] fix: penalize infinities relative to constant columns

If all finite values of a column are equal, their difference is zero. Then the sign
was zero as well and infinite values were replaced by 1 or -1, which can be better
than the worst finite value.
---
 src/tranquilo/handle_infinity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index c250b64..ea89309 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -34,7 +34,7 @@ def clip_relative(fvecs):
     # Due to the initial value of the masked min and max, the sign of the diff can
     # be negative if all values are infinite. In that case we want to switch the
     # signe of _diff, _mins and _maxs.
-    _signs = np.sign(_diff)
+    _signs = np.where(_diff < 0, -1.0, 1.0)
     _diff *= _signs
     _maxs *= _signs
     _mins *= _signs
-- 
2.43.0


From 345f4b601767ab4110f765221d45a83bc803e399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 06/36] fix: scale square terms of models correctly for cube
 regions

If the effective radius differs across parameters, the (i, j) entry of the square
terms has to be scaled by factor[i] * factor[j].
---
 src/tranquilo/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 50b63da..440432c 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -162,7 +162,12 @@ def _scale_model(model, factor):
 
     """
     new_g = model.linear_terms * factor
-    new_h = None if model.square_terms is None else model.square_terms * factor**2
+    if model.square_terms is None:
+        new_h = None
+    elif np.ndim(factor) == 0:
+        new_h = model.square_terms * factor**2
+    else:
+        new_h = model.square_terms * np.outer(factor, factor)
 
     out = model._replace(
         linear_terms=new_g,
-- 
2.43.0


From 6a72dae8c129e233e0e5e49850dc1a810094c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 07/36] fix: shift models without modifying them and without
 square terms

Shifting a linear ScalarModel raised an exception, shifting a VectorModel changed the
linear terms of the model that was passed in.
---
 src/tranquilo/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 440432c..1404d14 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -189,7 +189,10 @@ def _shift_scalar_model(model, shift):
 
     """
     new_c = model.predict(shift)
-    new_g = model.linear_terms + model.square_terms @ shift
+    new_g = model.linear_terms
+
+    if model.square_terms is not None:
+        new_g = new_g + model.square_terms @ shift
 
     out = model._replace(
         intercept=new_c,
@@ -215,7 +218,7 @@ def _shift_vector_model(model, shift):
     new_g = model.linear_terms
 
     if model.square_terms is not None:
-        new_g += shift @ model.square_terms
+        new_g = new_g + shift @ model.square_terms
 
     out = model._replace(
         intercepts=new_c,
-- 
2.43.0


From 8bdccd502bceb4cfc99bb29a0477af6d7eb5c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 08/36] fix: do not lose square terms when adding a linear and
 a quadratic model

---
 src/tranquilo/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 1404d14..05804a9 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -115,8 +115,9 @@ def add_models(model1, model2):
 
     new["linear_terms"] = model1.linear_terms + model2.linear_terms
 
-    if model1.square_terms is not None:
-        assert model2.square_terms is not None
+    if model1.square_terms is None:
+        new["square_terms"] = model2.square_terms
+    elif model2.square_terms is not None:
         new["square_terms"] = model1.square_terms + model2.square_terms
 
     out = replace(model1, **new)
-- 
2.43.0


From dc1beebf1b21b635dc1b6d20ae168c866659ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:31 +0000
Subject: [PATCH 09/36] fix: support boolean masks and negative scalar indices
 in the history

Boolean arrays were converted to integers and thus returned the wrong rows. A negative
scalar index raised a KeyError for function values.
---
 src/tranquilo/history.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tranquilo/history.py b/src/tranquilo/history.py
index 7f81fef..19aab2b 100644
--- a/src/tranquilo/history.py
+++ b/src/tranquilo/history.py
@@ -121,7 +121,7 @@ class History:
             np.ndarray: 1d or 2d array with parameter vectors
 
         """
-        if isinstance(x_indices, np.ndarray):
+        if isinstance(x_indices, np.ndarray) and x_indices.dtype != bool:
             x_indices = x_indices.astype(int)
 
         out = self.xs[: self.n_xs]
@@ -249,7 +249,7 @@ def _extract_from_indices(arr, mapper, x_indices, n_xs):
             returned.
 
     """
-    if isinstance(x_indices, np.ndarray):
+    if isinstance(x_indices, np.ndarray) and x_indices.dtype != bool:
         x_indices = x_indices.astype(int)
 
     is_single = np.isscalar(x_indices)
@@ -261,6 +261,6 @@ def _extract_from_indices(arr, mapper, x_indices, n_xs):
     out = {i: arr[mapper[i]] for i in indices}
 
     if is_single:
-        out = out[x_indices[0]]
+        out = out[indices[0]]
 
     return out
-- 
2.43.0


From 4a0cc7bc423d67785cab19419997d8e723c0e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:50 +0000
Subject: [PATCH 10/36] fix: handle exceptions in vector valued criterion
 functions

A failed evaluation was replaced by a scalar infinity, which cannot be combined with
the vectors returned by the other evaluations of the same batch.
---
 src/tranquilo/wrap_criterion.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/wrap_criterion.py b/src/tranquilo/wrap_criterion.py
index 13765d5..0c598ca 100644
--- a/src/tranquilo/wrap_criterion.py
+++ b/src/tranquilo/wrap_criterion.py
@@ -53,9 +53,11 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
         )
 
         # The batch evaluator replaces exceptions with their traceback (str) when
-        # error_handling="continue". We replace these cases with infinity.
+        # error_handling="continue". We replace these cases with infinity, using the
+        # shape of the successful evaluations.
+        penalty = np.full(_get_shape_of_evaluation(raw_evals, history), np.inf)
         raw_evals_with_replaced_traceback = [
-            np.inf if isinstance(x, str) else x for x in raw_evals
+            penalty if isinstance(x, str) else x for x in raw_evals
         ]
 
         # replace NaNs but keep infinite values. NaNs would be problematic in many
@@ -73,6 +75,17 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
     return wrapper_criterion
 
 
+def _get_shape_of_evaluation(raw_evals, history):
+    successful = [x for x in raw_evals if not isinstance(x, str)]
+    if successful:
+        out = np.shape(successful[0])
+    elif history.fvecs is not None:
+        out = history.fvecs.shape[1:]
+    else:
+        out = ()
+    return out
+
+
 def process_batch_evaluator(batch_evaluator="joblib"):
     batch_evaluator = "joblib" if batch_evaluator is None else batch_evaluator
 
-- 
2.43.0


From 32dc17c8ca7f7c61a379adaf305b1d1af22ff6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 11/36] fix: keep radius positive with a finite
 max_radius_to_step_ratio

After a rejected step the step length is zero, which made the radius zero and lead to
invalid trust regions.
---
 src/tranquilo/adjust_radius.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/adjust_radius.py b/src/tranquilo/adjust_radius.py
index 94502c2..1d35d18 100644
--- a/src/tranquilo/adjust_radius.py
+++ b/src/tranquilo/adjust_radius.py
@@ -31,13 +31,16 @@ def adjust_radius(radius, rho, step_length, options, n_evals_is_increased):
     else:
         new_radius = radius * options.shrinking_factor
 
-    if np.isfinite(options.max_radius_to_step_ratio):
+    # the step length is zero if the step was rejected
+    if np.isfinite(options.max_radius_to_step_ratio) and step_length > 0:
         max_radius = np.min(
             [options.max_radius, step_length * options.max_radius_to_step_ratio]
         )
     else:
         max_radius = options.max_radius
 
+    # the lower limit needs to be respected even if the step was very short
+    max_radius = max(max_radius, options.min_radius)
     new_radius = np.clip(new_radius, options.min_radius, max_radius)
 
     return new_radius
-- 
2.43.0


From ab2557b826acc22f4ec048dc2f42cf4b59753054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 12/36] fix: use a positive default radius if the start vector
 is zero

---
 src/tranquilo/options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index de37d3c..b0f848b 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -28,7 +28,8 @@ def get_default_sample_filter(batch_size):
 
 
 def get_default_radius_options(x):
-    return RadiusOptions(initial_radius=0.1 * np.max(np.abs(x)))
+    max_abs = np.max(np.abs(x))
+    return RadiusOptions(initial_radius=0.1 * max_abs if max_abs > 0 else 0.1)
 
 
 def get_default_batch_size(n_cores):
-- 
2.43.0


From fce16662d8dcf6202d50d0c37086916cec2f5958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 13/36] fix: keep line search points inside the bounds

The line search goes beyond the trust region and could thus evaluate and accept points
that violate the bounds.
---
 src/tranquilo/acceptance_decision.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 534b339..b2d95e3 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -134,6 +134,7 @@ def accept_classic_line_search(
         line_search_xs = _sample_on_line(
             start_point=state.x, direction_point=candidate_x, alpha_grid=alpha_grid
         )
+        line_search_xs = _clip_to_bounds(line_search_xs, state.trustregion.bounds)
     else:
         line_search_xs = None
 
@@ -496,6 +497,14 @@ def _sample_on_line(start_point, direction_point, alpha_grid):
     return xs
 
 
+def _clip_to_bounds(xs, bounds):
+    if bounds is None or not bounds.has_any:
+        return xs
+    lower = -np.inf if bounds.lower is None else bounds.lower
+    upper = np.inf if bounds.upper is None else bounds.upper
+    return np.clip(xs, lower, upper)
+
+
 def _is_on_border(trustregion, x, rtol):
     """Check whether a point is sufficiently close to the border of a trust region.
 
-- 
2.43.0


From f1e9c4d7d7aeea6ca7dc6f1c4c9f190281a1a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 14/36] fix: ignore failed and single evaluations when
 estimating the noise variance

Infinite evaluations and points that were only evaluated once lead to a variance of NaN
and to an exception when the acceptance sample sizes are calculated.
---
 src/tranquilo/estimate_variance.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/estimate_variance.py b/src/tranquilo/estimate_variance.py
index 4a74e33..47d377f 100644
--- a/src/tranquilo/estimate_variance.py
+++ b/src/tranquilo/estimate_variance.py
@@ -36,12 +36,21 @@ def _estimate_variance_classic(
         trustregion._replace(radius=trustregion.radius * max_distance_factor)
     )
 
-    n_evals = {idx: len(history.get_fvals(idx)) for idx in all_indices}
+    # points with failed evaluations and single evaluations do not have a variance
+    n_evals = {}
+    for idx in all_indices:
+        fvals = history.get_fvals(idx)
+        if len(fvals) > 1 and np.isfinite(fvals).all():
+            n_evals[idx] = len(fvals)
+
+    if not n_evals:
+        n_residuals = history.get_fvecs(all_indices[0]).shape[1]
+        return 0.0 if model_type == "scalar" else np.zeros((n_residuals, n_residuals))
 
     # make sure we keep at least one sample from which we can estimate a variance
     cutoff = min(max(n_evals.values()), min_n_evals)
 
-    valid_indices = [idx for idx in all_indices if n_evals[idx] >= cutoff]
+    valid_indices = [idx for idx in n_evals if n_evals[idx] >= cutoff]
     weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])
     weights = weights / weights.sum()
 
-- 
2.43.0


From a7cfb9513105ac389d96c4b4851023248084e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 15/36] fix: correct gqtpar subsolvers for models without
 gradient

---
 src/tranquilo/subsolvers/gqtpar.py      | 4 ++--
 src/tranquilo/subsolvers/gqtpar_fast.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/gqtpar.py b/src/tranquilo/subsolvers/gqtpar.py
index 15b2bd5..cc85037 100644
--- a/src/tranquilo/subsolvers/gqtpar.py
+++ b/src/tranquilo/subsolvers/gqtpar.py
@@ -326,13 +326,13 @@ def _check_for_interior_convergence_and_update(
         converged = True
 
     s_min, z_min = estimate_smallest_singular_value(hessian_info.upper_triangular)
-    step_len = 2
+    step_len = 1.0
 
     if step_len**2 * s_min**2 <= stopping_criteria["k_hard"] * lambdas.candidate:
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambdas.lower_bound, lambdas.upper_bound - s_min**2)
+    lambda_lower_bound = max(lambdas.lower_bound, lambdas.candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambdas.candidate
     )
diff --git a/src/tranquilo/subsolvers/gqtpar_fast.py b/src/tranquilo/subsolvers/gqtpar_fast.py
index 26e4a8d..dcb8599 100644
--- a/src/tranquilo/subsolvers/gqtpar_fast.py
+++ b/src/tranquilo/subsolvers/gqtpar_fast.py
@@ -322,13 +322,13 @@ def _check_for_interior_convergence_and_update(
         converged = True
 
     s_min, z_min = _estimate_smallest_singular_value(hessian_upper_triangular)
-    step_len = 2
+    step_len = 1.0
 
     if step_len**2 * s_min**2 <= stopping_criteria["k_hard"] * lambda_candidate:
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambda_lower_bound, lambda_upper_bound - s_min**2)
+    lambda_lower_bound = max(lambda_lower_bound, lambda_candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambda_candidate
     )
-- 
2.43.0


From 2448b54d7859ffcae5a2aa723f0a6eaa06c9f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 16/36] fix: keep subproblem solutions inside spherical trust
 regions

---
 src/tranquilo/solve_subproblem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/solve_subproblem.py b/src/tranquilo/solve_subproblem.py
index f08ed81..2d944a8 100644
--- a/src/tranquilo/solve_subproblem.py
+++ b/src/tranquilo/solve_subproblem.py
@@ -206,6 +206,8 @@ def _solve_subproblem_template(
 
     if trustregion.shape == "cube":
         raw_result["x"] = np.clip(raw_result["x"], -1.0, 1.0)
+    else:
+        raw_result["x"] = raw_result["x"] / max(1.0, np.linalg.norm(raw_result["x"]))
 
     # make sure expected improvement is calculated accurately in case of clipping and
     # does not depend on whether the subsolver ignores intercepts or not.
-- 
2.43.0


From 8bf659db0909f6406cca7dfd1a20332ee61860b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 17/36] fix: accept the built-in fallback solvers as cube
 subsolvers

---
 .../subsolvers/fallback_subsolvers.py         | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 0fdb711..586bf0c 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -8,16 +8,21 @@ from tranquilo.exploration_sample import draw_exploration_sample
 # ======================================================================================
 # Cube solvers
 # ======================================================================================
-def robust_cube_solver(model, x_candidate, radius=1.0):
+def robust_cube_solver(
+    model, x_candidate, radius=1.0, lower_bounds=None, upper_bounds=None
+):
     """Robust cube solver.
 
-    Argument `radius` corresponds to half of the side length of the cube.
+    Argument `radius` corresponds to half of the side length of the cube. It is only
+    used for bounds that are not provided.
 
     """
     crit, grad = _get_crit_and_grad(model)
 
-    lower_bounds = -radius * np.ones(len(x_candidate))
-    upper_bounds = radius * np.ones(len(x_candidate))
+    if lower_bounds is None:
+        lower_bounds = -radius * np.ones(len(x_candidate))
+    if upper_bounds is None:
+        upper_bounds = radius * np.ones(len(x_candidate))
 
     res = minimize(
         crit,
@@ -38,11 +43,18 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
     }
 
 
-def robust_cube_solver_multistart(model, x_candidate):
+def robust_cube_solver_multistart(
+    model, x_candidate, lower_bounds=None, upper_bounds=None
+):
+    if lower_bounds is None:
+        lower_bounds = -np.ones(len(x_candidate))
+    if upper_bounds is None:
+        upper_bounds = np.ones(len(x_candidate))
+
     start_values = draw_exploration_sample(
         x=x_candidate,
-        lower=-np.ones(len(x_candidate)),
-        upper=np.ones(len(x_candidate)),
+        lower=lower_bounds,
+        upper=upper_bounds,
         n_samples=100,
         sampling_distribution="uniform",
         sampling_method="sobol",
@@ -54,7 +66,9 @@ def robust_cube_solver_multistart(model, x_candidate):
     critvals = []
 
     for x in start_values:
-        res = robust_cube_solver(model, x)
+        res = robust_cube_solver(
+            model, x, lower_bounds=lower_bounds, upper_bounds=upper_bounds
+        )
 
         if res["criterion"] <= best_crit:
             accepted_x = res["x"]
-- 
2.43.0


From 35afdee706df3c0f1ba198f7741a407780383e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 18/36] fix: correct gradient descent step and step acceptance
 in bntr

---
 src/tranquilo/subsolvers/bntr.py      | 9 ++++-----
 src/tranquilo/subsolvers/bntr_fast.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 1f8dae5..83054ca 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -559,10 +559,9 @@ def _perform_gradient_descent_step(
     trustregion_radius = options_update_radius["default_radius"]
     radius_lower_bound = 0
     step_size_accepted = 0
+    x_old = x_candidate
 
     for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
-
         step_size_candidate = trustregion_radius / gradient_norm
         x_candidate = x_old - step_size_candidate * gradient_projected
 
@@ -601,7 +600,7 @@ def _perform_gradient_descent_step(
         )
 
     return (
-        x_candidate,
+        x_old,
         f_min,
         step_size_accepted,
         trustregion_radius,
@@ -628,9 +627,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = options["alpha1"] * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= max(1, abs(f_candidate)) * EPSILON and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= max(1, abs(f_candidate)) * EPSILON:
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index b02cc19..6648511 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -766,10 +766,9 @@ def _perform_gradient_descent_step(
     trustregion_radius = default_radius
     radius_lower_bound = 0
     step_size_accepted = 0
+    x_old = x_candidate
 
     for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
-
         step_size_candidate = trustregion_radius / gradient_norm
         x_candidate = x_old - step_size_candidate * gradient_projected
 
@@ -814,7 +813,7 @@ def _perform_gradient_descent_step(
         )
 
     return (
-        x_candidate,
+        x_old,
         f_min,
         step_size_accepted,
         trustregion_radius,
@@ -852,9 +851,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = alpha1 * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= max(1, abs(f_candidate)) * EPSILON and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= max(1, abs(f_candidate)) * EPSILON:
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
-- 
2.43.0


From d1fad2b5b4489130b85d5e4050bef81b75aa7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 19/36] fix: assign lagrange polynomial coefficients to the
 correct square terms

---
 src/tranquilo/poisedness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/poisedness.py b/src/tranquilo/poisedness.py
index 1359e0d..35bb9a5 100644
--- a/src/tranquilo/poisedness.py
+++ b/src/tranquilo/poisedness.py
@@ -176,8 +176,8 @@ def _reshape_coef_to_square_terms(coef, n_params):
     mat = np.empty((n_params, n_params))
     idx = -1
 
-    for j in range(n_params):
-        for i in range(j + 1):
+    for i in range(n_params):
+        for j in range(i, n_params):
             idx += 1
             mat[i, j] = coef[idx]
             mat[j, i] = coef[idx]
-- 
2.43.0


From 9723d35f6d95dce385b6d9caabf66422fd2c7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 20/36] fix: minimize the norm of the hessian in the powell
 fitter

---
 src/tranquilo/fit_models.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/fit_models.py b/src/tranquilo/fit_models.py
index 151ae5c..fafb13d 100644
--- a/src/tranquilo/fit_models.py
+++ b/src/tranquilo/fit_models.py
@@ -423,11 +423,13 @@ def _get_current_fit_minimal_frobenius_norm_of_hessian(
 
         rhs = y[:, k] - n_mat @ coeffs_second_stage
 
-        alpha, *_ = np.linalg.lstsq(m_mat, rhs[: n_params + 1], rcond=None)
+        alpha, *_ = np.linalg.lstsq(m_mat, rhs, rcond=None)
         coeffs_linear[k, :] = alpha[offset : (n_params + 1)]
 
         coeffs_square[k] = coeffs_second_stage
 
+    coeffs_square = coeffs_square / _get_hessian_norm_factors(n_params)
+
     coef = np.concatenate((coeffs_linear, coeffs_square), axis=1)
 
     return np.atleast_2d(coef)
@@ -440,6 +442,9 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     features = np.concatenate((intercept, _quadratic_features(x)), axis=1)
     m_mat, n_mat = np.split(features, (n_params + 1,), axis=1)
 
+    # rescale such that the norm of the coefficients is the norm of the hessian
+    n_mat = n_mat / _get_hessian_norm_factors(n_params)
+
     m_mat_pad = np.zeros((n_samples, n_samples))
     m_mat_pad[:, : n_params + 1] = m_mat
 
@@ -454,13 +459,19 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     )
 
     return (
-        m_mat[: n_params + 1, : n_params + 1],
+        m_mat,
         n_mat,
         z_mat[:, n_params + 1 : n_samples],
         n_z_mat[:, n_params + 1 : n_samples],
     )
 
 
+def _get_hessian_norm_factors(n_params):
+    """Factors that convert square coefficients to their share in the hessian norm."""
+    idx1, idx2 = np.triu_indices(n_params)
+    return np.where(idx1 == idx2, 2.0, np.sqrt(2))
+
+
 def _build_feature_matrix(x, model_type):
     raw = x if model_type == "linear" else _quadratic_features(x)
     intercept = np.ones((len(x), 1))
-- 
2.43.0


From 405952318a0613004b713925a83dac44e45ada86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 21/36] fix: stop after stopping_max_time and report which
 limit was reached

---
 src/tranquilo/tranquilo.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 845d2bb..f00d9f1 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -1,4 +1,5 @@
 import functools
+import time
 from typing import NamedTuple
 
 import numpy as np
@@ -50,6 +51,8 @@ def _internal_tranquilo(
     estimate_variance,
     accept_candidate,
 ):
+    start_time = time.perf_counter()
+
     if n_evals_at_start > 1:
         eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}
     else:
@@ -381,6 +384,13 @@ def _internal_tranquilo(
             msg = "Maximum number of criterion evaluations reached."
             break
 
+        if time.perf_counter() - start_time >= stop_options.max_time:
+            converged = False
+            msg = "Maximum run time reached."
+            break
+    else:
+        msg = "Maximum number of iterations reached."
+
     # ==================================================================================
     # results processing
     # ==================================================================================
-- 
2.43.0


From 3998cf8d5302a4e95176287a2c2780e0fc678637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:52 +0000
Subject: [PATCH 22/36] fix: respect convergence_min_trust_region_radius

---
 src/tranquilo/tranquilo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index f00d9f1..7ca1add 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -379,6 +379,11 @@ def _internal_tranquilo(
             if converged:
                 break
 
+        if not conv_options.disable and new_radius <= conv_options.min_radius:
+            converged = True
+            msg = "Trust-region radius smaller than tolerance."
+            break
+
         if history.get_n_fun() >= stop_options.max_eval:
             converged = False
             msg = "Maximum number of criterion evaluations reached."
-- 
2.43.0


From d9ff0ec4168bcfe726dcc95c33640edecfdb2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 23/36] fix: plot sample points of problems with one parameter

---
 src/tranquilo/visualize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tranquilo/visualize.py b/src/tranquilo/visualize.py
index 7d02902..5c08da6 100644
--- a/src/tranquilo/visualize.py
+++ b/src/tranquilo/visualize.py
@@ -204,6 +204,10 @@ def _plot_sample_points(history, state, color_dict, fig, row, col):
         trustregion = state.trustregion
         radius = trustregion.radius
         center = trustregion.center
+        if len(center) == 1:
+            # one dimensional points are plotted on a horizontal line
+            center = np.append(center, 0.0)
+            sample_points[1] = 0.0
         fig.add_shape(
             type="circle",
             xref="x",
-- 
2.43.0


From 84af0faf790db8acd1e7616324db504fa641f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:12 +0000
Subject: [PATCH 24/36] fix: moderate penalties for columns with only infinite
 values

The penalty of 5e300 overflowed as soon as residuals were squared and led to
infinite surrogate models on which subsolvers did not terminate.
---
 src/tranquilo/handle_infinity.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index ea89309..7d2a353 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -24,20 +24,17 @@ def clip_relative(fvecs):
     """
     _mask = np.isfinite(fvecs)
 
-    _mins = np.min(fvecs, axis=0, where=_mask, initial=1e300)
-    _maxs = np.max(fvecs, axis=0, where=_mask, initial=-1e300)
+    _mins = np.min(fvecs, axis=0, where=_mask, initial=np.inf)
+    _maxs = np.max(fvecs, axis=0, where=_mask, initial=-np.inf)
 
-    # abs is necessary because if all values are infinite, the diffs can switch sign
-    # due to the initial value in the masked min and max
-    _diff = _maxs - _mins
+    # If all values of a column are infinite, there is no worst finite value. We use
+    # zero instead because extremely large penalties would lead to overflows when the
+    # residuals are squared.
+    _any_finite = _mask.any(axis=0)
+    _mins = np.where(_any_finite, _mins, 0.0)
+    _maxs = np.where(_any_finite, _maxs, 0.0)
 
-    # Due to the initial value of the masked min and max, the sign of the diff can
-    # be negative if all values are infinite. In that case we want to switch the
-    # signe of _diff, _mins and _maxs.
-    _signs = np.where(_diff < 0, -1.0, 1.0)
-    _diff *= _signs
-    _maxs *= _signs
-    _mins *= _signs
+    _diff = _maxs - _mins
 
     _pos_penalty = _maxs + 2 * _diff + 1
     _neg_penalty = _mins - 2 * _diff - 1
-- 
2.43.0


From 0a75901e8cf15f9471e5d66ca7a5bba78948cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:12 +0000
Subject: [PATCH 25/36] fix: terminate bntr on models with infinite or missing
 terms

A trust-region radius of NaN never equals the old radius, so the inner loop did
not end.
---
 src/tranquilo/subsolvers/bntr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 83054ca..8d1e33f 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -207,7 +207,9 @@ def bntr(
                 x_candidate = x_old
                 f_candidate = f_old
 
-                if trustregion_radius == trustregion_radius_old:
+                if trustregion_radius == trustregion_radius_old or not np.isfinite(
+                    trustregion_radius
+                ):
                     converged = True
                     break
 
-- 
2.43.0


From 222528bb7af57188b044212ef97222157449e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 26/36] fix: linear trsbox solver considers all bounds in every
 step

---
 src/tranquilo/subsolvers/linear_subsolvers.py | 42 +++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/tranquilo/subsolvers/linear_subsolvers.py b/src/tranquilo/subsolvers/linear_subsolvers.py
index fd33dda..2d8d6a2 100644
--- a/src/tranquilo/subsolvers/linear_subsolvers.py
+++ b/src/tranquilo/subsolvers/linear_subsolvers.py
@@ -57,9 +57,6 @@ def minimize_trsbox_linear(
     indices_inactive_directions = np.where(np.abs(direction) < zero_treshold)[0]
     direction[indices_inactive_directions] = 0
 
-    active_directions = np.setdiff1d(np.arange(n), indices_inactive_directions)
-    set_active_directions = iter(active_directions)
-
     for _ in range(n):
         if np.linalg.norm(direction) < zero_treshold:
             break
@@ -69,10 +66,11 @@ def minimize_trsbox_linear(
         )
 
         active_bound, index_active_bound = _find_next_active_bound(
+            x_candidate,
             x_candidate_unconstr,
+            direction,
             lower_bounds_internal,
             upper_bounds_internal,
-            set_active_directions,
         )
 
         if active_bound is None:
@@ -179,10 +177,11 @@ def improve_geomtery_trsbox_linear(
 
 
 def _find_next_active_bound(
+    x_candidate,
     x_candidate_unconstr,
+    direction,
     lower_bounds,
     upper_bounds,
-    set_active_directions,
 ):
     """Find the next active bound and return its index.
 
@@ -190,15 +189,19 @@ def _find_next_active_bound(
         x_candidate <= lower_bounds
         x_candidate >= upper_bounds
 
+    If several bounds are active, the one that is reached first on the way from
+    x_candidate to x_candidate_unconstr is the next active bound.
+
     Args:
+        x_candidate (np.ndarray): Current candidate vector of shape (n,).
         x_candidate_unconstr (np.ndarray): Unconstrained candidate vector of shape (n,),
             which ignores bound constraints.
+        direction (np.ndarray): Direction vector of shape (n,). Only directions that
+            are not zero are searched.
         lower_bounds (np.ndarray): 1d array of shape (n,) with lower bounds
             for the parameter vector x.
         upper_bounds (np.ndarray): 1d array of shape (n,) with upper bounds
             for the parameter vector x.
-        set_active_directions (iterator): Iterator over the indices of active search
-            directions, i.e. directions that are not zero.
 
     Returns:
         Tuple:
@@ -209,25 +212,20 @@ def _find_next_active_bound(
                 upper bound has been found. None, if no active bound has been detected.
 
     """
-    index_active = next(set_active_directions)
+    candidate_bounds = np.where(direction > 0, upper_bounds, lower_bounds)
 
-    while True:
-        if x_candidate_unconstr[index_active] >= upper_bounds[index_active]:
-            active_bound = upper_bounds[index_active]
-            break
+    is_active = (x_candidate_unconstr >= upper_bounds) | (
+        x_candidate_unconstr <= lower_bounds
+    )
+    indices = np.where(is_active & (direction != 0))[0]
 
-        elif x_candidate_unconstr[index_active] <= lower_bounds[index_active]:
-            active_bound = lower_bounds[index_active]
-            break
+    if len(indices) == 0:
+        return None, None
 
-        else:
-            try:
-                index_active = next(set_active_directions)
-            except StopIteration:
-                active_bound = None
-                break
+    step_sizes = (candidate_bounds[indices] - x_candidate[indices]) / direction[indices]
+    index_active = indices[np.argmin(step_sizes)]
 
-    return active_bound, index_active
+    return candidate_bounds[index_active], index_active
 
 
 def _take_constrained_step_up_to_boundary(
-- 
2.43.0


From 0ecdeab347bf1a9f90ae2fd7485fd0117ba9292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:29 +0000
Subject: [PATCH 27/36] fix: bntr passes only free coordinates to the bounded
 conjugate gradient step

---
 src/tranquilo/subsolvers/bntr.py      | 2 +-
 src/tranquilo/subsolvers/bntr_fast.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 8d1e33f..d9ed286 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -412,7 +412,7 @@ def _compute_conjugate_gradient_step(
         step_norm = np.linalg.norm(step_inactive)
 
         conjugate_gradient_step = _apply_bounds_to_conjugate_gradient_step(
-            step_inactive,
+            step_inactive[active_bounds_info.inactive],
             x_candidate,
             lower_bounds,
             upper_bounds,
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 6648511..2b364aa 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -592,7 +592,7 @@ def _compute_conjugate_gradient_step(
         step_norm = np.linalg.norm(step_inactive)
 
         conjugate_gradient_step = _apply_bounds_to_conjugate_gradient_step(
-            step_inactive,
+            step_inactive[inactive_bounds],
             x_candidate,
             lower_bounds,
             upper_bounds,
-- 
2.43.0


From 3e55ba5d09f789ce0b499d1db8ab0c70d50d2a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:29 +0000
Subject: [PATCH 28/36] fix: bntr determines the first active set from the
 gradient at the start value

---
 src/tranquilo/subsolvers/bntr.py      | 4 ++--
 src/tranquilo/subsolvers/bntr_fast.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index d9ed286..58120cf 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -271,14 +271,14 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model.linear_terms, model.square_terms
     )
 
+    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
     active_bounds_info = _get_information_on_active_bounds(
         x_candidate,
-        model.linear_terms,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
 
-    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, active_bounds_info
     )
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 2b364aa..10fbdc7 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -396,6 +396,7 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model_gradient, model_hessian
     )
 
+    gradient_unprojected = model_gradient + model_hessian @ x_candidate
     (
         active_lower_bounds,
         active_upper_bounds,
@@ -403,12 +404,11 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         inactive_bounds,
     ) = _get_information_on_active_bounds(
         x_candidate,
-        model_gradient,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
 
-    gradient_unprojected = model_gradient + model_hessian @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, inactive_bounds
     )
-- 
2.43.0


From b2e16687a4c37b0f491145dd7f96c5d2e2dcda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 29/36] fix: stop steihaug-toint after the first direction of
 nonpositive curvature

---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 2 ++
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index ad64c81..89ebebb 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -82,6 +82,8 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
             n_iter,
         )
 
+        return x_candidate
+
     for _ in range(max_iter):
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 1e87fcf..969def9 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -87,6 +87,8 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
             n_iter,
         )
 
+        return x_candidate
+
     for _ in range(max_iter):
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
-- 
2.43.0


From cd92dc9a0da95e2f3bac191f4b9a1d32de5b5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 30/36] fix: trsbox_fast initialises the index of the active
 bound

---
 src/tranquilo/subsolvers/_trsbox_fast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/subsolvers/_trsbox_fast.py b/src/tranquilo/subsolvers/_trsbox_fast.py
index c5cf225..90397dc 100644
--- a/src/tranquilo/subsolvers/_trsbox_fast.py
+++ b/src/tranquilo/subsolvers/_trsbox_fast.py
@@ -481,6 +481,8 @@ def _calc_upper_bound_on_tangent(
     """Calculate upper bound on tangent of half the angle to the boundary."""
     bound_on_tangent = 1
     free_variable_reached_bound = False
+    index_active_bound = np.zeros(0, dtype=np.int64)
+    active_bound = np.zeros(0, dtype=np.int64)
 
     for i in range(len(x_candidate)):
         if x_bounded[i] == 0:
-- 
2.43.0


From f26a93dfbdd0cc2d98055eb3c5ac42e0f68f3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:37 +0000
Subject: [PATCH 31/36] fix: bntr recognises steps to the trust-region boundary
 despite rounding

---
 src/tranquilo/subsolvers/bntr.py      | 2 +-
 src/tranquilo/subsolvers/bntr_fast.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 58120cf..860a3ec 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -646,7 +646,7 @@ def _update_trustregion_radius_conjugate_gradient(
 
                 # Update the trust-region radius only if the computed step is at the
                 # trust-radius boundary
-                if x_norm_cg == trustregion_radius:
+                if abs(x_norm_cg - trustregion_radius) <= 1e-8 * trustregion_radius:
                     if kappa < options["eta2"]:
                         # Marginal bad step
                         trustregion_radius = options["alpha2"] * trustregion_radius
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 10fbdc7..f1b24a9 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -866,7 +866,7 @@ def _update_trustregion_radius_conjugate_gradient(
 
                 # Update the trust-region radius only if the computed step is at the
                 # trust-radius boundary
-                if x_norm_cg == trustregion_radius:
+                if abs(x_norm_cg - trustregion_radius) <= 1e-8 * trustregion_radius:
                     if kappa < eta2:
                         # Marginal bad step
                         trustregion_radius = alpha2 * trustregion_radius
-- 
2.43.0


From e16314edaec98e455d984e4c4bac65a668dd95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:37 +0000
Subject: [PATCH 32/36] fix: bntr_fast handles zero denominators in radius
 updates like bntr

---
 src/tranquilo/subsolvers/bntr_fast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index f1b24a9..b580dcd 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -821,7 +821,7 @@ def _perform_gradient_descent_step(
     )
 
 
-@njit
+@njit(error_model="numpy")
 def _update_trustregion_radius_conjugate_gradient(
     f_candidate,
     predicted_reduction,
@@ -1015,7 +1015,7 @@ def _apply_bounds_to_conjugate_gradient_step(
     return cg_step
 
 
-@njit
+@njit(error_model="numpy")
 def _update_trustregion_radius_and_gradient_descent(
     trustregion_radius,
     radius_lower_bound,
-- 
2.43.0


From 98797e641b88484c295d19227fc321712234d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:49 +0000
Subject: [PATCH 33/36] fix: start Steihaug-Toint conjugate gradient with the
 residual

The first direction was hessian @ pinv(hessian) @ residual, which is a
projection of the residual for singular Hessians, while the step length
assumed the residual. For singular Hessians this took wrong steps and
reported success at points that are not stationary.
---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 4 ++--
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index 89ebebb..9a3a10d 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -41,7 +41,6 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
 
     max_iter = min(n, 10_000)
 
-    z = np.linalg.pinv(model_hessian) @ residual
     rz = residual @ residual
 
     n_iter = 0
@@ -56,7 +55,8 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
         norm_r, norm_r0, abstol, ttol, divtol, converged, diverged
     )
 
-    p = model_hessian @ z
+    # without a preconditioner, the first direction is the residual itself
+    p = residual
     z = model_hessian @ p
     n_iter += 1
 
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 969def9..54d62a2 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -43,7 +43,6 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
 
     max_iter = min(n, 10_000)
 
-    z = np.linalg.pinv(model_hessian) @ residual
     rz = residual @ residual
 
     n_iter = 0
@@ -61,7 +60,8 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
         norm_r, norm_r0, abstol, ttol, divtol, converged, diverged
     )
 
-    p = model_hessian @ z
+    # without a preconditioner, the first direction is the residual itself
+    p = residual
     z = model_hessian @ p
     n_iter += 1
 
-- 
2.43.0


From af6b8823ef1ea21236fa06c763aa81c96b8c822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:41 +0000
Subject: [PATCH 34/36] fix: support components without a __name__

Functions wrapped by functools.partial and callable objects have no __name__.
Using one as a component failed, and so did every warning about redundant
arguments, because the options are partialled into the component first.
---
 src/tranquilo/get_component.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/get_component.py b/src/tranquilo/get_component.py
index 8707ff7..d0740cb 100644
--- a/src/tranquilo/get_component.py
+++ b/src/tranquilo/get_component.py
@@ -111,7 +111,7 @@ def _get_function_and_name(name_or_func, component_name, func_dict):
             raise ValueError(msg)
     elif callable(name_or_func):
         _func = name_or_func
-        _name = _func.__name__
+        _name = getattr(_func, "__name__", repr(_func))
     else:
         raise TypeError("name_or_func must be a string or a callable.")
 
@@ -210,6 +210,9 @@ def _add_redundant_argument_handling(func, signature, warn):
         callable: The wrapped function.
 
     """
+    # options are usually partialled into func
+    _unwrapped = getattr(func, "func", func)
+    _name = getattr(_unwrapped, "__name__", repr(_unwrapped))
 
     @functools.wraps(func)
     def _wrapper_add_redundant_argument_handling(*args, **kwargs):
@@ -221,7 +224,7 @@ def _add_redundant_argument_handling(func, signature, warn):
         if warn and _redundant:
             msg = (
                 f"The following arguments are not supported by the function "
-                f"{func.__name__} and will be ignored: {_redundant}."
+                f"{_name} and will be ignored: {_redundant}."
             )
             warnings.warn(msg)
 
-- 
2.43.0


From 5b10755ed15d101a6dc15c50cb11cb9712cfaf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 35/36] fix: measure the distance to the border of a cube
 relative to its size

The tolerance was relative to the absolute value of the bounds. Far away from
the origin every candidate counted as being on the border and caused a line
search, near the origin only candidates within 1e-8 of the border did.
---
 src/tranquilo/acceptance_decision.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index b2d95e3..4a3d47b 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -531,8 +531,14 @@ def _is_on_sphere_border(trustregion, x, rtol):
 
 def _is_on_cube_border(trustregion, x, rtol):
     cube_bounds = trustregion.cube_bounds
-    is_on_lower_border = np.isclose(x, cube_bounds.lower, rtol=rtol).any()
-    is_on_upper_border = np.isclose(x, cube_bounds.upper, rtol=rtol).any()
+    center = trustregion.cube_center
+    # the tolerance is relative to the size of the cube, not to the location of x
+    is_on_lower_border = np.isclose(
+        x - center, cube_bounds.lower - center, rtol=rtol
+    ).any()
+    is_on_upper_border = np.isclose(
+        x - center, cube_bounds.upper - center, rtol=rtol
+    ).any()
     return is_on_lower_border or is_on_upper_border
 
 
-- 
2.43.0


From ce7fd3cef6fb18576c403017f1bff0fa5abe2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:40 +0000
Subject: [PATCH 36/36] fix: residualize models with respect to the model of
 the previous iteration

State.vector_model was never updated, so that the deviations were always taken from the
initial constant model.
---
 src/tranquilo/tranquilo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 7ca1add..a163512 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -311,9 +311,12 @@ def _internal_tranquilo(
         # update state with information on this iteration
         # ==============================================================================
 
+        old_vector_model = state.vector_model
+
         state = state._replace(
             model_indices=model_indices,
             model=scalar_model,
+            vector_model=vector_model,
             new_indices=np.setdiff1d(model_indices, old_indices),
             old_indices_used=np.intersect1d(model_indices, old_indices),
             old_indices_discarded=np.setdiff1d(old_indices, model_indices),
@@ -331,7 +334,7 @@ def _internal_tranquilo(
             rho_noise_vec = simulate_rho_noise(
                 xs=model_xs,
                 vector_model=vector_model,
-                old_vector_model=state.vector_model,
+                old_vector_model=old_vector_model,
                 trustregion=state.trustregion,
                 noise_cov=noise_cov,
                 model_fitter=fit_model,
-- 
2.43.0

