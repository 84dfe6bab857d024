From 40f45cd5c70788a1af267bbf79f5e067fdd3d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 01/32] fix: check stopping criteria of steepest descent before
 the line search

Started at a critical point the line search was run with a zero direction
(0/0 step) and returned a NaN point, and the reported gradient norm belonged
to the iterate before the returned point.
---
 src/pymanopt/optimizers/steepest_descent.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index eabc4ef..36087ee 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -86,6 +86,7 @@ class SteepestDescent(Optimizer):
 
         # Initialize iteration counter and timer
         iteration = 0
+        step_size = np.nan
         start_time = time.time()
 
         while True:
@@ -105,14 +106,6 @@ class SteepestDescent(Optimizer):
                 gradient_norm=gradient_norm,
             )
 
-            # Descent direction is minus the gradient
-            desc_dir = -grad
-
-            # Perform line-search
-            step_size, x = line_searcher.search(
-                objective, manifold, x, desc_dir, cost, -(gradient_norm**2)
-            )
-
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
                 step_size=step_size,
@@ -126,10 +119,18 @@ class SteepestDescent(Optimizer):
                     print("")
                 break
 
+            # Descent direction is minus the gradient
+            desc_dir = -grad
+
+            # Perform line-search
+            step_size, x = line_searcher.search(
+                objective, manifold, x, desc_dir, cost, -(gradient_norm**2)
+            )
+
         return self._return_result(
             start_time=start_time,
             point=x,
-            cost=objective(x),
+            cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
             cost_evaluations=iteration,
-- 
2.43.0


From c6b779ad8270454c08fbf6995f0794a0304db396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 02/32] fix: conjugate gradient at critical points and after
 rejected steps

An iterate with exactly zero gradient made Powell's restart test divide by
zero, the Hager-Zhang rule divided by zero after a rejected step, and a NaN
search direction was not recognised as a non-descent direction.
---
 src/pymanopt/optimizers/conjugate_gradient.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index b9fe6ef..d3cb61d 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -91,6 +91,9 @@ def _beta_hager_zhang(
     Poldgrad = manifold.transport(x, newx, Pgrad)
     Pdiff = Pnewgrad - Poldgrad
     denominator = manifold.inner_product(newx, diff, descent_direction)
+    # A rejected step leaves the gradient as it was.
+    if denominator == 0:
+        return 0
     numerator = manifold.inner_product(newx, diff, Pnewgrad)
     numerator -= (
         2
@@ -288,7 +291,7 @@ class ConjugateGradient(Optimizer):
             # If we didn't get a descent direction: restart, i.e., switch to
             # the negative gradient. Equivalent to resetting the CG direction
             # to a steepest descent step, which discards the past information.
-            if df0 >= 0:
+            if not df0 < 0:
                 # Or we switch to the negative gradient direction.
                 if self._verbosity >= 3:
                     print(
@@ -314,11 +317,11 @@ class ConjugateGradient(Optimizer):
 
             # Powell's restart strategy.
             oldgrad = manifold.transport(x, newx, grad)
-            orth_grads = (
-                manifold.inner_product(newx, oldgrad, Pnewgrad)
-                / newgradPnewgrad
-            )
-            if abs(orth_grads) >= self._orth_value:
+            orth_grads = manifold.inner_product(newx, oldgrad, Pnewgrad)
+            if (
+                newgradPnewgrad == 0
+                or abs(orth_grads / newgradPnewgrad) >= self._orth_value
+            ):
                 beta = 0
                 descent_direction = -Pnewgrad
             else:
-- 
2.43.0


From fda0a7907829e3c5d821946a6a30fe705a370ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 03/32] fix: accept a valid initial simplex in Nelder-Mead

The length test was inverted: simplices of the right size were rejected and
all others accepted.
---
 src/pymanopt/optimizers/nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 609cc83..4801195 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -100,7 +100,7 @@ class NelderMead(Optimizer):
             x = [manifold.random_point() for _ in range(num_points)]
         elif (
             tools.is_sequence(initial_point)
-            and len(initial_point) != num_points
+            and len(initial_point) == num_points
         ):
             x = initial_point
         else:
-- 
2.43.0


From 868c2740b3ddf43d0f43d1044fd4e699a5d2999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 04/32] fix: do not overwrite the caller's initial population
 in particle swarm

---
 src/pymanopt/optimizers/particle_swarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 9f9fb56..d3f28ef 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -81,7 +81,7 @@ class ParticleSwarm(Optimizer):
                     "the given initial population"
                 )
                 self._population_size = len(initial_point)
-            x = initial_point
+            x = list(initial_point)
         else:
             raise ValueError("The initial population must be iterable")
 
-- 
2.43.0


From 382c4986da95657593d5b4cd6fc46d813f8774f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 05/32] fix: verbose output with zero or infinite
 max_iterations

Computing the column width via log10 raised an OverflowError.
---
 src/pymanopt/optimizers/conjugate_gradient.py | 2 +-
 src/pymanopt/optimizers/particle_swarm.py     | 2 +-
 src/pymanopt/optimizers/steepest_descent.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index d3cb61d..6bdfff5 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -223,7 +223,7 @@ class ConjugateGradient(Optimizer):
         if self._verbosity >= 1:
             print("Optimizing...")
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index d3f28ef..7d3d6d9 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -105,7 +105,7 @@ class ParticleSwarm(Optimizer):
         xbest = x[imin]
 
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index 36087ee..2f12aef 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -67,7 +67,7 @@ class SteepestDescent(Optimizer):
         if self._verbosity >= 1:
             print("Optimizing...")
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = len(str(self._max_iterations))
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
-- 
2.43.0


From 2771642ff95a4f38295c1598018c747906fb36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 06/32] fix: zero residual in the truncated conjugate gradient
 method

Started at a critical point the step length was 0/0, and the cost function
was evaluated at a NaN point.
---
 src/pymanopt/optimizers/trust_regions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index ef199d0..0867176 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -460,6 +460,10 @@ class TrustRegions(Optimizer):
         norm_r = np.sqrt(r_r)
         norm_r0 = norm_r
 
+        # There is nothing left to solve for at a critical point of the model.
+        if norm_r == 0:
+            return eta, Heta, 0, self.REACHED_TARGET_SUPERLINEAR
+
         # Precondition the residual
         if not self.use_rand:
             z = preconditioner(x, r)
-- 
2.43.0


From c6b8d3243f8f290062a366691e99d89ae9af7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 07/32] fix: line searches with NaN costs and after rejected
 steps

Points with NaN cost were accepted as decreases.  After a rejected step the
adaptive line search suggested a zero step for ever, and back-tracking tried
a zero step (or a backward one if the cost had gone up between two runs with
a reused line searcher).
---
 src/pymanopt/optimizers/line_search.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 94dc725..2be6d52 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -1,3 +1,6 @@
+import numpy as np
+
+
 class BackTrackingLineSearcher:
     """Back-tracking line-search algorithm."""
 
@@ -35,7 +38,7 @@ class BackTrackingLineSearcher:
         # Compute the norm of the search direction
         norm_d = manifold.norm(x, d)
 
-        if self._oldf0 is not None:
+        if self._oldf0 is not None and f0 < self._oldf0 < np.inf:
             # Pick initial step size based on where we were last time.
             alpha = 2 * (f0 - self._oldf0) / df0
             # Look a little further
@@ -51,7 +54,7 @@ class BackTrackingLineSearcher:
 
         # Backtrack while the Armijo criterion is not satisfied
         while (
-            newf > f0 + self.sufficient_decrease * alpha * df0
+            not newf <= f0 + self.sufficient_decrease * alpha * df0
             and step_count <= self.max_iterations
         ):
 
@@ -65,7 +68,7 @@ class BackTrackingLineSearcher:
             step_count = step_count + 1
 
         # If we got here without obtaining a decrease, we reject the step.
-        if newf > f0:
+        if not newf <= f0:
             alpha = 0
             newx = x
 
@@ -106,7 +109,7 @@ class AdaptiveLineSearcher:
         cost_evaluations = 1
 
         while (
-            newf > f0 + self._sufficient_decrease * alpha * df0
+            not newf <= f0 + self._sufficient_decrease * alpha * df0
             and cost_evaluations <= self._max_iterations
         ):
             # Reduce the step size.
@@ -118,7 +121,7 @@ class AdaptiveLineSearcher:
 
             cost_evaluations += 1
 
-        if newf > f0:
+        if not newf <= f0:
             alpha = 0
             newx = x
 
@@ -130,8 +133,11 @@ class AdaptiveLineSearcher:
         # the reason why this line search is not invariant under rescaling of
         # the search direction d.
 
+        # A rejected step says nothing about the next one: start over.
+        if alpha == 0:
+            self._oldalpha = None
         # If things go reasonably well, try to keep pace.
-        if cost_evaluations == 2:
+        elif cost_evaluations == 2:
             self._oldalpha = alpha
         # If things went very well or we backtracked a lot (meaning the step
         # size is probably quite small), speed up.
-- 
2.43.0


From beb008e06d9295253d8e420effe17f17849b4ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 08/32] fix: line search along a zero direction

The initial step was 1/0, and the cost was evaluated at a NaN point.
---
 src/pymanopt/optimizers/line_search.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 2be6d52..1c91b94 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -38,6 +38,10 @@ class BackTrackingLineSearcher:
         # Compute the norm of the search direction
         norm_d = manifold.norm(x, d)
 
+        # There is nowhere to go along a zero direction.
+        if norm_d == 0:
+            return 0, x
+
         if self._oldf0 is not None and f0 < self._oldf0 < np.inf:
             # Pick initial step size based on where we were last time.
             alpha = 2 * (f0 - self._oldf0) / df0
@@ -98,6 +102,10 @@ class AdaptiveLineSearcher:
     def search(self, objective, manifold, x, d, f0, df0):
         norm_d = manifold.norm(x, d)
 
+        # There is nowhere to go along a zero direction.
+        if norm_d == 0:
+            return 0, x
+
         if self._oldalpha is not None:
             alpha = self._oldalpha
         else:
-- 
2.43.0


From 196106b88df184697ca2fc62638915855343617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 09/32] fix: do not carry problem dependent defaults over to
 later runs

Nelder-Mead and particle swarm kept limits and population sizes derived from
the dimension of the first problem (or its initial population) in the
optimizer, so later runs depended on what the object was used for before.
---
 src/pymanopt/optimizers/nelder_mead.py    |  6 ++++--
 src/pymanopt/optimizers/particle_swarm.py | 24 +++++++++++------------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 4801195..87f7c1c 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -62,8 +62,8 @@ class NelderMead(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._max_cost_evaluations_option = max_cost_evaluations
+        self._max_iterations_option = max_iterations
         self._reflection = reflection
         self._expansion = expansion
         self._contraction = contraction
@@ -89,8 +89,10 @@ class NelderMead(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._max_cost_evaluations_option
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(1000, 2 * dim)
+        self._max_iterations = self._max_iterations_option
         if self._max_iterations is None:
             self._max_iterations = max(2000, 4 * dim)
 
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 7d3d6d9..b4f5e3b 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -33,8 +33,8 @@ class ParticleSwarm(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._max_cost_evaluations_option = max_cost_evaluations
+        self._max_iterations_option = max_iterations
         self._population_size = population_size
         self._nostalgia = nostalgia
         self._social = social
@@ -60,27 +60,27 @@ class ParticleSwarm(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._max_cost_evaluations_option
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(5000, 2 * dim)
+        self._max_iterations = self._max_iterations_option
         if self._max_iterations is None:
             self._max_iterations = max(500, 4 * dim)
-        if self._population_size is None:
-            self._population_size = min(40, 10 * dim)
+        population_size = self._population_size
+        if population_size is None:
+            population_size = min(40, 10 * dim)
 
         # If no initial population x is given by the user, generate one at
         # random.
         if initial_point is None:
-            x = [
-                manifold.random_point()
-                for i in range(int(self._population_size))
-            ]
+            x = [manifold.random_point() for i in range(int(population_size))]
         elif tools.is_sequence(initial_point):
-            if len(initial_point) != self._population_size:
+            if len(initial_point) != population_size:
                 print(
                     "The population size was forced to the size of "
                     "the given initial population"
                 )
-                self._population_size = len(initial_point)
+                population_size = len(initial_point)
             x = list(initial_point)
         else:
             raise ValueError("The initial population must be iterable")
@@ -97,7 +97,7 @@ class ParticleSwarm(Optimizer):
         # Compute cost for each particle xi.
         costs = np.array([objective(xi) for xi in x])
         fy = list(costs)
-        cost_evaluations = self._population_size
+        cost_evaluations = population_size
 
         # Identify the best particle and store its cost/position.
         imin = costs.argmin()
@@ -198,7 +198,7 @@ class ParticleSwarm(Optimizer):
                     if fy[i] < fbest:
                         fbest = fy[i]
                         xbest = xi
-            cost_evaluations += self._population_size
+            cost_evaluations += population_size
 
         return self._return_result(
             start_time=start_time,
-- 
2.43.0


From a7b631b3f3df96074299fee536ca99016a64e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 10/32] fix: print nothing at verbosity 0

---
 src/pymanopt/optimizers/particle_swarm.py | 9 +++++----
 src/pymanopt/optimizers/trust_regions.py  | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index b4f5e3b..f611ba4 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -76,10 +76,11 @@ class ParticleSwarm(Optimizer):
             x = [manifold.random_point() for i in range(int(population_size))]
         elif tools.is_sequence(initial_point):
             if len(initial_point) != population_size:
-                print(
-                    "The population size was forced to the size of "
-                    "the given initial population"
-                )
+                if self._verbosity >= 1:
+                    print(
+                        "The population size was forced to the size of "
+                        "the given initial population"
+                    )
                 population_size = len(initial_point)
             x = list(initial_point)
         else:
diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 0867176..a9204b9 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -326,10 +326,11 @@ class TrustRegions(Optimizer):
                 # stagnation in this "corner case" (NaN's really aren't
                 # supposed to occur, but it's nice if we can handle them
                 # nonetheless).
-                print(
-                    "rho is NaN! Forcing a radius decrease. This should "
-                    "not happen."
-                )
+                if self._verbosity >= 1:
+                    print(
+                        "rho is NaN! Forcing a radius decrease. This should "
+                        "not happen."
+                    )
                 rho = np.nan
 
             # Choose the new TR radius based on the model performance
-- 
2.43.0


From 54745b5ff7cb4eff5eec8d6cd306ad7a7fb6b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 11/32] fix: NaN and integer costs of initial points in
 population methods

A NaN cost in the initial population was taken for the best cost for ever,
and later costs were truncated if all initial ones were integers.
---
 src/pymanopt/optimizers/nelder_mead.py    | 2 +-
 src/pymanopt/optimizers/particle_swarm.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 87f7c1c..384e8e9 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -113,7 +113,7 @@ class NelderMead(Optimizer):
 
         # Compute objective-related quantities for x, and setup a function
         # evaluations counter.
-        costs = np.array([objective(xi) for xi in x])
+        costs = np.array([objective(xi) for xi in x], dtype=float)
         cost_evaluations = dim + 1
 
         # Sort simplex points by cost.
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index f611ba4..3379c9f 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -96,7 +96,9 @@ class ParticleSwarm(Optimizer):
         v = [manifold.random_tangent_vector(xi) for xi in x]
 
         # Compute cost for each particle xi.
-        costs = np.array([objective(xi) for xi in x])
+        costs = np.array([objective(xi) for xi in x], dtype=float)
+        # A particle without a valid cost must not be mistaken for the best.
+        costs[np.isnan(costs)] = np.inf
         fy = list(costs)
         cost_evaluations = population_size
 
-- 
2.43.0


From 09ec954ab82473bb9403a1282ec951dede8b30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 12/32] fix: report the number of cost evaluations actually
 made

Steepest descent and conjugate gradient reported the number of iterations,
and Nelder-Mead evaluated the cost once more than it counted.
---
 src/pymanopt/optimizers/conjugate_gradient.py | 10 ++++++++--
 src/pymanopt/optimizers/nelder_mead.py        |  2 +-
 src/pymanopt/optimizers/steepest_descent.py   | 10 ++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index 6bdfff5..162828f 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -207,9 +207,15 @@ class ConjugateGradient(Optimizer):
             algorithm terminated before convergence.
         """
         manifold = problem.manifold
-        objective = problem.cost
         gradient = problem.riemannian_gradient
 
+        cost_evaluations = 0
+
+        def objective(point):
+            nonlocal cost_evaluations
+            cost_evaluations += 1
+            return problem.cost(point)
+
         if not reuse_line_searcher or self.line_searcher is None:
             self.line_searcher = deepcopy(self._line_searcher)
         line_searcher = self.line_searcher
@@ -360,7 +366,7 @@ class ConjugateGradient(Optimizer):
             cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
-            cost_evaluations=iteration,
+            cost_evaluations=cost_evaluations,
             step_size=step_size,
             gradient_norm=gradient_norm,
         )
diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 384e8e9..9a1354b 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -228,7 +228,7 @@ class NelderMead(Optimizer):
             cost_evaluations += dim
 
         x = x[0]
-        cost = objective(x)
+        cost = costs[0]
         return self._return_result(
             start_time=start_time,
             point=x,
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index 2f12aef..ea6829b 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -51,9 +51,15 @@ class SteepestDescent(Optimizer):
             algorithm terminated before convergence.
         """
         manifold = problem.manifold
-        objective = problem.cost
         gradient = problem.riemannian_gradient
 
+        cost_evaluations = 0
+
+        def objective(point):
+            nonlocal cost_evaluations
+            cost_evaluations += 1
+            return problem.cost(point)
+
         if not reuse_line_searcher or self.line_searcher is None:
             self.line_searcher = deepcopy(self._line_searcher)
         line_searcher = self.line_searcher
@@ -133,7 +139,7 @@ class SteepestDescent(Optimizer):
             cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
-            cost_evaluations=iteration,
+            cost_evaluations=cost_evaluations,
             step_size=step_size,
             gradient_norm=gradient_norm,
         )
-- 
2.43.0


From da3a0af8f47062d56ecae21bfdff337430127afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 13/32] fix: honour max_cost_evaluations in the gradient based
 optimizers

The documented limit was ignored by steepest descent, conjugate gradient and
trust regions.
---
 src/pymanopt/optimizers/conjugate_gradient.py | 1 +
 src/pymanopt/optimizers/steepest_descent.py   | 1 +
 src/pymanopt/optimizers/trust_regions.py      | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index 162828f..6fc0331 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -281,6 +281,7 @@ class ConjugateGradient(Optimizer):
                 start_time=start_time,
                 gradient_norm=gradient_norm,
                 iteration=iteration,
+                cost_evaluations=cost_evaluations,
                 step_size=step_size,
             )
 
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index ea6829b..9f78112 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -117,6 +117,7 @@ class SteepestDescent(Optimizer):
                 step_size=step_size,
                 gradient_norm=gradient_norm,
                 iteration=iteration,
+                cost_evaluations=cost_evaluations,
             )
 
             if stopping_criterion:
diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index a9204b9..c6d900c 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -149,6 +149,7 @@ class TrustRegions(Optimizer):
 
         # Initialize solution and companion measures: f(x), fgrad(x)
         fx = cost(x)
+        cost_evaluations = 1
         fgradx = gradient(x)
         norm_grad = manifold.norm(x, fgradx)
 
@@ -249,6 +250,7 @@ class TrustRegions(Optimizer):
 
             # Compute the function value of the proposal
             fx_prop = cost(x_prop)
+            cost_evaluations += 1
 
             # Will we accept the proposal or not? Check the performance of the
             # quadratic model against the actual cost.
@@ -422,6 +424,7 @@ class TrustRegions(Optimizer):
                 start_time=start_time,
                 gradient_norm=norm_grad,
                 iteration=iteration,
+                cost_evaluations=cost_evaluations,
             )
 
             if stopping_criterion:
@@ -436,6 +439,7 @@ class TrustRegions(Optimizer):
             cost=fx,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
+            cost_evaluations=cost_evaluations,
             gradient_norm=norm_grad,
         )
 
-- 
2.43.0


From 3ee105bad15f76d03cf8d71762fbec75d4e6b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 14/32] fix: log iterations in the remaining optimizers

With log_verbosity=1 the log of trust regions, Nelder-Mead and particle swarm
stayed empty, although information is documented to be logged for each
iteration.
---
 src/pymanopt/optimizers/nelder_mead.py    | 2 ++
 src/pymanopt/optimizers/particle_swarm.py | 2 ++
 src/pymanopt/optimizers/trust_regions.py  | 7 +++++++
 3 files changed, 11 insertions(+)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 9a1354b..35d04fd 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -143,6 +143,8 @@ class NelderMead(Optimizer):
             costs = costs[order]
             x = [x[i] for i in order]
 
+            self._add_log_entry(iteration=iteration, point=x[0], cost=costs[0])
+
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
                 iteration=iteration,
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 3379c9f..2259957 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -133,6 +133,8 @@ class ParticleSwarm(Optimizer):
 
             column_printer.print_row([iteration, cost_evaluations, fbest])
 
+            self._add_log_entry(iteration=iteration, point=xbest, cost=fbest)
+
             # FIXME(nkoep): This only makes sense once we provide a custom
             #               callback mechanism that actually checks 'xi'.
             #               Right now this loop is pointless since our default
diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index c6d900c..d5847d8 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -419,6 +419,13 @@ class TrustRegions(Optimizer):
                 print(f"       f(x) : {fx:+e}     |grad| : {norm_grad:e}")
                 print(f"        rho : {rho:e}")
 
+            self._add_log_entry(
+                iteration=iteration,
+                point=x,
+                cost=fx,
+                gradient_norm=norm_grad,
+            )
+
             # ** CHECK STOPPING criteria
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
-- 
2.43.0


From fe99d257a98250a4236ff052aa40f12d54cc203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 15/32] fix: metric and projection of the unitary group

The inner product was complex, and projections (hence Riemannian gradients)
were not skew-Hermitian.
---
 src/pymanopt/manifolds/group.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 1c4f24d..831d4ee 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -9,7 +9,6 @@ from pymanopt.tools.multi import (
     multiherm,
     multilogm,
     multiqr,
-    multiskew,
     multiskewh,
     multitransp,
 )
@@ -32,7 +31,7 @@ class _UnitaryBase(RiemannianSubmanifold):
             tangent_vector_a.conj(),
             tangent_vector_b,
             axes=tangent_vector_a.ndim,
-        )
+        ).real
 
     def norm(self, point, tangent_vector):
         return np.linalg.norm(tangent_vector)
@@ -45,7 +44,7 @@ class _UnitaryBase(RiemannianSubmanifold):
         return self.norm(point_a, self.log(point_a, point_b))
 
     def projection(self, point, vector):
-        return multiskew(multihconj(point) @ vector)
+        return multiskewh(multihconj(point) @ vector)
 
     def to_tangent_space(self, point, vector):
         return multiskewh(vector)
-- 
2.43.0


From ed7fadea53904bb615ec729a8e7c1528d8f88967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 16/32] fix: NaN distances and logarithms of (nearly)
 coincident points

Rounding pushed the argument of arccos outside of [-1, 1] on the oblique
manifold and the complex circle (whose exponential map also dropped the
imaginary part), and the logarithm on the Poincare ball was 0/0 for equal
points, which derailed Nelder-Mead and particle swarm.
---
 src/pymanopt/manifolds/complex_circle.py | 7 ++++---
 src/pymanopt/manifolds/hyperbolic.py     | 7 ++++++-
 src/pymanopt/manifolds/oblique.py        | 5 ++---
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 629b13b..7d6c08e 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -34,7 +34,8 @@ class ComplexCircle(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        return np.linalg.norm(np.arccos((point_a.conj() * point_b).real))
+        inner = np.clip((point_a.conj() * point_b).real, -1, 1)
+        return np.linalg.norm(np.arccos(inner))
 
     @property
     def typical_dist(self):
@@ -58,7 +59,7 @@ class ComplexCircle(RiemannianSubmanifold):
         tangent_vector_abs = np.abs(tangent_vector)
         mask = tangent_vector_abs > 0
         not_mask = np.logical_not(mask)
-        tangent_vector_new = np.zeros(self._dimension)
+        tangent_vector_new = np.zeros(self._dimension, dtype=complex)
         tangent_vector_new[mask] = point[mask] * np.cos(
             tangent_vector_abs[mask]
         ) + tangent_vector[mask] * (
@@ -73,7 +74,7 @@ class ComplexCircle(RiemannianSubmanifold):
     def log(self, point_a, point_b):
         v = self.projection(point_a, point_b - point_a)
         abs_v = np.abs(v)
-        di = np.arccos((point_a.conj() * point_b).real)
+        di = np.arccos(np.clip((point_a.conj() * point_b).real, -1, 1))
         factors = di / abs_v
         factors[di <= 1e-6] = 1
         return v * factors
diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index f343146..ad67b43 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -144,7 +144,12 @@ class PoincareBall(Manifold):
         w = self.mobius_addition(-point_a, point_b)
         norm_w = np.linalg.norm(w, axis=-1, keepdims=True)
         factor = self.conformal_factor(point_a)
-        return np.arctanh(norm_w) * w / norm_w / (factor / 2)
+        return (
+            np.arctanh(norm_w)
+            * w
+            / (norm_w + (norm_w == 0))
+            / (factor / 2)
+        )
 
     def pair_mean(self, point_a, point_b):
         return self.exp(point_a, self.log(point_a, point_b) / 2)
diff --git a/src/pymanopt/manifolds/oblique.py b/src/pymanopt/manifolds/oblique.py
index 16fd33e..13e9fc7 100644
--- a/src/pymanopt/manifolds/oblique.py
+++ b/src/pymanopt/manifolds/oblique.py
@@ -37,8 +37,7 @@ class Oblique(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        XY = (point_a * point_b).sum(0)
-        XY[XY > 1] = 1
+        XY = np.clip((point_a * point_b).sum(0), -1, 1)
         return np.linalg.norm(np.arccos(XY))
 
     def projection(self, point, vector):
@@ -66,7 +65,7 @@ class Oblique(RiemannianSubmanifold):
 
     def log(self, point_a, point_b):
         vector = self.projection(point_a, point_b - point_a)
-        distances = np.arccos((point_a * point_b).sum(0))
+        distances = np.arccos(np.clip((point_a * point_b).sum(0), -1, 1))
         norms = np.sqrt((vector**2).sum(0)).real
         # Try to avoid zero-division when both distances and norms are almost
         # zero.
-- 
2.43.0


From 4b0cdbc3213ce3d56e73e9444f4dfbcc60e3c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 17/32] fix: sign in the projection to the horizontal space of
 the elliptope

SciPy solves AX + XA^H = Q, so the vertical component was doubled instead of
removed.
---
 src/pymanopt/manifolds/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index f01dc72..d8724f6 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -233,7 +233,7 @@ class Elliptope(Manifold, RetrAsExpMixin):
         eta = self._project_rows(point, vector)
         YtY = point.T @ point
         AS = point.T @ eta - vector.T @ point
-        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, -AS)
+        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, AS)
         return eta - point @ (Omega - Omega.T) / 2
 
     to_tangent_space = projection
-- 
2.43.0


From 8fa12938b74a76add89aeeab0778f4c3f46a4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 18/32] fix: errors of manifold operations in the
 Hestenes-Stiefel rule

---
 src/pymanopt/optimizers/conjugate_gradient.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index 6fc0331..0731a58 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -61,12 +61,10 @@ def _beta_hestenes_stiefel(
     descent_direction,
 ):
     diff = newgrad - oldgrad
+    numerator = manifold.inner_product(newx, Pnewgrad, diff)
+    denominator = manifold.inner_product(newx, diff, descent_direction)
     try:
-        beta = max(
-            0,
-            manifold.inner_product(newx, Pnewgrad, diff)
-            / manifold.inner_product(newx, diff, descent_direction),
-        )
+        beta = max(0, numerator / denominator)
     except ZeroDivisionError:
         beta = 1
     return beta
-- 
2.43.0


From a93112a783d9f74a0daa190074b847680b4f45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 19/32] fix: best cost printed by Nelder-Mead

---
 src/pymanopt/optimizers/nelder_mead.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 35d04fd..076ad6e 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -132,17 +132,17 @@ class NelderMead(Optimizer):
         while True:
             iteration += 1
 
+            # Sort simplex points by cost.
+            order = np.argsort(costs)
+            costs = costs[order]
+            x = [x[i] for i in order]
+
             if self._verbosity >= 2:
                 print(
                     f"Cost evals: {cost_evaluations:7d}\t"
                     f"Best cost: {costs[0]:+.8e}"
                 )
 
-            # Sort simplex points by cost.
-            order = np.argsort(costs)
-            costs = costs[order]
-            x = [x[i] for i in order]
-
             self._add_log_entry(iteration=iteration, point=x[0], cost=costs[0])
 
             stopping_criterion = self._check_stopping_criterion(
-- 
2.43.0


From bc71a26d0d55aeaaf8dfe26362e23ff51e922973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 20/32] fix: centroids in Nelder-Mead must not depend on the
 clock

---
 src/pymanopt/optimizers/nelder_mead.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 076ad6e..a462740 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -26,7 +26,9 @@ def compute_centroid(manifold, points):
             manifold.zero_vector(y),
         )
 
-    optimizer = SteepestDescent(max_iterations=15, verbosity=0)
+    optimizer = SteepestDescent(
+        max_time=np.inf, max_iterations=15, verbosity=0
+    )
     problem = pymanopt.Problem(
         manifold, objective, riemannian_gradient=gradient
     )
-- 
2.43.0


From e420ddfb4eb120d2b2bf6204dd99491100f648ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 21/32] fix: generated derivatives on a product of a single
 manifold

---
 src/pymanopt/core/problem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index bb71ca3..af704a0 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -147,6 +147,12 @@ class Problem:
         @functools.wraps(function)
         def wrapper(*args, **kwargs):
             return_values = function(*args, **kwargs)
+            if num_return_values == 1 and not isinstance(
+                return_values, (list, tuple)
+            ):
+                # Operators of functions of a single argument return their
+                # value as is.
+                return_values = [return_values]
             if not isinstance(return_values, (list, tuple)):
                 raise ValueError("Function returned an unexpected value")
             if len(return_values) != num_return_values:
-- 
2.43.0


From 149e83e1153165ef3a2a8be398ef098d5b055dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 22/32] fix: exactly solved models in the truncated conjugate
 gradient method

---
 src/pymanopt/optimizers/trust_regions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index d5847d8..b85e63a 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -594,6 +594,11 @@ class TrustRegions(Optimizer):
             r_r = inner(x, r, r)
             norm_r = np.sqrt(r_r)
 
+            # The model is solved exactly; there is no direction left to go.
+            if norm_r == 0:
+                stop_tCG = self.REACHED_TARGET_SUPERLINEAR
+                break
+
             # Check kappa/theta stopping criterion.
             # Note that it is somewhat arbitrary whether to check this stopping
             # criterion on the r's (the gradients) or on the z's (the
-- 
2.43.0


From abcb37b7b683d9d083085ac4e239e59a1d93ae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 23/32] fix: NaN model values in the truncated conjugate
 gradient method

---
 src/pymanopt/optimizers/trust_regions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index b85e63a..8fc17e8 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -579,7 +579,7 @@ class TrustRegions(Optimizer):
             # so far, according to the model cost). Otherwise, we accept the
             # new eta and go on.
             new_model_value = model_fun(new_eta, new_Heta)
-            if new_model_value >= model_value:
+            if not new_model_value < model_value:
                 stop_tCG = self.MODEL_INCREASED
                 break
 
-- 
2.43.0


From 419a3a3eb7211fd2caafc64e688c95782005d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 24/32] fix: tangent spaces of the intersections of sphere and
 subspace

---
 src/pymanopt/manifolds/sphere.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 74871a6..3180409 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -137,6 +137,8 @@ class _SphereSubspaceIntersectionManifold(_SphereBase):
     def projection(self, point, vector):
         return self._subspace_projector @ super().projection(point, vector)
 
+    to_tangent_space = projection
+
     def random_point(self):
         point = super().random_point()
         return self._normalize(self._subspace_projector @ point)
-- 
2.43.0


From c1b28735a02f89db2e73358e75d4dbb92a822ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:44 +0000
Subject: [PATCH 25/32] fix: keep the factors of fixed-rank matrices
 orthonormal

Rounding errors in the columns of u and v were carried over and amplified by
every retraction.
---
 src/pymanopt/manifolds/fixed_rank.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pymanopt/manifolds/fixed_rank.py b/src/pymanopt/manifolds/fixed_rank.py
index 74901c3..f1ceb33 100644
--- a/src/pymanopt/manifolds/fixed_rank.py
+++ b/src/pymanopt/manifolds/fixed_rank.py
@@ -140,20 +140,24 @@ class FixedRankEmbedded(RiemannianSubmanifold):
         u, s, vt = point
         du, ds, dvt = tangent_vector
 
-        Qu, Ru = np.linalg.qr(du)
-        Qv, Rv = np.linalg.qr(dvt)
+        # The matrices ``[u, du]`` and ``[v, dv]`` are orthonormalized as a whole
+        # since rounding errors in the columns of ``u`` and ``v`` would add up
+        # over many retractions otherwise.
+        Qu, Ru = np.linalg.qr(np.hstack((u, du)))
+        Qv, Rv = np.linalg.qr(np.hstack((vt.T, dvt)))
+        identity = np.eye(self._k)
         T = np.vstack(
             (
-                np.hstack((np.diag(s) + ds, Rv.T)),
-                np.hstack((Ru, np.zeros((self._k, self._k)))),
+                np.hstack((np.diag(s) + ds, identity)),
+                np.hstack((identity, np.zeros((self._k, self._k)))),
             )
         )
         # Numpy svd outputs St as a 1d vector, not a matrix.
-        Ut, St, Vt = np.linalg.svd(T, full_matrices=False)
+        Ut, St, Vt = np.linalg.svd(Ru @ T @ Rv.T, full_matrices=False)
 
-        U = np.hstack((u, Qu)) @ Ut[:, : self._k]
+        U = Qu @ Ut[:, : self._k]
         S = St[: self._k] + np.spacing(1)
-        V = np.hstack((vt.T, Qv)) @ Vt.T[:, : self._k]
+        V = Qv @ Vt.T[:, : self._k]
         return _FixedRankPoint(U, S, V.T)
 
     def norm(self, point, tangent_vector):
-- 
2.43.0


From bc8bfa06a3c3d5fdc292ed06b54883268cb9e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 26/32] fix: Hermitian matrices of unit determinant

Rounding errors in the imaginary part of a determinant made matrices of the
special Hermitian positive definite manifold non-Hermitian.
---
 src/pymanopt/manifolds/positive_definite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index b30cca1..5a6fda4 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -220,7 +220,7 @@ class SpecialHermitianPositiveDefinite(_PositiveDefiniteBase):
 
         # Unit determinant.
         shape = (k, 1, 1) if k > 1 else (1, 1)
-        det = (np.linalg.det(point) ** (1 / n)).reshape(shape)
+        det = (np.real(np.linalg.det(point)) ** (1 / n)).reshape(shape)
         return point / det
 
     def random_tangent_vector(self, point):
@@ -270,7 +270,7 @@ class SpecialHermitianPositiveDefinite(_PositiveDefiniteBase):
         # Normalize them. (This is not necessary, but it is good for numerical
         # stability.)
         shape = (k, 1, 1) if k > 1 else (1, 1)
-        det = (np.linalg.det(e) ** (1 / n)).reshape(shape)
+        det = (np.real(np.linalg.det(e)) ** (1 / n)).reshape(shape)
         return e / det
 
     def retraction(self, point, tangent_vector):
@@ -282,7 +282,7 @@ class SpecialHermitianPositiveDefinite(_PositiveDefiniteBase):
 
         # Unit determinant.
         shape = (k, 1, 1) if k > 1 else (1, 1)
-        det = (np.linalg.det(r) ** (1 / n)).reshape(shape)
+        det = (np.real(np.linalg.det(r)) ** (1 / n)).reshape(shape)
         return r / det
 
     def transport(self, point_a, point_b, tangent_vector_a):
-- 
2.43.0


From 3295d8e2993c9553fb5d293a3cc80431d484f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 27/32] fix: keep points in the subspace of sphere
 intersections

Directions that consist of rounding errors, such as those of conjugate
gradient on a circle, took iterates off the subspace.
---
 src/pymanopt/manifolds/sphere.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 3180409..28a0684 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -139,6 +139,18 @@ class _SphereSubspaceIntersectionManifold(_SphereBase):
 
     to_tangent_space = projection
 
+    def exp(self, point, tangent_vector):
+        # Do not let rounding errors leave the subspace.
+        return self._normalize(
+            self._subspace_projector @ super().exp(point, tangent_vector)
+        )
+
+    def retraction(self, point, tangent_vector):
+        return self._normalize(
+            self._subspace_projector
+            @ super().retraction(point, tangent_vector)
+        )
+
     def random_point(self):
         point = super().random_point()
         return self._normalize(self._subspace_projector @ point)
-- 
2.43.0


From 01631d178f37d34314045beae4061aa98f4e40d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:47 +0000
Subject: [PATCH 28/32] fix: stop the inner iteration of trust regions at
 rounding errors and non-finite models

With a residual of zero up to rounding errors (whose squared norm may come out negative), the inner iteration kept deriving directions from it, up to NaN steps.
---
 src/pymanopt/optimizers/trust_regions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 8fc17e8..9f12168 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -476,6 +476,10 @@ class TrustRegions(Optimizer):
         if norm_r == 0:
             return eta, Heta, 0, self.REACHED_TARGET_SUPERLINEAR
 
+        # There is no model to solve if gradient or Hessian are not finite.
+        if not np.isfinite(norm_r):
+            return eta, Heta, 0, self.MODEL_INCREASED
+
         # Precondition the residual
         if not self.use_rand:
             z = preconditioner(x, r)
@@ -594,8 +598,10 @@ class TrustRegions(Optimizer):
             r_r = inner(x, r, r)
             norm_r = np.sqrt(r_r)
 
-            # The model is solved exactly; there is no direction left to go.
-            if norm_r == 0:
+            # The model is solved to working accuracy. What is left of the
+            # residual are rounding errors (with which the square of its norm
+            # may even be negative) that must not determine a direction.
+            if not norm_r > 1e-14 * norm_r0:
                 stop_tCG = self.REACHED_TARGET_SUPERLINEAR
                 break
 
-- 
2.43.0


From 896a62a34fad74619e46b466d1651908e2bebafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 29/32] fix: embed tangent vectors of the factors of product
 manifolds

Hessians on products with a group factor were evaluated along the Lie algebra representation of tangent vectors.
---
 src/pymanopt/manifolds/product.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index 28f93b1..e56a41b 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -83,6 +83,19 @@ class Product(Manifold):
             "to_tangent_space", reduction=_ProductTangentVector
         )(point, vector)
 
+    def embedding(self, point, tangent_vector):
+        # Ambient representations that are made up of several arrays (see
+        # FixedRankEmbedded) do not match the layout of points that functions
+        # expect, so they are left alone.
+        return _ProductTangentVector(
+            [
+                manifold.embedding(point[k], tangent_vector[k])
+                if manifold.point_layout == 1
+                else tangent_vector[k]
+                for k, manifold in enumerate(self.manifolds)
+            ]
+        )
+
     def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
         return self._dispatch(
             "euclidean_to_riemannian_gradient", reduction=_ProductTangentVector
-- 
2.43.0


From d06711f7ee2f639292ebb9f391d9292389118b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 30/32] fix: Hessians of functions that do not depend on an
 argument, or linearly

The PyTorch and TensorFlow backends failed with AttributeError or RuntimeError for them.
---
 src/pymanopt/autodiff/backends/_pytorch.py    | 6 +++++-
 src/pymanopt/autodiff/backends/_tensorflow.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index d72517e..d347f7a 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -83,10 +83,14 @@ class PyTorchBackend(Backend):
             )
             dot_product = 0
             for gradient, vector in zip(gradients, vectors):
+                # The function does not depend on the argument, or linearly.
+                if gradient is None or not gradient.requires_grad:
+                    continue
                 dot_product += torch.tensordot(
                     gradient.conj(), vector, dims=gradient.ndim
                 ).real
-            dot_product.backward()
+            if torch.is_tensor(dot_product):
+                dot_product.backward()
             return self._sanitize_gradients(arguments)
 
         if num_arguments == 1:
diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index bbd08f2..9f82bc4 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -65,7 +65,11 @@ class TensorFlowBackend(Backend):
             ) as accumulator:
                 for argument in arguments:
                     tape.watch(argument)
-                gradients = tape.gradient(function(*arguments), arguments)
+                gradients = tape.gradient(
+                    function(*arguments),
+                    arguments,
+                    unconnected_gradients=tf.UnconnectedGradients.ZERO,
+                )
             return self._sanitize_gradients(
                 arguments, accumulator.jvp(gradients)
             )
-- 
2.43.0


From 749ba5aac97a4e32448db47bb253b4e6111561e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 31/32] fix: better vertices must not be dropped for NaN costs
 in Nelder-Mead

---
 src/pymanopt/optimizers/nelder_mead.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index a462740..d5ba5a7 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -215,7 +215,8 @@ class NelderMead(Optimizer):
                     xic = manifold.retraction(xbar, self._contraction * vec)
                     costic = objective(xic)
                     cost_evaluations += 1
-                    if costic <= costs[-1]:
+                    # The cost of the worst vertex may be NaN.
+                    if not (np.isnan(costic) or costic > costs[-1]):
                         if self._verbosity >= 2:
                             print("Inside contraction")
                         costs[-1] = costic
-- 
2.43.0


From e655b3390d6e0372fc3558c3dc5bffc743521edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 32/32] fix: adaptive line searches must not repeat fruitless
 steps forever

After a rejected step near a minimum every later search tried the very same
steps again, and steps accepted without any decrease (because they are lost
to rounding) kept the step size that small in all later searches.
---
 src/pymanopt/optimizers/line_search.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 1c91b94..0653abd 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -106,6 +106,7 @@ class AdaptiveLineSearcher:
         if norm_d == 0:
             return 0, x
 
+        oldalpha = self._oldalpha
         if self._oldalpha is not None:
             alpha = self._oldalpha
         else:
@@ -129,6 +130,7 @@ class AdaptiveLineSearcher:
 
             cost_evaluations += 1
 
+        smallest_alpha = alpha
         if not newf <= f0:
             alpha = 0
             newx = x
@@ -141,9 +143,13 @@ class AdaptiveLineSearcher:
         # the reason why this line search is not invariant under rescaling of
         # the search direction d.
 
-        # A rejected step says nothing about the next one: start over.
-        if alpha == 0:
-            self._oldalpha = None
+        # If there was no progress, start over. If that is what we just did,
+        # look even closer next time instead of trying the same steps again.
+        if not newf < f0:
+            if oldalpha is None:
+                self._oldalpha = self._contraction_factor * smallest_alpha
+            else:
+                self._oldalpha = None
         # If things go reasonably well, try to keep pace.
         elif cost_evaluations == 2:
             self._oldalpha = alpha
-- 
2.43.0

