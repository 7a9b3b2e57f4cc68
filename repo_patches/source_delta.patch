From ee48fca65c02740c5c495cc1f4cf7fab7266517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:41 +0000
Subject: [PATCH 01/20] fix: keep residual vector of the current estimate when
 a trust region step is rejected

Levenberg-Marquardt and dogleg carried the residual of the rejected proposal
into the next iteration. The next linear subproblem was then built from a
residual that did not belong to the current assignments.
---
 jaxfg/solvers/_dogleg_solver.py              | 4 +++-
 jaxfg/solvers/_levenberg_marquardt_solver.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 232e1f0..863bb09 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -183,6 +183,8 @@ class DoglegSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),  # Must correspond to the assignments that we return
             done=done,
         )
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 0ae2be7..8980a89 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -147,6 +147,8 @@ class LevenbergMarquardtSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),  # Must correspond to the assignments that we return
             done=done,
         )
-- 
2.43.0


From 3429ebde87de237b5b52b4db5e74589ceb7a98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:41 +0000
Subject: [PATCH 02/20] fix: use the infinity norm in the gradient tolerance
 check

The check took the maximum of signed differences, so the optimizer stopped
early whenever every component of the gradient step was non-negative.
---
 jaxfg/solvers/_mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index af3a70e..cea6b37 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -76,13 +76,15 @@ class _TerminationCriteriaMixin:
         converged_gradient = jnp.where(
             state_prev.iterations >= self.gradient_tolerance_start_step,
             jnp.max(
-                state_prev.assignments.storage
-                - state_prev.assignments.manifold_retract(
-                    VariableAssignments(
-                        storage=negative_gradient,
-                        storage_layout=local_delta_assignments.storage_layout,
-                    ),
-                ).storage
+                jnp.abs(
+                    state_prev.assignments.storage
+                    - state_prev.assignments.manifold_retract(
+                        VariableAssignments(
+                            storage=negative_gradient,
+                            storage_layout=local_delta_assignments.storage_layout,
+                        ),
+                    ).storage
+                )
             )
             < self.gradient_tolerance,
             False,
-- 
2.43.0


From ccf2071ea660ef4eaee6c43d054f6c988cc6fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:20 +0000
Subject: [PATCH 03/20] fix: match variables when retracting deltas stored in a
 different order

manifold_retract() paired values and deltas by position. When the two storage
layouts listed variables of a type in different orders, deltas were applied to
the wrong variables. This also broke FixedIterationGaussNewtonSolver when the
initial assignments were not ordered like the graph.
---
 jaxfg/core/_variable_assignments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 892c7ef..ca8fba8 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -186,6 +186,12 @@ class VariableAssignments:
         assert not self.storage_layout.local_flag
         assert local_delta_assignments.storage_layout.local_flag
 
+        # Resolve storage layout mismatches: variables may be stored in a different
+        # order by the values and by the deltas.
+        local_delta_assignments = local_delta_assignments.update_storage_layout(
+            StorageLayout.make(self.get_variables(), local=True)
+        )
+
         # On-manifold retractions, one variable type at a time!
         new_storage = jnp.zeros_like(self.storage)
         variable_type: Type[VariableBase]
-- 
2.43.0


From 6a023af85c1c300edff8dbc99c8d05ab08efd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:20 +0000
Subject: [PATCH 04/20] fix: sum duplicate coordinates in
 SparseCooMatrix.as_dense()

Matrix-vector products and the scipy conversion sum repeated (row, column)
entries, but as_dense() kept only one of them. Factors that are connected to
the same variable twice produce such entries.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index e552a04..cbfd6a2 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -53,7 +53,7 @@ class SparseCooMatrix:
         return (
             jnp.zeros(self.shape)
             .at[self.coords.rows, self.coords.cols]
-            .set(self.values)
+            .add(self.values)
         )
 
     @staticmethod
-- 
2.43.0


From 1bb9fb788aa7ab31dd4966cc6e58230c3556f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:20 +0000
Subject: [PATCH 05/20] fix: keep the variable order when factorizing for
 marginal covariances

CHOLMOD applies a fill-reducing permutation by default and L() returns the
factor of the permuted matrix. Marginals were then read at the wrong indices
for graphs with three or more variables.
---
 jaxfg/experimental/_sparse_covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index cd895b4..e9cf505 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -39,7 +39,9 @@ class SparseCovariance:
             .tocsc(copy=False)
         )
         sqrt_information_matrix: scipy.sparse.csc_matrix = (
-            sksparse.cholmod.cholesky_AAt(A=A).L()
+            # We use the natural ordering: rows and columns of the square-root
+            # information matrix need to match our storage layout.
+            sksparse.cholmod.cholesky_AAt(A=A, ordering_method="natural").L()
         )
         return SparseCovariance(
             L=sqrt_information_matrix,
-- 
2.43.0


From 65582da6b64969a18644347e52dbf6bab18c37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:20 +0000
Subject: [PATCH 06/20] fix: make include_constants a static argument of
 compute_joint_nll()

Passing include_constants=False explicitly raised a tracer conversion error.
---
 jaxfg/core/_stacked_factor_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/core/_stacked_factor_graph.py b/jaxfg/core/_stacked_factor_graph.py
index f7ed223..bee2a37 100644
--- a/jaxfg/core/_stacked_factor_graph.py
+++ b/jaxfg/core/_stacked_factor_graph.py
@@ -175,7 +175,7 @@ class StackedFactorGraph:
     def compute_joint_nll(
         self,
         assignments: VariableAssignments,
-        include_constants: bool = False,
+        include_constants: jdc.Static[bool] = False,
     ) -> jnp.ndarray:
         """Compute the joint negative log-likelihood density associated with a set of
         variable assignments. Assumes Gaussian noise models.
-- 
2.43.0


From b1c079a5da1612cb2138ff0ffd281f23a098dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:20 +0000
Subject: [PATCH 07/20] fix: compute joint NLL log-determinants without
 overflow

Determinants were formed before taking the logarithm, which overflows or
underflows for noise models with many dimensions.
---
 jaxfg/core/_stacked_factor_graph.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/jaxfg/core/_stacked_factor_graph.py b/jaxfg/core/_stacked_factor_graph.py
index bee2a37..b2e40f9 100644
--- a/jaxfg/core/_stacked_factor_graph.py
+++ b/jaxfg/core/_stacked_factor_graph.py
@@ -198,23 +198,20 @@ class StackedFactorGraph:
         for stacked_factor in self.factor_stacks:
             noise_model = stacked_factor.factor.noise_model
             if isinstance(noise_model, noises.Gaussian):
-                cov_determinants = -2.0 * jnp.log(
-                    jnp.abs(
-                        jnp.linalg.det(
-                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix
-                        )
-                    )
+                _sign, log_abs_determinants = jnp.linalg.slogdet(
+                    cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                 )
+                cov_determinants = -2.0 * log_abs_determinants
             elif isinstance(noise_model, noises.DiagonalGaussian):
-                cov_determinants = -2.0 * jnp.log(
-                    jnp.abs(
-                        jnp.prod(
+                cov_determinants = -2.0 * jnp.sum(
+                    jnp.log(
+                        jnp.abs(
                             cast(
                                 noises.DiagonalGaussian, noise_model
-                            ).sqrt_precision_diagonal,
-                            axis=-1,
+                            ).sqrt_precision_diagonal
                         )
-                    )
+                    ),
+                    axis=-1,
                 )
             else:
                 assert False, f"Joint NLL not supported  for {type(noise_model)}"
-- 
2.43.0


From 52edd93a6f443c4b9fc0249483a8115561036694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:46 +0000
Subject: [PATCH 08/20] fix: key the CHOLMOD analysis cache on the sparsity
 pattern

The cache was keyed on the identity of the solver object that was alive when
solve() was traced. Compiled functions are shared by graphs with equal shapes,
so a second graph with different connections reused the wrong analysis and
supernodal factorizations silently returned wrong solutions.
---
 jaxfg/sparse/_linear_solve.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index fd7f68d..e030048 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -42,8 +42,7 @@ class CholmodSolver(LinearSubproblemSolverBase):
     reasons, but also less stable than `ConjugateGradientSolver`.
 
     Runs via an XLA host callback, and has some usage caveats:
-    - Caching is a little bit sketchy. Assumes that a given solver is not reused for
-      systems with different sparsity patterns.
+    - Symbolic analyses are cached for each sparsity pattern, and never evicted.
     - Does not support function transforms (`vmap`, `pmap`, etc), due to current
       limitations of `hcb.call()`.
     - Does not support autodiff. A custom JVP or VJP definition should be easy to
@@ -75,17 +74,23 @@ class CholmodSolver(LinearSubproblemSolverBase):
         A_T_scipy = A_T.as_scipy_coo_matrix().tocsc(copy=False)
 
         # Cache sparsity pattern analysis
-        self_hash = object.__hash__(self)
-        if self_hash not in _cholmod_analyze_cache:
-            _cholmod_analyze_cache[self_hash] = sksparse.cholmod.analyze_AAt(A_T_scipy)
+        pattern_key = (
+            A_T_scipy.shape,
+            A_T_scipy.indptr.tobytes(),
+            A_T_scipy.indices.tobytes(),
+        )
+        if pattern_key not in _cholmod_analyze_cache:
+            _cholmod_analyze_cache[pattern_key] = sksparse.cholmod.analyze_AAt(
+                A_T_scipy
+            )
 
         # Factorize and solve
-        _cholmod_analyze_cache[self_hash].cholesky_AAt_inplace(
+        _cholmod_analyze_cache[pattern_key].cholesky_AAt_inplace(
             A_T_scipy,
             beta=args.lambd
             + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
         )
-        return _cholmod_analyze_cache[self_hash].solve_A(args.ATb)
+        return _cholmod_analyze_cache[pattern_key].solve_A(args.ATb)
 
 
 class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
-- 
2.43.0


From 9b329937907c637ac0fd531cc6f16263e9644374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:46 +0000
Subject: [PATCH 09/20] fix: do not share numeric CHOLMOD factors between
 threads

Factorizations were written in-place into the cached factor. When two threads
solved at the same time, one could read the factorization of the other and
return the solution of a different system.
---
 jaxfg/sparse/_linear_solve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index e030048..c4ba39c 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -84,13 +84,14 @@ class CholmodSolver(LinearSubproblemSolverBase):
                 A_T_scipy
             )
 
-        # Factorize and solve
-        _cholmod_analyze_cache[pattern_key].cholesky_AAt_inplace(
+        # Factorize and solve. Note that we don't factorize in-place: the cached analysis
+        # can be used by several threads.
+        factor = _cholmod_analyze_cache[pattern_key].cholesky_AAt(
             A_T_scipy,
             beta=args.lambd
             + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
         )
-        return _cholmod_analyze_cache[pattern_key].solve_A(args.ATb)
+        return factor.solve_A(args.ATb)
 
 
 class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
-- 
2.43.0


From 76455bafef84830d6feed380ecb6ed600a91ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:27 +0000
Subject: [PATCH 10/20] fix: weight Huber Jacobians like the residuals that
 they belong to

Graphs pass the whitened residual vector to whiten_jacobian(), where the Huber
weight has already been applied. The Jacobian of an outlier was scaled by the
square root of the weight applied to its residual, so solvers did not converge
to the minimum of the Huber loss.
---
 jaxfg/noises/_huber.py            | 4 +++-
 jaxfg/noises/_noise_model_base.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index c793cb0..5ec1b97 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -43,9 +43,11 @@ class HuberWrapper(NoiseModelBase):
     ) -> hints.Array:
         jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)
 
+        # The residual vector is already whitened, so its norm is `sqrt(delta * norm)`
+        # when the norm under the wrapped noise model is above our threshold.
         residual_norm = jnp.linalg.norm(residual_vector)
         return jnp.where(
             residual_norm < self.delta,
             jacobian,
-            jacobian * jnp.sqrt(self.delta / residual_norm),
+            jacobian * (self.delta / residual_norm),
         )
diff --git a/jaxfg/noises/_noise_model_base.py b/jaxfg/noises/_noise_model_base.py
index 2967fc8..56ec044 100644
--- a/jaxfg/noises/_noise_model_base.py
+++ b/jaxfg/noises/_noise_model_base.py
@@ -20,4 +20,4 @@ class NoiseModelBase(abc.ABC, EnforceOverrides):
         jacobian: hints.Array,
         residual_vector: hints.Array,
     ) -> hints.Array:
-        pass
+        """Whiten a Jacobian. `residual_vector` is the _whitened_ residual vector."""
-- 
2.43.0


From 29eb6768a40ff3ebad95f690f9a5dfafc294599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:27 +0000
Subject: [PATCH 11/20] fix: store integer variable values as floating point
 numbers

Assignments made only from integer values had an integer storage vector.
Later updates, including optimizer steps, were silently truncated.
---
 jaxfg/core/_variable_assignments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index ca8fba8..6e38542 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -78,6 +78,8 @@ class VariableAssignments:
             ],
             axis=0,
         )
+        # Values may be integers, but our storage vector needs to hold real numbers
+        storage = storage.astype(jnp.result_type(storage, float))
         assert storage.shape == (storage_layout.dim,)
 
         return VariableAssignments(storage=storage, storage_layout=storage_layout)
-- 
2.43.0


From 91f366e19232c59af85ea185306e8b8169684a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:25 +0000
Subject: [PATCH 12/20] fix: account for the logarithm map in geometry factor
 Jacobians

PriorFactor and BetweenFactor used the Jacobian at zero residual everywhere.
With conflicting measurements, solvers converged to poses that were not a
minimum of the cost.
---
 jaxfg/geometry/_factors.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/jaxfg/geometry/_factors.py b/jaxfg/geometry/_factors.py
index 2055146..93a9014 100644
--- a/jaxfg/geometry/_factors.py
+++ b/jaxfg/geometry/_factors.py
@@ -1,5 +1,6 @@
 from typing import NamedTuple, Tuple
 
+import jax
 import jax_dataclasses as jdc
 import jaxlie
 from jax import numpy as jnp
@@ -9,6 +10,14 @@ from .. import noises
 from ..core._factor_base import FactorBase
 from ._lie_variables import LieVariableBase
 
+
+def _log_jacobian(T: jaxlie.MatrixLieGroup) -> jnp.ndarray:
+    """Jacobian of `(exp(delta) @ T).log()` with respect to `delta`, at `delta=zero`."""
+    return jax.jacfwd(lambda delta: (type(T).exp(delta) @ T).log())(
+        jnp.zeros(type(T).tangent_dim)
+    )
+
+
 # To implement a factor, we start by defining what the types of the variables that
 # connect to it are.
 # This can be either a standard tuple or a named one (see BetweenFactor for the latter),
@@ -57,7 +66,7 @@ class PriorFactor(FactorBase[PriorValueTuple]):
     ) -> Tuple[jnp.ndarray]:
         T: jaxlie.MatrixLieGroup
         (T,) = variable_values
-        return (-jnp.eye(type(T).tangent_dim),)
+        return (-_log_jacobian(T.inverse() @ self.mu),)
 
 
 # Our BetweenFactor implementation is pretty similar to PriorFactor, but requires two
@@ -116,9 +125,7 @@ class BetweenFactor(FactorBase[BetweenValueTuple]):
         T_world_b = variable_values.T_world_b
 
         assert type(T_world_a) == type(T_world_b)
-        group_cls = type(T_world_a)
 
-        return (
-            (T_world_a.inverse() @ T_world_b).inverse().adjoint(),
-            -jnp.eye(group_cls.tangent_dim),
-        )
+        T_b_a = T_world_b.inverse() @ T_world_a
+        log_jacobian = _log_jacobian(T_b_a @ self.T_a_b)
+        return (log_jacobian @ T_b_a.adjoint(), -log_jacobian)
-- 
2.43.0


From df80fb54f5b99fa6c47f42b4e05f0006bddce2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:26 +0000
Subject: [PATCH 13/20] fix: take no optimizer steps when the iteration limit
 is zero

The loop condition was only evaluated after the first step, so a limit of zero
still ran one iteration.
---
 jaxfg/solvers/_dogleg_solver.py                       | 2 +-
 jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py | 2 +-
 jaxfg/solvers/_gauss_newton_solver.py                 | 2 +-
 jaxfg/solvers/_levenberg_marquardt_solver.py          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 863bb09..da83c26 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -43,7 +43,7 @@ class DoglegSolver(
             assignments=initial_assignments,
             cost=cost,
             residual_vector=residual_vector,
-            done=False,
+            done=self.max_iterations <= 0,
             radius=self.radius_initial,
         )
 
diff --git a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
index 88903e1..8799c3e 100644
--- a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
+++ b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
@@ -36,7 +36,7 @@ class FixedIterationGaussNewtonSolver(NonlinearSolverBase[NonlinearSolverState])
             assignments=initial_assignments,
             cost=cost,
             residual_vector=residual_vector,
-            done=False,
+            done=self.iterations <= 0,
         )
 
     @overrides
diff --git a/jaxfg/solvers/_gauss_newton_solver.py b/jaxfg/solvers/_gauss_newton_solver.py
index 34dc91e..1ff7aca 100644
--- a/jaxfg/solvers/_gauss_newton_solver.py
+++ b/jaxfg/solvers/_gauss_newton_solver.py
@@ -31,7 +31,7 @@ class GaussNewtonSolver(
             assignments=initial_assignments,
             cost=cost,
             residual_vector=residual_vector,
-            done=False,
+            done=self.max_iterations <= 0,
         )
 
     @overrides
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 8980a89..98e94a4 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -46,7 +46,7 @@ class LevenbergMarquardtSolver(
             assignments=initial_assignments,
             cost=cost,
             residual_vector=residual_vector,
-            done=False,
+            done=self.max_iterations <= 0,
             lambd=self.lambda_initial,
         )
 
-- 
2.43.0


From 50a02ccb66b2d3eec729be4fb2bd694eb4add9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:31 +0000
Subject: [PATCH 14/20] fix: honor the pose count limit when parsing g2o files

The limit was off by one for SE(2) files, and ignored for SE(3) files.
---
 scripts/_g2o_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/_g2o_utils.py b/scripts/_g2o_utils.py
index e7d2e97..4b15aa1 100644
--- a/scripts/_g2o_utils.py
+++ b/scripts/_g2o_utils.py
@@ -34,7 +34,7 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
         between: jaxlie.MatrixLieGroup
 
         if parts[0] == "VERTEX_SE2":
-            if len(pose_variables) > pose_count_limit:
+            if len(pose_variables) >= pose_count_limit:
                 continue
 
             # Create SE(2) variable
@@ -51,7 +51,7 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
             before_index = int(parts[1])
             after_index = int(parts[2])
 
-            if before_index > pose_count_limit or after_index > pose_count_limit:
+            if before_index >= pose_count_limit or after_index >= pose_count_limit:
                 continue
 
             between = jaxlie.SE2.from_xy_theta(*(float(p) for p in parts[3:6]))
@@ -75,6 +75,9 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
             )
 
         elif parts[0] == "VERTEX_SE3:QUAT":
+            if len(pose_variables) >= pose_count_limit:
+                continue
+
             # Create SE(3) variable
             _, index, x, y, z, qx, qy, qz, qw = parts
             index = int(index)
@@ -90,6 +93,9 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
             before_index = int(parts[1])
             after_index = int(parts[2])
 
+            if before_index >= pose_count_limit or after_index >= pose_count_limit:
+                continue
+
             numerical_parts = list(map(float, parts[3:]))
             assert len(numerical_parts) == 7 + 21
 
-- 
2.43.0


From dcba69fb28f23503f7e41d1d05a70ae7ba2c71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:47 +0000
Subject: [PATCH 15/20] fix: do not truncate products of sparse matrices and
 integer vectors

---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index cbfd6a2..21fb316 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -42,7 +42,7 @@ class SparseCooMatrix:
             self.shape[1],
         ), "Inner product only supported for 1D vectors!"
         return (
-            jnp.zeros(self.shape[0], dtype=other.dtype)
+            jnp.zeros(self.shape[0], dtype=jnp.result_type(self.values, other))
             .at[self.coords.rows]
             .add(self.values * other[self.coords.cols])
         )
-- 
2.43.0


From c513306dc3cb65c0a238528e35e2cc6bba6ee960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:24 +0000
Subject: [PATCH 16/20] fix: give racing threads the same canonical variables
 and vector types

---
 jaxfg/core/_variables.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/jaxfg/core/_variables.py b/jaxfg/core/_variables.py
index 5857911..5ac91fc 100644
--- a/jaxfg/core/_variables.py
+++ b/jaxfg/core/_variables.py
@@ -1,6 +1,7 @@
 import abc
 import functools
 import inspect
+import threading
 from typing import Callable, ClassVar, Generic, Mapping, Tuple, Type, TypeVar
 
 import jax
@@ -15,6 +16,21 @@ VariableType = TypeVar("VariableType", bound="VariableBase")
 VariableValueType = TypeVar("VariableValueType", bound=hints.VariableValue)
 
 
+def _locked_cache(function: Callable) -> Callable:
+    """Unbounded cache, which calls the wrapped function only once for each input. With
+    a plain `functools.lru_cache`, threads that race for the first call would each get
+    an object of their own."""
+    cached = functools.lru_cache(maxsize=None)(function)
+    lock = threading.RLock()
+
+    @functools.wraps(function)
+    def wrapper(*args):
+        with lock:
+            return cached(*args)
+
+    return wrapper
+
+
 class VariableBase(abc.ABC, Generic[VariableValueType], EnforceOverrides):
     """Base class for variable types. Also defines helpers for manifold optimization."""
 
@@ -131,7 +147,7 @@ class VariableBase(abc.ABC, Generic[VariableValueType], EnforceOverrides):
         return cls._unflatten(flat)
 
     @classmethod
-    @functools.lru_cache(maxsize=None)
+    @_locked_cache
     def canonical_instance(cls: Type[VariableType]) -> VariableType:
         """Returns the 'canonical instance' of a variable. For a given class, this will
         be the same instance each time the method is called. Used for factor stacking.
@@ -144,7 +160,7 @@ class _RealVectorVariableTemplate:
     """Usage: `RealVectorVariable[N]`, where `N` is an integer dimension."""
 
     @classmethod
-    @functools.lru_cache(maxsize=None)
+    @_locked_cache
     def __getitem__(cls, dim: int) -> Type[VariableBase]:
         assert isinstance(dim, int)
 
-- 
2.43.0


From 2dff6ee96e027c25195b6b371703b1050948bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:21 +0000
Subject: [PATCH 17/20] fix: recover covariances of large graphs without
 exceeding the recursion limit

Entries of the covariance matrix were computed by a recursion whose depth
grows with the number of variables. Graphs with more than about a hundred
poses raised a RecursionError.
---
 jaxfg/experimental/_sparse_covariance.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index e9cf505..43ca3fb 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -97,6 +97,21 @@ class SparseCovariance:
         if indices in self._value_cache:
             return self._value_cache[indices]
 
+        # Values depend on each other, along chains that can be as long as the matrix is
+        # large: to not exceed the recursion limit, we start at the ends of these chains
+        pending: List[Tuple[int, int]] = [indices]
+        while pending:
+            i, j = pending[-1]
+            missing = [
+                (min(k, j), max(k, j))
+                for k in self.L.indices[self.L.indptr[i] : self.L.indptr[i + 1]]
+                if k != i and (min(k, j), max(k, j)) not in self._value_cache
+            ]
+            if len(missing) > 0:
+                pending.extend(missing)
+            elif pending.pop() != indices:
+                self[i, j]
+
         # Compute covariance value from square-root information matrix
         value: float
 
-- 
2.43.0


From 20c29a922d809b30f647d316091c40ad31b0cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:21 +0000
Subject: [PATCH 18/20] fix: store variables that are listed repeatedly only
 once

A storage layout made from a list with repeated variables reserved space for
each repetition, but only indexed the last one. Stacked reads then returned
values of nothing, and the layout matched no graph.
---
 jaxfg/core/_storage_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/core/_storage_layout.py b/jaxfg/core/_storage_layout.py
index 9adcc5f..0b3e418 100644
--- a/jaxfg/core/_storage_layout.py
+++ b/jaxfg/core/_storage_layout.py
@@ -51,7 +51,7 @@ class StorageLayout:
         variables_from_type: DefaultDict[Type[VariableBase], List[VariableBase]] = (
             DefaultDict(list)
         )
-        for variable in variables:
+        for variable in dict.fromkeys(variables):
             variables_from_type[type(variable)].append(variable)
 
         # Assign block of storage vector for each variable
-- 
2.43.0


From da87eb89105355c9fc21d4dd4db735362fe0e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:33 +0000
Subject: [PATCH 19/20] fix: accept initial dampings and radii of any numeric
 type

---
 jaxfg/solvers/_dogleg_solver.py              | 4 +++-
 jaxfg/solvers/_levenberg_marquardt_solver.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index da83c26..74d308d 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -44,7 +44,9 @@ class DoglegSolver(
             cost=cost,
             residual_vector=residual_vector,
             done=self.max_iterations <= 0,
-            radius=self.radius_initial,
+            # Same type as our updated radii, also if an integer or single-precision
+            # one is given
+            radius=jnp.asarray(self.radius_initial, dtype=float),
         )
 
     @overrides
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 98e94a4..a6d80dc 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -47,7 +47,9 @@ class LevenbergMarquardtSolver(
             cost=cost,
             residual_vector=residual_vector,
             done=self.max_iterations <= 0,
-            lambd=self.lambda_initial,
+            # Same type as our updated dampings, also if an integer or
+            # single-precision one is given
+            lambd=jnp.asarray(self.lambda_initial, dtype=float),
         )
 
     @overrides
-- 
2.43.0


From b9c74b0065c124bc3970c4c4f808b408493f334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:47:37 +0000
Subject: [PATCH 20/20] fix: give zero residuals of Huber noise models finite
 derivatives

---
 jaxfg/noises/_huber.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index 5ec1b97..8cf6238 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -1,3 +1,6 @@
+from typing import Tuple
+
+import jax
 import jax_dataclasses as jdc
 from jax import numpy as jnp
 from overrides import overrides
@@ -28,9 +31,9 @@ class HuberWrapper(NoiseModelBase):
     def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
         residual_vector = self.wrapped.whiten_residual_vector(residual_vector)
 
-        residual_norm = jnp.linalg.norm(residual_vector)
+        below_threshold, residual_norm = self._compare_norm(residual_vector)
         return jnp.where(
-            residual_norm < self.delta,
+            below_threshold,
             residual_vector,
             residual_vector * jnp.sqrt(self.delta / residual_norm),
         )
@@ -45,9 +48,23 @@ class HuberWrapper(NoiseModelBase):
 
         # The residual vector is already whitened, so its norm is `sqrt(delta * norm)`
         # when the norm under the wrapped noise model is above our threshold.
-        residual_norm = jnp.linalg.norm(residual_vector)
+        below_threshold, residual_norm = self._compare_norm(residual_vector)
         return jnp.where(
-            residual_norm < self.delta,
+            below_threshold,
             jacobian,
             jacobian * (self.delta / residual_norm),
         )
+
+    def _compare_norm(
+        self, residual_vector: hints.Array
+    ) -> Tuple[hints.Array, hints.Array]:
+        """Check if the norm of a residual vector is below our threshold. Also returns
+        the norm itself, or a placeholder if it is: norms of zero have no derivatives,
+        and would otherwise break reverse-mode autodiff."""
+        below_threshold = (
+            jnp.linalg.norm(jax.lax.stop_gradient(residual_vector)) < self.delta
+        )
+        residual_norm = jnp.linalg.norm(
+            jnp.where(below_threshold, 1.0, residual_vector)
+        )
+        return below_threshold, residual_norm
-- 
2.43.0

