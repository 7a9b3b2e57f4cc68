"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, pathlib

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

prop("C01", "Stacking keeps every factor's residual intact",
 "For any collection of factors, the graph's whitened residual vector consists of exactly one contiguous block per factor, equal to that factor's own residual, evaluated at the values of the variables it is connected to and whitened by its own noise model; the cost is the sum of squares of this vector. Grouping, parameter stacking, repeated variables, repeated factors, mixed variable types and the layout of the assignments never mix up factors, parameters, noise models or variables.",
 ["inputs", "programs", "histories"],
 "every sequence of factors added from an alphabet of factor types, variable tuples, parameter leaves and noise models; every group size up to the bound; every order of the assignments",
 "The tests build a handful of graphs of at most four factors and only look at the solution or a cost decrease; a mixed-up block is invisible to them.",
 ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_factor_stack.py", "jaxfg/core/_factor_base.py"],
 [("grouping by tree structure and leaf shapes", "jaxfg/core/_stacked_factor_graph.py:57-75"), ("parameter and index stacking", "jaxfg/core/_factor_stack.py:43-88"), ("vectorized evaluation", "jaxfg/core/_factor_stack.py:164-184"), ("whitening and concatenation", "jaxfg/core/_stacked_factor_graph.py:123-172")],
 ["StackedFactorGraph.make", "compute_whitened_residual_vector", "compute_cost", "residual_dim"])

prop("C02", "Graph Jacobian is the derivative of the graph residual",
 "For any graph whose noise models are Gaussian, and at any assignment where the residuals are differentiable, entry (i, j) of the sparse graph Jacobian is the derivative of entry i of the whitened residual vector with respect to local coordinate j of the graph's local storage layout, taken through each variable's retraction. This holds for built-in factors, for user-defined factors with or without named value tuples, for variables whose values are arbitrary pytrees or custom manifolds, and for factors that are connected to the same variable more than once.",
 ["inputs", "programs", "histories"],
 "every sequence of factors from the same alphabet as C01, several linearization points each",
 "No test compares a Jacobian with a derivative; solvers still make progress with wrong rows or columns.",
 ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_factor_stack.py", "jaxfg/core/_factor_base.py", "jaxfg/core/_variables.py", "jaxfg/geometry/_factors.py"],
 [("Jacobian coordinates", "jaxfg/core/_factor_stack.py:90-159"), ("autodiff composition", "jaxfg/core/_factor_base.py:51-93"), ("whitening per group", "jaxfg/core/_stacked_factor_graph.py:227-275"), ("retraction Jacobians", "jaxfg/core/_variables.py:54-67")],
 ["compute_whitened_residual_jacobian", "local_storage_layout"])

prop("C03", "Assignments behave like an immutable variable-to-value map",
 "Under any sequence of operations (building from defaults, from full or partial dictionaries, setting values, changing the storage layout, converting to a dictionary and back) an assignments object reads back, for every variable, exactly the value last given to it or else the default of its type. Stacked reads list the values of all variables of a type in the order in which the object lists its variables, and the printed form names the type and shows the value of every variable in that order. No operation changes an object that existed before it.",
 ["histories", "inputs"],
 "every operation sequence up to the bound over several variables of several types, and every variable order",
 "The tests read back one or two poses after a solve; they never chain writes and layout changes or re-read old objects.",
 ["jaxfg/core/_variable_assignments.py", "jaxfg/core/_storage_layout.py", "jaxfg/core/_variables.py"],
 [("storage layout", "jaxfg/core/_storage_layout.py:47-79"), ("layout change", "jaxfg/core/_variable_assignments.py:85-124"), ("reads and writes", "jaxfg/core/_variable_assignments.py:146-177")],
 ["VariableAssignments.make_from_defaults/make_from_dict/make_from_partial_dict", "get_value", "get_stacked_value", "set_value", "as_dict", "update_storage_layout"],
 [dict(name="storage", meaning="flat vector of all values", where="VariableAssignments.storage"), dict(name="storage_layout", meaning="start index of each variable", where="VariableAssignments.storage_layout")])

prop("C04", "Retraction moves each variable by its own delta",
 "Retracting a set of local deltas updates every variable to its own type's retraction of its old value by its own delta, and changes nothing else. The result does not depend on the order in which the values or the deltas are stored, on how many variables or types there are, or on whether local and global dimensions differ.",
 ["inputs", "configurations"],
 "every multiset of variable types up to the bound, every storage order of the values and of the deltas, one-hot and dense deltas",
 "Tests only retract inside solvers, with one or two variables and matching layouts.",
 ["jaxfg/core/_variable_assignments.py", "jaxfg/core/_storage_layout.py"],
 [("batched retraction per type", "jaxfg/core/_variable_assignments.py:179-230"), ("local storage layout", "jaxfg/core/_storage_layout.py")],
 ["VariableAssignments.manifold_retract"])

prop("C05", "MAP inference does not depend on ordering",
 "For every nonlinear solver, the solution found for a problem with a unique optimum is the same variable-to-value map whatever the order in which factors are listed, variables first appear in them, or initial assignments are stored. The solution is returned in the storage layout of the initial assignments.",
 ["inputs", "configurations"],
 "every permutation of the factors and of the initial assignments of several small graphs, for every nonlinear solver",
 "One test permutes four scalar factors and two variable orders for Gauss-Newton only; no other solver, no mixed dimensions, no manifolds.",
 ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/solvers/_nonlinear_solver_base.py", "jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py", "jaxfg/core/_variable_assignments.py"],
 [("layout is resolved before and reverted after the loop", "jaxfg/solvers/_nonlinear_solver_base.py:75-103"), ("layout change", "jaxfg/core/_variable_assignments.py:85-124")],
 ["StackedFactorGraph.solve"])

prop("C06", "Solvers converge to the MAP estimate",
 "For a well-conditioned graph with linear residuals and Gaussian noise, each nonlinear solver with each linear solver returns the closed-form weighted least-squares solution, from any initial values. For nonlinear graphs, including pose graphs with conflicting measurements, the solution that a solver converges to is a stationary point of the graph's cost.",
 ["inputs", "configurations"],
 "every connected small graph topology, several weights and initial values, every pair of nonlinear and linear solver",
 "Tests only assert that the negative log-likelihood went down on two-pose graphs.",
 ["jaxfg/solvers", "jaxfg/sparse/_linear_solve.py", "jaxfg/core/_stacked_factor_graph.py", "jaxfg/geometry/_factors.py"],
 [("Gauss-Newton step", "jaxfg/solvers/_gauss_newton_solver.py"), ("damped step", "jaxfg/solvers/_levenberg_marquardt_solver.py"), ("dogleg step", "jaxfg/solvers/_dogleg_solver.py"), ("linear solves", "jaxfg/sparse/_linear_solve.py")],
 ["StackedFactorGraph.solve", "StackedFactorGraph.compute_cost"])

prop("C07", "Trust-region solvers never make the cost worse",
 "Levenberg-Marquardt and dogleg never return assignments whose cost exceeds that of the initial assignments (up to rounding), and raising the iteration limit never raises the returned cost. This holds for every sequence of accepted and rejected steps, whichever descent steps the linear solver answers with (including failed, non-finite answers) and whatever the damping, radius and acceptance settings.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of linear-solver answers from a small alphabet up to the bound, crossed with solver settings and starting points on problems where steps get rejected",
 "No test provokes a rejected step.",
 ["jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_dogleg_solver.py", "jaxfg/solvers/_mixins.py"],
 [("acceptance test", "jaxfg/solvers/_mixins.py:10-30"), ("state selection", "jaxfg/solvers/_levenberg_marquardt_solver.py:116-154"), ("state selection", "jaxfg/solvers/_dogleg_solver.py:136-190")],
 ["StackedFactorGraph.solve with max_iterations=k"],
 [dict(name="assignments/cost/residual_vector", meaning="current estimate", where="NonlinearSolverState")])

prop("C08", "Levenberg-Marquardt follows its damping state machine",
 "Each Levenberg-Marquardt iteration asks the linear solver for the damped step at the current estimate, using the residual, Jacobian, damping and iteration number that belong to it. The step is taken exactly when the ratio of actual to predicted cost change reaches the minimum step quality; a taken step divides the damping by the damping factor, a refused one leaves the estimate untouched and multiplies the damping by the factor, within the configured bounds.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of linear-solver answers up to the bound, crossed with damping settings, thresholds and starting points",
 "Tests check a single end result without rejected steps; the sequence of internal states is never compared with anything.",
 ["jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_mixins.py"],
 [("damping update", "jaxfg/solvers/_levenberg_marquardt_solver.py:101-114"), ("acceptance", "jaxfg/solvers/_levenberg_marquardt_solver.py:89-99")],
 ["StackedFactorGraph.solve with max_iterations=k", "arguments received by a user-supplied linear solver"],
 [dict(name="lambd", meaning="current damping", where="Levenberg-Marquardt state")])

prop("C09", "Dogleg follows its trust-region state machine",
 "Each dogleg iteration takes the Gauss-Newton step if it fits in the trust region, otherwise the point where the path from the Cauchy point to the Gauss-Newton point (or the steepest-descent ray, if the Cauchy point is outside) meets the trust-region boundary; the step never exceeds the radius. Steps are taken exactly when the ratio of actual to predicted cost change reaches the minimum step quality; the radius is halved below a ratio of 0.25, grows to at least three times the step length above 0.75, and is unchanged otherwise, and a refused step leaves the estimate untouched.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of linear-solver answers up to the bound, crossed with initial radii, thresholds and starting points",
 "The only dogleg test asserts that the negative log-likelihood went down once.",
 ["jaxfg/solvers/_dogleg_solver.py", "jaxfg/solvers/_mixins.py"],
 [("step selection", "jaxfg/solvers/_dogleg_solver.py:70-117"), ("radius update", "jaxfg/solvers/_dogleg_solver.py:137-149")],
 ["StackedFactorGraph.solve with max_iterations=k"],
 [dict(name="radius", meaning="trust-region radius", where="dogleg state")])

prop("C10", "Gauss-Newton variants take exact undamped steps",
 "With an iteration limit of k, Gauss-Newton returns the estimate after at most k undamped linearize-solve-retract steps. The fixed-iteration variant performs exactly its configured number of steps whether or not its loop is unrolled, including zero, and visits the same estimates as Gauss-Newton does.",
 ["histories", "configurations", "inputs"],
 "every iteration count up to the bound, both loop forms, several problems, starting points and linear-solver answer sequences",
 "The fixed-iteration solver is not tested at all; Gauss-Newton is only checked for a cost decrease.",
 ["jaxfg/solvers/_gauss_newton_solver.py", "jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py"],
 [("step", "jaxfg/solvers/_gauss_newton_solver.py:35-93"), ("fixed loop", "jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py:86-122")],
 ["StackedFactorGraph.solve"],
 [dict(name="iterations", meaning="steps taken", where="NonlinearSolverState")])

prop("C11", "Optimization stops exactly when a documented criterion is met",
 "A solver performs at most max_iterations iterations, and every setting that is not given has its documented default. Before that it stops after an accepted step if and only if the relative cost change, the largest absolute component of the projected gradient (only from the configured start step on) or the relative step length is below the corresponding tolerance; refused steps never count as convergence.",
 ["histories", "configurations", "fault_sequences"],
 "every combination of tolerances, start steps and iteration limits from small sets, on trajectories where each criterion triggers alone, together with others or never",
 "No test sets a tolerance or an iteration limit.",
 ["jaxfg/solvers/_mixins.py", "jaxfg/solvers/_nonlinear_solver_base.py", "jaxfg/solvers/_gauss_newton_solver.py", "jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_dogleg_solver.py"],
 [("termination criteria", "jaxfg/solvers/_mixins.py:33-115"), ("loop", "jaxfg/solvers/_nonlinear_solver_base.py:85-90")],
 ["StackedFactorGraph.solve", "number of iterations seen by a user-supplied linear solver"],
 [dict(name="done", meaning="loop exit flag", where="NonlinearSolverState")])

prop("C12", "Linear solvers solve the damped normal equations",
 "For every sparse matrix A with full column rank and every right-hand side, each linear solver returns the solution x of (A'A + D) x = b to its accuracy: D is lambda times the identity plus 1e-5 for CHOLMOD, and lambda times the diagonal of A'A for the conjugate gradient solvers. The answer does not depend on the order in which nonzeros are listed or on explicit zeros, and the inexact solver's relative residual is at most its forcing term divided by the one-based iteration number.",
 ["inputs", "configurations"],
 "every sparsity pattern of small matrices with full column rank, several value assignments, nonzero orders, dampings, tolerances and iteration numbers",
 "Tests draw one random 20x5 matrix with no damping.",
 ["jaxfg/sparse/_linear_solve.py", "jaxfg/sparse/_sparse_matrix.py"],
 [("CHOLMOD", "jaxfg/sparse/_linear_solve.py:43-100"), ("conjugate gradient", "jaxfg/sparse/_linear_solve.py:103-150"), ("forcing sequence", "jaxfg/sparse/_linear_solve.py:163-175")],
 ["solve_subproblem"])

prop("C13", "Results do not depend on what was computed before",
 "Whatever sequence of graphs, matrices and solvers a process has worked on before, solving a system or a graph gives the same answer as in a fresh process. This includes reusing a solver, creating new equal solvers, and alternating between problems with the same shapes but different connections or sparsity patterns, of any size.",
 ["histories"],
 "every sequence up to the bound over a menu of systems, graphs and solvers that share shapes and variables but differ in connections, sizes and values",
 "Each test solves one problem per compiled function.",
 ["jaxfg/sparse/_linear_solve.py", "jaxfg/core/_variables.py", "jaxfg/core/_stacked_factor_graph.py"],
 [("analysis cache", "jaxfg/sparse/_linear_solve.py:40-100"), ("canonical instances", "jaxfg/core/_variables.py:133-139"), ("vector variable types", "jaxfg/core/_variables.py:142-162")],
 ["solve_subproblem", "StackedFactorGraph.solve"],
 [dict(name="_cholmod_analyze_cache", meaning="symbolic analyses by sparsity pattern", where="jaxfg/sparse/_linear_solve.py")])

prop("C14", "Concurrent threads get the answers they would get alone",
 "When several threads solve systems or graphs at the same time, sharing solver objects and compiled functions, every thread receives exactly the answer that it would receive if it ran alone, for every interleaving.",
 ["schedules"],
 "every interleaving of two or three threads at every executed line of library code, up to a preemption bound",
 "No test uses threads.",
 ["jaxfg/sparse/_linear_solve.py", "jaxfg/core/_variables.py"],
 [("analysis cache shared by all callbacks", "jaxfg/sparse/_linear_solve.py:40-100"), ("lazily built classes and instances", "jaxfg/core/_variables.py:133-162")],
 ["solve_subproblem", "StackedFactorGraph.solve", "StackedFactorGraph.make"],
 [dict(name="_cholmod_analyze_cache", meaning="shared by all threads", where="jaxfg/sparse/_linear_solve.py")])

prop("C15", "Sparse matrix operations agree on one linear operator",
 "A coordinate-format matrix denotes the linear operator whose entry at each position is the sum of all listed values at that position. Products with vectors, transposition, conversion to dense and conversion to and from scipy all agree with it, for every coordinate list, including empty lists, repeated positions, empty rows or columns and any shape.",
 ["inputs"],
 "every coordinate list up to the bound for every small shape",
 "as_dense is marked untested and used once; products are only exercised through solvers.",
 ["jaxfg/sparse/_sparse_matrix.py"],
 [("product", "jaxfg/sparse/_sparse_matrix.py:39-48"), ("dense conversion", "jaxfg/sparse/_sparse_matrix.py:50-57"), ("transpose", "jaxfg/sparse/_sparse_matrix.py:78-87")],
 ["SparseCooMatrix"])

prop("C16", "Gaussian noise models define the right density",
 "For Gaussian and diagonal Gaussian noise models, built from a square-root precision or from a covariance, the squared norm of a whitened residual is its squared Mahalanobis distance, and a Jacobian is whitened by the same linear map as the residual. The joint negative log-likelihood of a graph is the sum over factors of that squared distance and the log-determinant of the covariance, for every number of dimensions, scale and mix of noise models.",
 ["inputs", "configurations"],
 "every noise type, dimension up to the bound, scale (including determinants beyond the floating-point range) and residual grid; every mix of noise models in one graph",
 "Tests only compare two negative log-likelihoods of unit-noise graphs.",
 ["jaxfg/noises/_gaussians.py", "jaxfg/core/_stacked_factor_graph.py"],
 [("whitening", "jaxfg/noises/_gaussians.py"), ("joint NLL", "jaxfg/core/_stacked_factor_graph.py:174-225")],
 ["whiten_residual_vector", "whiten_jacobian", "compute_joint_nll"])

prop("C17", "Huber noise optimizes the Huber loss",
 "A Huber-wrapped noise model leaves residuals and Jacobians of factors whose wrapped norm is below the threshold exactly as the wrapped model does. Above it, the whitened residual has the square root of threshold times norm as its norm and keeps its direction, and the gradient formed from the graph's Jacobian and residual is the gradient of the Huber loss, so that Gauss-Newton solves converge to its minimizer.",
 ["inputs", "configurations"],
 "every combination of thresholds, norms on both sides of and at the threshold, dimensions, wrapped models, and mixes with non-robust factors",
 "The only test compares two solution errors with one huge outlier.",
 ["jaxfg/noises/_huber.py", "jaxfg/core/_stacked_factor_graph.py"],
 [("residual weight", "jaxfg/noises/_huber.py:26-35"), ("Jacobian weight", "jaxfg/noises/_huber.py:37-54"), ("whitened residual handed to the Jacobian", "jaxfg/core/_stacked_factor_graph.py:245-266")],
 ["whiten_residual_vector", "whiten_jacobian", "compute_whitened_residual_jacobian", "solve"])

prop("C18", "Marginal covariances are blocks of the inverse information",
 "For any graph and assignment with a well-conditioned information matrix, the recovered covariance of any list of variables is the matching block matrix of the inverse of J'J, in the order in which the variables are listed, and single entries and both dense conversions agree with it. Answers do not depend on which entries were queried before.",
 ["inputs", "histories"],
 "every connected topology up to the bound with mixed variable dimensions, and every sequence of queries up to the bound",
 "Tests use one or two variables, for which the factorization happens not to permute anything.",
 ["jaxfg/experimental/_sparse_covariance.py"],
 [("factorization", "jaxfg/experimental/_sparse_covariance.py:26-52"), ("recursion and value cache", "jaxfg/experimental/_sparse_covariance.py:66-124")],
 ["SparseCovariance.make", "compute_marginal", "as_dense", "indexing"],
 [dict(name="_value_cache", meaning="covariance entries computed so far", where="SparseCovariance")])

prop("C19", "Geometry factors and variables follow the Lie groups",
 "For SO(2), SE(2), SO(3) and SE(3): prior residuals are log(T^-1 mu) and between residuals are log((Ta^-1 Tb)^-1 Tab), with exact Jacobians, away from rotations by pi. Retraction is T exp(delta), the default value is the identity, and values remain on the manifold through retractions and solves.",
 ["inputs"],
 "a grid of poses, measurements and deltas for every group, including identity, tiny, large and near-pi rotations",
 "Tests only use SE(2) at two or three poses; SO(2), SO(3) and SE(3) are never exercised.",
 ["jaxfg/geometry/_factors.py", "jaxfg/geometry/_lie_variables.py"],
 [("residuals and Jacobians", "jaxfg/geometry/_factors.py"), ("retraction", "jaxfg/geometry/_lie_variables.py:40-56")],
 ["PriorFactor", "BetweenFactor", "manifold_retract", "solve"])

prop("C20", "JAX transformations do not change results",
 "Graph and assignment operations, and solves with a conjugate gradient solver, give the same results eagerly, under jit and under vmap (over values, over initial assignments and over factor parameters) as they do one call at a time. Gradients of costs, residuals and likelihoods (with respect to values and factor parameters) and of fixed-iteration solves (with respect to factor parameters) equal their derivatives, also where residuals are zero.",
 ["programs", "inputs"],
 "every operation from a menu under every transformation from a menu, over several graphs and batch sizes",
 "Tests only use jit on the linear solvers.",
 ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_variable_assignments.py", "jaxfg/solvers", "jaxfg/sparse/_linear_solve.py"],
 [("pytree dataclasses with static layouts", "jaxfg/core"), ("traced solver loops", "jaxfg/solvers/_nonlinear_solver_base.py:75-103")],
 ["jax.jit", "jax.vmap", "jax.grad"])

prop("C21", "Variable types define values by example",
 "For any variable type, whatever pytree its default value is, flattening and unflattening are inverse to each other and preserve the structure and shapes of values, and the reported dimension is the number of scalars in the value. Types without a custom manifold retract by elementwise addition, and the retraction Jacobian of every type is the derivative of its retraction; each type has one canonical instance, and asking for a vector type of a given size always gives the same type.",
 ["programs", "inputs"],
 "every pytree shape from a grammar of nested containers and leaf shapes up to the bound",
 "Tests define one two-leaf variable and scalar variables.",
 ["jaxfg/core/_variables.py"],
 [("flattening from the default value", "jaxfg/core/_variables.py:84-131"), ("default retraction", "jaxfg/core/_variables.py:28-67"), ("canonical instances and vector types", "jaxfg/core/_variables.py:133-162")],
 ["VariableBase", "RealVectorVariable"])

prop("C22", "Incompatible inputs are refused, not silently misread",
 "Evaluating, linearizing, solving or retracting with assignments that lack a variable of the graph, contain extra variables, or are local where global values are needed (and vice versa) raises an error, as does building value tuples with the wrong number or types of values, asking for the likelihood of non-Gaussian noise, or multiplying a sparse matrix with a vector of the wrong length. Compatible inputs are never refused.",
 ["inputs", "configurations"],
 "every pair of variable sets up to the bound and every operation, and every single-point mutation of valid inputs from a menu",
 "No test passes an invalid input.",
 ["jaxfg/core/_variable_assignments.py", "jaxfg/core/_factor_base.py", "jaxfg/core/_factor_stack.py", "jaxfg/core/_stacked_factor_graph.py", "jaxfg/sparse/_sparse_matrix.py"],
 [("layout assertions", "jaxfg/core/_variable_assignments.py:100-104"), ("value tuple validation", "jaxfg/core/_factor_base.py:113-166")],
 ["exceptions at the API"])

prop("C23", "g2o files are loaded as the pose graph they describe",
 "For every well-formed 2D or 3D g2o file, the loader returns one variable per vertex with its pose, and a graph whose cost is the sum over edges of the squared Mahalanobis distance of the relative-pose error under the listed information matrix, plus an anchor on the first pose. A pose count limit drops exactly the vertices beyond it and the edges that touch them.",
 ["inputs"],
 "every sequence of vertex and edge records from a small alphabet up to the bound, with full, non-diagonal information matrices, and every limit",
 "The loader is only compiled, never run by the tests.",
 ["scripts/_g2o_utils.py", "jaxfg/geometry/_factors.py"],
 [("parser", "scripts/_g2o_utils.py:20-136")],
 ["parse_g2o", "compute_cost"])

prop("C24", "Editing a stacked graph equals rebuilding it",
 "Replacing parameters or noise inside a stacked graph (by copy and mutate, or functionally) gives a graph that evaluates, linearizes and solves exactly like a graph built from factors with the new parameters, with rows of the stacked parameters in the order in which the factors of the group were listed. The original graph and the original factors are unaffected. Factors and the graphs made from them do not share arrays, so writing into one's numpy parameters does not change the other.",
 ["histories", "inputs"],
 "every sequence of edits up to the bound over the stacks of several graphs, interleaved with evaluations and solves",
 "No test edits a graph.",
 ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_factor_stack.py"],
 [("stacking order", "jaxfg/core/_factor_stack.py:54-61"), ("parameters are pytree leaves, not constants", "jaxfg/core/_factor_stack.py:16-31")],
 ["jax_dataclasses.copy_and_mutate", "compute_cost", "solve"],
 [dict(name="factor_stacks", meaning="stacked parameters", where="StackedFactorGraph")])

prop("C25", "Progress reports describe the optimization without influencing it",
 "With verbose on, every solver prints one line per iteration, in order, that holds the iteration's number and the cost of the estimate it starts from (Levenberg-Marquardt: and the damping, dogleg: and the trust-region radius that it uses), and then one line with the number of iterations performed and the cost of the estimate that is returned. With verbose off nothing is printed. The solution is the same either way.",
 ["histories", "inputs"],
 "every sequence of linear-solver answers, iteration limit, tolerance and loop form up to the bound, with reports on and off",
 "Tests never look at what is printed; a wrong report needs a refused step or an early stop to show.",
 ["jaxfg/solvers/_nonlinear_solver_base.py", "jaxfg/solvers/_gauss_newton_solver.py", "jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_dogleg_solver.py", "jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py"],
 [("reports", "jaxfg/solvers/_nonlinear_solver_base.py:94-121"), ("cost kept when a step is refused", "jaxfg/solvers/_levenberg_marquardt_solver.py:150-153")],
 ["verbose", "solve"],
 [dict(name="iterations", meaning="number of iterations performed", where="NonlinearSolverState"), dict(name="cost", meaning="cost of the current estimate", where="NonlinearSolverState")])

prop("C26", "Example programs optimize the problem they are given",
 "scripts/pose_graph_g2o.py, for any g2o file (2D or 3D), each of its solver choices and with or without a Huber threshold, plots the positions of the poses in the file as the initial path and the positions of the MAP estimate of that pose graph (with the robust loss, if a threshold is given) as the optimized path, both in the order of the poses in the file. scripts/pose_graph_simple.py prints the solution of its two-pose problem.",
 ["inputs"],
 "all files of a set x solver choices x thresholds, run through the programs' command line",
 "No test runs the programs.",
 ["scripts/pose_graph_g2o.py", "scripts/_g2o_utils.py", "scripts/pose_graph_simple.py"],
 [("robust loss on every factor", "scripts/pose_graph_g2o.py:60-73"), ("solver choices", "scripts/pose_graph_g2o.py:22-39")],
 ["command line of scripts/pose_graph_g2o.py"])

prop("C27", "Utilities act on every leaf and leave what they wrap alone",
 "pytree_stack and pytree_concatenate return a pytree of the structure of their arguments in which every leaf is the stack or concatenation of the corresponding leaves, in the order of the arguments and along the given axis (default 0); an axis that some leaf does not have is refused. stopwatch runs its block exactly once, lets return values and exceptions through, and prints its label and the seconds that the block took, also when blocks overlap or share labels.",
 ["inputs"],
 "all trees of a grammar x number of arguments x axes; all ways to leave a timed block",
 "No test uses them.",
 ["jaxfg/utils.py"],
 [("leafwise stacking", "jaxfg/utils.py:13-22"), ("timing", "jaxfg/utils.py:25-33")],
 ["jaxfg.utils.pytree_stack", "jaxfg.utils.pytree_concatenate", "jaxfg.utils.stopwatch"])

prop("C28", "User-defined noise models are applied as written",
 "For a graph whose factors use noise models that a user has written (with scalar, array, nested or static parameters, linear or not, extending a built-in model, or wrapped by one), the residual block of each factor is its own model's whitening of its own residual. Its Jacobian block is its own model's whitening of its own Jacobian, for which the model is given that factor's whitened residual. Models that differ in type, structure, static options or parameters are never applied to each other's factors.",
 ["inputs"],
 "all sequences of factors up to the bound over an alphabet of user-defined and built-in models",
 "Tests use the built-in models only, and never two models whose difference is a static option.",
 ["jaxfg/core/_factor_stack.py", "jaxfg/core/_stacked_factor_graph.py", "jaxfg/noises/_noise_model_base.py", "jaxfg/noises/_huber.py"],
 [("residuals are whitened per factor", "jaxfg/core/_stacked_factor_graph.py:123-156"), ("Jacobians are whitened per factor", "jaxfg/core/_stacked_factor_graph.py:224-272"), ("factors are grouped by the structure of their noise", "jaxfg/core/_stacked_factor_graph.py:57-75")],
 ["NoiseModelBase", "HuberWrapper", "compute_cost", "compute_whitened_residual_jacobian"])

prop("C29", "Storage layouts give every variable its own place",
 "For any iterable of variables, in any order, of any types and with repetitions, a layout gives each distinct variable one contiguous block of exactly its (global or local) dimension; the blocks follow each other in the order in which the layout lists its variables, fill the storage vector, and keep variables of a type together, and the reported dimension, counts and starts agree with them. Assignments keep the flattened value of every variable in its block, also after their layout has been changed. Layouts are equal, with equal hashes, exactly when they are both global or both local and place the same variables alike.",
 ["inputs"],
 "all lists of variables up to the bound x global and local, all pairs of layouts, all changes of layout",
 "Tests never look at a layout, and use few lists of variables.",
 ["jaxfg/core/_storage_layout.py", "jaxfg/core/_variable_assignments.py"],
 [("blocks", "jaxfg/core/_storage_layout.py:46-82"), ("moving blocks", "jaxfg/core/_variable_assignments.py:82-124")],
 ["StorageLayout.make", "StorageLayout.index_from_variable", "VariableAssignments.storage"],
 [dict(name="storage", meaning="flattened values", where="VariableAssignments")])

prop("C30", "Numeric types of inputs do not change results",
 "Parameters, noise models, values and solver settings may be given as Python numbers, NumPy or JAX scalars or arrays, as integers or in single or double precision, in any mix: setting values, evaluating, linearizing, retracting and solving give the results that the same numbers give in double precision, up to the rounding of the least precise type involved. No such mix is refused.",
 ["inputs", "configurations"],
 "every setting x every form of a number; all mixes of types of parameters, noise and values x solvers x linear solvers",
 "Tests use one type throughout.",
 ["jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_dogleg_solver.py", "jaxfg/core/_variable_assignments.py", "jaxfg/core/_factor_stack.py", "jaxfg/sparse/_sparse_matrix.py"],
 [("state of the solvers", "jaxfg/solvers/_levenberg_marquardt_solver.py:34-50"), ("type of storage", "jaxfg/core/_variable_assignments.py:76-79"), ("stacked parameters", "jaxfg/core/_factor_stack.py:54-61"), ("type of products", "jaxfg/sparse/_sparse_matrix.py:42-51")],
 ["solve", "compute_cost", "manifold_retract"],
 [dict(name="settings", meaning="fields of solvers", where="NonlinearSolverBase")])

prop("C31", "Sessions of growing, editing and solving stay consistent",
 "In any session that adds and removes variables and factors, carries estimates over to new graphs, sets values, changes storage orders, edits stacked parameters, retracts and takes solver steps, every intermediate graph and estimate evaluates, linearizes and yields likelihoods and covariances as the same problem and estimate do when they are written down afresh. Nothing that is done later changes a graph or an estimate from before.",
 ["histories"],
 "all sequences of operations up to the bound, three families of variable types",
 "Tests build one graph, solve it once and compare the end result.",
 ["jaxfg/core/_stacked_factor_graph.py", "jaxfg/core/_variable_assignments.py", "jaxfg/core/_storage_layout.py", "jaxfg/solvers/_nonlinear_solver_base.py", "jaxfg/experimental/_sparse_covariance.py"],
 [("graphs from factors", "jaxfg/core/_stacked_factor_graph.py:46-120"), ("estimates carried over", "jaxfg/core/_variable_assignments.py:30-124"), ("steps from and to any storage order", "jaxfg/solvers/_nonlinear_solver_base.py:72-104")],
 ["StackedFactorGraph.make", "solve", "make_from_partial_dict", "set_value", "manifold_retract", "SparseCovariance.make"],
 [dict(name="estimate", meaning="current assignments", where="VariableAssignments")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), max(len(p["title"]) for p in P))
