"""Reference nonlinear solvers, and the environment that drives the real ones.

The reference machines are nondeterministic: where a comparison is too close to call in
floating point, both outcomes are possible successors. An observation is accepted if it
matches one of the states that the machine can be in."""

import dataclasses
import functools
from typing import Any, Tuple

import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp

import jaxfg

from . import lab

# Environment ----------------------------------------------------------------------------


@jdc.pytree_dataclass
class ScriptedSolver(jaxfg.sparse.LinearSubproblemSolverBase):
    """A user-supplied linear solver that answers iteration i with scale[i] times the exact
    solution of the damped system. The scales are data, so that scripts share one compiled
    solve. Everything that the library passes in enters the answer."""

    scale: Any

    def solve_subproblem(self, A, ATb, lambd, iteration):
        dense = jnp.zeros(A.shape).at[A.coords.rows, A.coords.cols].add(A.values)
        n = dense.shape[1]
        x = jnp.linalg.solve(dense.T @ dense + lambd * jnp.eye(n), ATb)
        return x * self.scale[jnp.minimum(iteration, self.scale.shape[0] - 1)]

    solve_subproblem.__override__ = True


def scripted(script, length=64):
    """Pads a script with exact answers, so that every script has the same shape."""
    scale = np.ones(length)
    scale[: len(script)] = script
    return ScriptedSolver(scale=scale)


# Problems -------------------------------------------------------------------------------


@jdc.pytree_dataclass
class FunctionFactor(jaxfg.core.FactorBase):
    kind: jdc.Static[str]
    p: Any

    def compute_residual_vector(self, variable_values: Tuple[object, ...]):
        return FORMULAS[self.kind](jnp, self.p, *variable_values)

    compute_residual_vector.__override__ = True


def _norm(xp, v):
    return xp.sqrt(xp.sum(v * v))


FORMULAS = {
    "atan": lambda xp, p, x: xp.stack([p[0] * xp.arctan(p[1] * (x[0] - p[2]))]),
    "rosen": lambda xp, p, x: xp.stack([p[0] * (x[1] - x[0] ** 2), 1.0 - x[0]]),
    "range": lambda xp, p, x: xp.stack([_norm(xp, x - p[:2]) - p[2]]),
    "prior": lambda xp, p, x: x - p,
    "diff": lambda xp, p, x, y: y - x - p,
    "bend": lambda xp, p, c, x: xp.stack([c[0] * x[0] - p[0], c[1] * x[0] ** 2 - p[1]]),
    "exp": lambda xp, p, x: xp.stack([xp.exp(p[0] * x[0]) - p[1], p[2] * x[0]]),
    "cubic": lambda xp, p, x: xp.stack([x[0] ** 3 - p[0] * x[0] + p[1]]),
}


def function_factor(kind, variables, p, noise=None):
    p = np.asarray(p, float)
    formula = FORMULAS[kind]
    example = [lab.vtype_of(v).points[0] for v in variables]
    dim = len(formula(np, p, *example))
    noise = noise or lab.Noise("diag", dim)
    return lab.Factor(
        list(variables),
        noise,
        lambda vs, model: FunctionFactor(variables=vs, noise_model=model, kind=kind, p=p),
        lambda xs: np.asarray(formula(np, p, *xs)),
    )


class Problem:
    """A graph, its numpy meaning, and starting points."""

    def __init__(self, name, factors, starts):
        self.name, self.factors = name, factors
        self.graph = lab.make_graph(factors)
        self.variables = lab.variables_of(factors)
        layout = self.graph.local_storage_layout
        self.columns = {v: layout.index_from_variable[v] for v in self.variables}
        self.dim = sum(lab.vtype_of(v).ldim for v in self.variables)
        self.starts = [{v: np.asarray(s[i], float) for i, v in enumerate(self.variables)} for s in starts]
        self._systems = {}

    def pack(self, values):
        return np.concatenate([values[v] for v in self.variables])

    def unpack(self, flat):
        out, at = {}, 0
        for v in self.variables:
            n = lab.vtype_of(v).dim
            out[v] = flat[at : at + n]
            at += n
        return out

    def residual(self, flat):
        values = self.unpack(flat)
        return np.concatenate([f.whitened(values) for f in self.factors])

    def cost(self, flat):
        with np.errstate(all="ignore"):
            r = self.residual(flat)
            return float(np.sum(r * r))

    def system(self, flat):
        key = flat.tobytes()
        if key not in self._systems:
            if len(self._systems) > 20000:
                self._systems.clear()
            values = self.unpack(flat)
            with np.errstate(all="ignore"):
                J = np.concatenate(
                    [f.jacobian(values, self.columns, self.dim) for f in self.factors]
                )
                r = self.residual(flat)
            self._systems[key] = (J, r)
        return self._systems[key]

    def retract(self, flat, delta):
        values = self.unpack(flat)
        with np.errstate(all="ignore"):
            return self.pack(lab.ref_retract(values, delta, self.columns))

    def distance(self, a, b):
        """Largest difference between two flat values, modulo equal representations."""
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            return 0.0 if np.array_equal(np.isfinite(a), np.isfinite(b)) else np.inf
        va, vb = self.unpack(a), self.unpack(b)
        return max(lab.vtype_of(v).same(va[v], vb[v]) for v in self.variables)

    def assignments(self, flat, order=None):
        return lab.make_assignments(self.unpack(flat), order or self.variables)

    def observe(self, solver, initial):
        result = self.graph.solve(initial, solver)
        return self.pack(lab.read_assignments(result, self.variables))


def _problem_atan():
    x, y = lab.var("R1", 0), lab.var("R1", 1)
    return Problem(
        "atan",
        [
            function_factor("atan", [x], [2.0, 1.5, 0.2]),
            function_factor("diff", [x, y], [0.5]),
            function_factor("atan", [y], [1.0, 1.0, -0.3]),
        ],
        [([1.6], [-0.4]), ([4.0], [3.0]), ([0.3], [0.1]), ([-2.5], [6.0])],
    )


def _problem_rosen():
    x = lab.var("R2", 0)
    return Problem(
        "rosen",
        [function_factor("rosen", [x], [5.0])],
        [([-1.2, 1.0],), ([0.0, 3.0],), ([1.1, 1.3],), ([2.0, -1.0],)],
    )


def _problem_range():
    x, y = lab.var("R2", 0), lab.var("R2", 1)
    return Problem(
        "range",
        [
            function_factor("range", [x], [0.0, 0.0, 1.0]),
            function_factor("range", [x], [2.0, 0.3, 1.2]),
            function_factor("range", [y], [1.0, 2.0, 0.7]),
            function_factor("diff", [x, y], [0.4, 0.9], lab.Noise("full", 2)),
        ],
        [([0.1, 0.2], [1.0, 1.6]), ([3.0, -2.0], [0.0, 0.5]), ([0.9, 0.4], [1.1, 1.4])],
    )


def _problem_bend():
    c, x = lab.var("C", 0), lab.var("R1", 0)
    angle = lambda t: [np.cos(t), np.sin(t)]
    return Problem(
        "bend",
        [
            function_factor("bend", [c, x], [1.0, 0.8]),
            function_factor("prior", [x], [1.4]),
        ],
        [(angle(2.5), [0.3]), (angle(-1.0), [2.0]), (angle(0.5), [1.2])],
    )


def _problem_exp():
    x = lab.var("R1", 0)
    return Problem(
        "exp",
        [function_factor("exp", [x], [2.0, 3.0, 0.1])],
        [([-2.0],), ([3.0],), ([0.6],), ([0.0],)],
    )


def _problem_cubic():
    x = lab.var("R1", 0)
    return Problem(
        "cubic",
        [
            function_factor("cubic", [x], [2.0, 2.0]),
            function_factor("prior", [x], [0.0], lab.Noise("diag", 1, variant=-2)),
        ],
        [([0.0],), ([1.0],), ([0.9],), ([-3.0],)],
    )


def _problem_pose():
    g = lab.ref.SE2
    p = lambda x, y, t: np.array([np.cos(t), np.sin(t), x, y])
    return Problem(
        "pose",
        [
            lab.prior("SE2", 0, mu=p(0.0, 0.0, 0.0)),
            lab.between("SE2", 0, 1, measured=p(1.0, 0.2, 0.9), noise="full"),
            lab.between("SE2", 1, 0, measured=p(-0.6, 0.5, -1.3), variant=1),
        ],
        [(p(0.1, -0.1, 0.2), p(1.2, 0.3, 0.7)), (p(0.5, 1.0, -1.2), p(-1.0, 0.4, 1.0))],
    )


def _problem_outlier():
    """A pose chain with a grossly wrong loop closure, and a robust factor."""
    p = lambda x, y, t: np.array([np.cos(t), np.sin(t), x, y])
    return Problem(
        "outlier",
        [
            lab.prior("SE2", 0, mu=p(0.0, 0.0, 0.0), noise="full"),
            lab.between("SE2", 0, 1, measured=p(1.0, 0.0, 0.3), variant=1),
            lab.between("SE2", 1, 2, measured=p(1.0, 0.1, 0.2), variant=1),
            lab.between("SE2", 2, 0, measured=p(3.0, -2.0, 2.5), variant=2, noise="huber-full"),
        ],
        [
            (p(0.1, -0.1, 0.2), p(1.2, 0.3, 0.7), p(2.0, 1.0, 1.0)),
            (p(0.5, 1.0, -1.2), p(-1.0, 0.4, 1.0), p(-2.0, -3.0, 2.2)),
        ],
    )


@functools.lru_cache(maxsize=None)
def problem(name):
    return globals()[f"_problem_{name}"]()


# Reference machines ---------------------------------------------------------------------


@dataclasses.dataclass(frozen=True)
class State:
    x: bytes
    extra: float  # damping or radius
    iterations: int = 0
    done: bool = False

    @property
    def flat(self):
        return np.frombuffer(self.x)


def near(a, b, scale=0.0, tol=1e-6):
    """Whether a comparison of a with b could come out either way."""
    if not (np.isfinite(a) and np.isfinite(b)):
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b), scale)


def less(a, b, scale=0.0, tol=1e-6):
    """Possible outcomes of a < b."""
    with np.errstate(invalid="ignore"):
        out = {bool(a < b)}
    if near(a, b, scale, tol):
        out = {True, False}
    return out


def linear_answer(J, g, lambd, scale):
    with np.errstate(all="ignore"):
        try:
            return scale * np.linalg.solve(J.T @ J + lambd * np.eye(J.shape[1]), g)
        except np.linalg.LinAlgError:
            return np.full(J.shape[1], np.nan)


def convergence(problem, x, g, step, cost, cost_new, iterations, s):
    """Possible values of the convergence flag, for termination settings `s`."""
    if not (s["cost_tolerance"] or s["gradient_tolerance"] or s["parameter_tolerance"]):
        return {False}
    with np.errstate(all="ignore"):
        relative = abs(cost_new - cost) / cost if cost != 0 else np.nan
        by_cost = less(relative, s["cost_tolerance"]) if s["cost_tolerance"] else {False}
        # Relative changes at the rounding level can come out as anything
        if s["cost_tolerance"] and relative < 1e-12 and s["cost_tolerance"] < 1e-11:
            by_cost = {True, False}
        by_gradient = {False}
        if iterations >= s["gradient_tolerance_start_step"] and s["gradient_tolerance"]:
            projected = np.max(np.abs(x - problem.retract(x, g)))
            by_gradient = less(projected, s["gradient_tolerance"])
        by_step = (
            less(
                np.linalg.norm(step),
                (np.linalg.norm(x) + s["parameter_tolerance"]) * s["parameter_tolerance"],
            )
            if s["parameter_tolerance"]
            else {False}
        )
    return {a or b or c for a in by_cost for b in by_gradient for c in by_step}


NO_TOLERANCE = dict(
    cost_tolerance=0.0,
    gradient_tolerance=0.0,
    gradient_tolerance_start_step=10,
    parameter_tolerance=0.0,
)


def ratio_of(problem, J, r, step, cost, cost_new):
    """Actual over predicted cost change, and whether it is only rounding noise."""
    with np.errstate(all="ignore"):
        predicted = float(np.sum((J @ step + r) ** 2)) - cost
        actual = cost_new - cost
        noise = 1e-11 * max(cost, cost_new if np.isfinite(cost_new) else 0.0, 1e-30)
        if np.isfinite(actual) and np.isfinite(predicted):
            unclear = abs(predicted) < noise
        else:
            unclear = False
        ratio = actual / predicted if predicted != 0 else np.nan
        # The rounding error of the ratio itself
        error = 1e-6 + (noise / abs(predicted) if predicted and np.isfinite(predicted) else 0.0)
    return ratio, error, unclear


def _compare(ratio, error, unclear, threshold):
    """Possible outcomes of ratio >= threshold."""
    if unclear:
        return {True, False}
    with np.errstate(invalid="ignore"):
        out = {bool(ratio >= threshold)}
    if np.isfinite(ratio) and abs(ratio - threshold) <= error * max(1.0, abs(ratio)):
        out = {True, False}
    return out


def gauss_newton(problem, state, scale, s):
    x = state.flat
    J, r = problem.system(x)
    with np.errstate(all="ignore"):
        g = -(J.T @ r)
        step = linear_answer(J, g, 0.0, scale)
        new = problem.retract(x, step)
    i = state.iterations + 1
    out = []
    for converged in convergence(
        problem, x, g, step, float(r @ r), problem.cost(new), state.iterations, s
    ):
        out.append(State(new.tobytes(), 0.0, i, converged))
    return out


def levenberg_marquardt(problem, state, scale, s):
    x = state.flat
    J, r = problem.system(x)
    cost = float(r @ r)
    with np.errstate(all="ignore"):
        g = -(J.T @ r)
        step = linear_answer(J, g, state.extra, scale)
        new = problem.retract(x, step)
    cost_new = problem.cost(new)
    ratio = ratio_of(problem, J, r, step, cost, cost_new)
    i = state.iterations + 1
    out = []
    for accept in _compare(*ratio, s["step_quality_min"]):
        if accept:
            for converged in convergence(problem, x, g, step, cost, cost_new, state.iterations, s):
                out.append(State(new.tobytes(), state.extra / s["lambda_factor"], i, converged))
        else:
            raised = max(s["lambda_min"], min(state.extra * s["lambda_factor"], s["lambda_max"]))
            out.append(State(x.tobytes(), raised, i, False))
    return out


def dogleg_step(J, g, gn, radius):
    """The step, or None where it is not determined (rounding decides)."""
    with np.errstate(all="ignore"):
        a = (g @ g) / np.sum((J @ g) ** 2) * g
        if np.linalg.norm(gn) <= radius:
            return gn
        if np.linalg.norm(a) >= radius:
            return radius / np.linalg.norm(a) * a
        # Largest t in [0, 1] with |a + t (gn - a)| = radius
        d = gn - a
        qa, qb, qc = d @ d, 2 * a @ d, a @ a - radius**2
        t = (-qb + np.sqrt(qb * qb - 4 * qa * qc)) / (2 * qa)
        return a + t * d


def dogleg(problem, state, scale, s):
    x, radius = state.flat, state.extra
    J, r = problem.system(x)
    cost = float(r @ r)
    with np.errstate(all="ignore"):
        g = -(J.T @ r)
        gn = linear_answer(J, g, 0.0, scale)
        step = dogleg_step(J, g, gn, radius)
        new = problem.retract(x, step)
    cost_new = problem.cost(new)
    ratio = ratio_of(problem, J, r, step, cost, cost_new)
    i = state.iterations + 1
    out = []
    for accept in _compare(*ratio, s["step_quality_min"]):
        for above_quarter in _compare(*ratio, 0.25):
            for above_three_quarters in _compare(*ratio, 0.75):
                if np.isnan(ratio[0]) and not ratio[2]:
                    new_radius = radius
                elif not above_quarter:
                    new_radius = radius / 2
                elif above_three_quarters:
                    new_radius = max(radius, 3 * np.linalg.norm(step))
                else:
                    new_radius = radius
                radii = {new_radius}
                if ratio[2]:
                    radii |= {radius, radius / 2, max(radius, 3 * np.linalg.norm(step))}
                for q in radii:
                    if accept:
                        for converged in convergence(
                            problem, x, g, step, cost, cost_new, state.iterations, s
                        ):
                            out.append(State(new.tobytes(), q, i, converged))
                    else:
                        out.append(State(x.tobytes(), q, i, False))
    return list(dict.fromkeys(out))


STEP = {"gn": gauss_newton, "lm": levenberg_marquardt, "dl": dogleg}


def initial_state(kind, flat, s):
    extra = {"gn": 0.0, "lm": s.get("lambda_initial"), "dl": s.get("radius_initial")}[kind]
    return State(np.asarray(flat, float).tobytes(), float(extra))


def make_solver(kind, linear_solver, max_iterations, s):
    """The real solver. All settings are data: they share one compiled solve."""
    common = dict(
        verbose=False,
        linear_solver=linear_solver,
        max_iterations=max_iterations,
        cost_tolerance=s["cost_tolerance"],
        gradient_tolerance=s["gradient_tolerance"],
        gradient_tolerance_start_step=s["gradient_tolerance_start_step"],
        parameter_tolerance=s["parameter_tolerance"],
    )
    if kind == "gn":
        return jaxfg.solvers.GaussNewtonSolver(**common)
    if kind == "lm":
        return jaxfg.solvers.LevenbergMarquardtSolver(
            **common,
            **{k: s[k] for k in ("lambda_initial", "lambda_factor", "lambda_min", "lambda_max", "step_quality_min")},
        )
    return jaxfg.solvers.DoglegSolver(
        **common, **{k: s[k] for k in ("radius_initial", "step_quality_min")}
    )


LM_DEFAULTS = dict(
    NO_TOLERANCE,
    lambda_initial=5e-4,
    lambda_factor=2.0,
    lambda_min=1e-5,
    lambda_max=1e10,
    step_quality_min=1e-3,
)
DL_DEFAULTS = dict(NO_TOLERANCE, radius_initial=1.0, step_quality_min=1e-3)
GN_DEFAULTS = dict(NO_TOLERANCE)
DEFAULTS = {"gn": GN_DEFAULTS, "lm": LM_DEFAULTS, "dl": DL_DEFAULTS}


def matching(problem, states, observed, tol=1e-6):
    """The states that agree with an observed estimate."""
    out = []
    for state in states:
        x = state.flat
        scale = 1.0 + (np.max(np.abs(x)) if np.all(np.isfinite(x)) else 0.0)
        if problem.distance(x, observed) <= tol * scale:
            out.append(state)
    return out


def merge(states):
    """Drops states that only differ by rounding."""
    out = {}
    for state in states:
        key = (
            np.round(state.flat, 9).tobytes(),
            float(f"{state.extra:.9e}"),
            state.iterations,
            state.done,
        )
        out.setdefault(key, state)
    return list(out.values())


def judgeable(problem, state):
    J, r = problem.system(state.flat)
    if not (np.all(np.isfinite(J)) and np.all(np.isfinite(r)) and np.max(np.abs(state.flat)) < 1e3):
        return False
    return np.linalg.cond(J.T @ J + (state.extra if problem.damped else 0.0) * np.eye(J.shape[1])) < 1e6


def explore_answers(ctx, problem, kind, start, settings, alphabet, depth, check=None, label=None):
    """Walks the tree of all linear-solver answer sequences up to `depth`.

    At every node, the real solver is run for as many iterations as there are answers, and
    its estimate must be one that the reference machine can be in. The belief (set of
    possible reference states) is carried down the tree."""
    initial = problem.assignments(start)
    problem.damped = kind == "lm"
    root = initial_state(kind, start, settings)

    def visit(script, belief):
        case = dict(problem=problem.name, solver=kind, start=start.tolist(), script=list(script),
                    settings={k: v for k, v in settings.items() if v != DEFAULTS[kind].get(k)})
        with ctx.case(case):
            solver = make_solver(kind, scripted(script), len(script), settings)
            observed = problem.observe(solver, initial)
            ctx.transition()
            matched = matching(problem, belief, observed)
            ctx.check(
                bool(matched),
                lambda: f"after answers {list(script)} the estimate is {observed.tolist()}, expected "
                f"one of {[s.flat.tolist() for s in belief[:3]]}",
            )
            for s in matched:
                ctx.state((problem.name, kind, np.round(s.flat, 7).tolist(), float(f"{s.extra:.6e}")))
            ctx.outcome((kind, np.round(observed, 6).tolist()))
            if check is not None:
                check(ctx, problem, script, observed)
            if len(script) == depth:
                ctx.trace()
                return
            if len(matched) > 1:
                ctx.count("ambiguous_nodes")
            if not all(judgeable(problem, s) for s in matched if not s.done):
                # Rounding errors would be amplified beyond our tolerances
                ctx.count("pruned_ill_conditioned")
                ctx.trace()
                return
            for answer in alphabet:
                successors = merge(
                    t for s in matched for t in (STEP[kind](problem, s, answer, settings) if not s.done else [s])
                )
                if kind != "gn":
                    moved = any(s.x != t.x for s in matched for t in successors)
                    ctx.count("accepted" if moved else "refused")
                visit(script + (answer,), successors)

    visit((), [root])


def long_run(ctx, problem, kind, limits):
    """One long run with short steps, observed at many iteration limits."""
    import jaxfg

    machine = kind if kind in STEP else "gn"
    length = max(limits)
    script = [(0.05, 0.08, 0.03, 0.06)[i % 4] for i in range(length)]
    if machine != "gn":  # Some failed answers
        script = [float("nan") if i % 11 == 5 else a for i, a in enumerate(script)]
    settings = DEFAULTS[machine]
    if machine == "dl":
        settings = dict(settings, radius_initial=0.04)
    problem.damped = machine == "lm"
    start = problem.pack(problem.starts[-1])
    initial = problem.assignments(start)
    linear = scripted(script, length=160)
    belief = [initial_state(machine, start, settings)]
    for n in range(length + 1):
        if n in limits:
            case = dict(problem=problem.name, solver=kind, start=start.tolist(), iterations=n)
            with ctx.case(case):
                if kind == machine:
                    solver = make_solver(kind, linear, n, settings)
                else:
                    solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(
                        verbose=False, linear_solver=linear, unroll=kind == "unrolled", iterations=n
                    )
                observed = problem.observe(solver, initial)
                ctx.transition()
                ctx.trace()
                ctx.state((problem.name, kind, n))
                ctx.outcome((kind, np.round(observed, 7).tolist()))
                belief = matching(problem, belief, observed) or ctx.fail(
                    f"after {n} iterations the estimate is {observed.tolist()}, expected one of {[s.flat.tolist() for s in belief[:3]]}"
                )
        if n < length:
            belief = merge(t for s in belief for t in STEP[machine](problem, s, script[n], settings))
    ctx.sample(dict(problem=problem.name, solver=kind, limits=list(limits)))
