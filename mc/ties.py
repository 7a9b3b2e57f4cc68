"""Decisions whose two sides are equal.

All numbers are small multiples of powers of two, so that every reasonable way of computing
the quantities that are compared is exact, and a tie is a tie."""

import itertools
from typing import Any, Tuple

import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp

import jaxfg

from . import lab, machines

# Residuals (x, [x < 8] k): going from 9 to 7 is predicted to lower the cost by 32, and lowers
# it by 32 - |k|^2
EXTRAS = {0: (), 4: (2,), 8: (2, 2), 16: (4,), 24: (4, 2, 2), 28: (4, 2, 2, 2), 32: (4, 4), 40: (4, 4, 2, 2)}


@jdc.pytree_dataclass
class Step(jaxfg.core.FactorBase):
    k: Any

    def compute_residual_vector(self, variable_values: Tuple[object]):
        (x,) = variable_values
        return jnp.concatenate([x, jnp.where(x[0] < 8.0, 1.0, 0.0) * self.k])

    compute_residual_vector.__override__ = True


@jdc.pytree_dataclass
class Answers(jaxfg.sparse.LinearSubproblemSolverBase):
    """Answers iteration i with steps[i]."""

    steps: Any

    def solve_subproblem(self, A, ATb, lambd, iteration):
        return jnp.asarray(self.steps)[jnp.minimum(iteration, len(self.steps) - 1)]

    solve_subproblem.__override__ = True


def quality(ctx, kind):
    """Steps whose quality equals the minimum step quality, 0.25 or 0.75."""
    v = lab.var("R1", 0)
    initial = lab.make_assignments({v: np.array([9.0])})
    solve = lambda graph, s, n, steps: float(
        graph.solve(initial, machines.make_solver(kind, Answers(steps=np.array(steps)), n, s)).get_value(v)[0]
    )
    for total, k in EXTRAS.items():
        k = np.array(k + (0,) * (4 - len(k)), float)
        factor = Step(variables=(v,), noise_model=jaxfg.noises.DiagonalGaussian(np.ones(5)), k=k)
        graph = jaxfg.core.StackedFactorGraph.make([factor])
        ratio = (32 - total) / 32
        for minimum in (1.0, 0.875, 0.75, 0.5, 0.25, 0.125, 0.0, -0.25):
            case = dict(solver=kind, ratio=ratio, step_quality_min=minimum)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                s = dict(machines.DEFAULTS[kind], step_quality_min=minimum, **({"radius_initial": 2.0} if kind == "dl" else {}))
                expected = 7.0 if ratio >= minimum else 9.0
                got = solve(graph, s, 1, [[-2.0]])
                ctx.transition()
                ctx.state((kind, ratio, minimum))
                ctx.outcome((kind, got))
                ctx.trace()
                ctx.count("ties" if ratio in (minimum, 0.25, 0.75) else "others")
                ctx.check(got == expected, f"step of quality {ratio} goes to {got} instead of {expected}, with a minimum quality of {minimum}")
                if kind == "dl" and expected == 7.0 and minimum < 1:
                    # The next step is as long as the trust region
                    radius = 1.0 if ratio < 0.25 else 6.0 if ratio > 0.75 else 2.0
                    got = solve(graph, s, 2, [[-2.0], [-7.0]])
                    ctx.transition()
                    ctx.check(abs(got - (7.0 - radius)) < 1e-9, f"after a step of quality {ratio}, the next step goes to {got} instead of {7.0 - radius}")
    ctx.sample(case)


def stopping(ctx, kind):
    """Steps whose cost change, gradient or length equals the tolerance."""
    v, u = lab.var("R1", 0), lab.var("R2", 0)
    line = lab.linear([v], [np.eye(1)], np.zeros(1), lab.Noise("diag", 1))
    line.jaxfg = jdc.replace(line.jaxfg, noise_model=jaxfg.noises.DiagonalGaussian(np.ones(1)))
    plane = lab.linear([u], [np.eye(2)], np.zeros(2), lab.Noise("diag", 2))
    plane.jaxfg = jdc.replace(plane.jaxfg, noise_model=jaxfg.noises.DiagonalGaussian(np.ones(2)))
    graphs = {1: lab.make_graph([line]), 2: lab.make_graph([plane])}
    menus = [
        # |cost change| / cost = 48 / 64
        (1, [8.0], [-4.0], "cost_tolerance", 0.75, (0.5, 0.75 - 2**-20, 0.75, 0.75 + 2**-20, 1.0)),
        # largest component of the gradient
        (1, [8.0], [-4.0], "gradient_tolerance", 8.0, (4.0, 8.0 - 2**-20, 8.0, 8.0 + 2**-20, 16.0)),
        (2, [2.0, -8.0], [-1.0, 4.0], "gradient_tolerance", 8.0, (2.0, 8.0 - 2**-20, 8.0, 8.0 + 2**-20, 8.5, 10.0)),
        # Relative to a cost of zero, changes are infinite or undefined
        *[(1, [0.0], [step], "cost_tolerance", np.inf, (0.75, 4.0, 1e6)) for step in (2.0, 2.0**-20, 0.0)],
        # |step| = (|x| + 0.5) 0.5
        *[(1, [8.0], [-length], "parameter_tolerance", length, (0.5,)) for length in (4.0, 4.25 - 2**-20, 4.25, 4.25 + 2**-20, 4.5)],
        *[(2, [6.0, 8.0], [-0.6 * length, -0.8 * length], "parameter_tolerance", length, (0.5,)) for length in (5.0, 5.5)],
    ]
    for dim, start, step, name, value, tolerances in menus:
        variable = v if dim == 1 else u
        initial = lab.make_assignments({variable: np.array(start)})
        for tolerance, first in itertools.product(tolerances, (0, 1) if name == "gradient_tolerance" else (0,)):
            case = dict(solver=kind, start=start, step=step, criterion=name, tolerance=tolerance, start_step=first)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                s = dict(machines.DEFAULTS[kind], gradient_tolerance_start_step=first, **{name: tolerance})
                if kind == "dl":
                    s["radius_initial"] = 64.0
                if name == "parameter_tolerance":
                    stop = value < (np.linalg.norm(start) + tolerance) * tolerance
                else:
                    stop = value < tolerance and first == 0
                if step == [0.0] and kind != "gn":
                    continue  # Steps that change nothing are not taken, and cannot end the run
                # A second step, of a sixteenth
                second = [-x / 16 if x else 0.5 for x in start]
                solver = machines.make_solver(kind, Answers(steps=np.array([step, second])), 2 if first == 0 else 1, s)
                got = np.asarray(graphs[dim].solve(initial, solver).get_value(variable))
                once = np.add(start, step)
                expected = once if stop or first else once + second
                ctx.transition(1 if stop or first else 2)
                ctx.trace()
                ctx.state((kind, tuple(start), tuple(step), name, tolerance, first))
                ctx.outcome((kind, got.tolist()))
                ctx.count("ties" if value == tolerance or value == 4.25 else "others")
                ctx.check(np.max(np.abs(got - expected)) < 1e-9, f"ends at {got.tolist()} instead of {expected.tolist()}")
    ctx.sample(case)


# Residuals (x / e, [x < e (1 - d)] 4): steps that go beyond e d are refused


@jdc.pytree_dataclass
class Cliff(jaxfg.core.FactorBase):
    scale: Any
    edge: Any

    def compute_residual_vector(self, variable_values: Tuple[object]):
        (x,) = variable_values
        return jnp.concatenate([x, jnp.where(x < self.edge, 4.0 * self.scale, 0.0)])

    compute_residual_vector.__override__ = True


@jdc.pytree_dataclass
class Damped(jaxfg.sparse.LinearSubproblemSolverBase):
    """Exact answers for the problem above."""

    def solve_subproblem(self, A, ATb, lambd, iteration):
        return ATb / (1.0 + lambd)

    solve_subproblem.__override__ = True


LENGTHS = (1, 2, 3, 5, 8, 13, 21, 34, 45, 60)
RADII = (2.0**4, 2.0**-4, 2.0**-20)
DAMPING = {
    "initial": (1e-9, 5e-4, 3.0, 1e6),
    "factor": (1.1, 1.5, 2.0, 10.0, 1e3),
    "bounds": ((1e-5, 1e10), (1e-12, 50.0), (0.01, 1e30)),
}


def ladder(ctx, kind, lengths=LENGTHS):
    """Long runs of growing and shrinking trust regions, at all scales.

    Every step of the run either reaches the cliff and is refused, or lowers the cost as
    predicted."""
    v = lab.var("R1", 0)
    if kind == "dl":
        menu = [dict(radius=r) for r in RADII]
    else:
        menu = [dict(initial=i, factor=f, bounds=b) for i in DAMPING["initial"] for f in DAMPING["factor"] for b in DAMPING["bounds"]]
    scales = [2.0**p for p in ((-60, -30, -10, 0, 10, 30, 60) if kind == "dl" else (-30, 0, 30))]
    for scale, drop, option in itertools.product(scales, (0.0, 0.7 * 2.0**-8, 0.7 * 2.0**-28, 2.0), menu):
        case = dict(solver=kind, scale=scale, cliff=drop, **option)
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            edge = 1.0 - drop if drop else -np.inf
            factor = Cliff(
                variables=(v,),
                noise_model=jaxfg.noises.DiagonalGaussian(np.ones(2)),
                scale=np.array([scale]),
                edge=np.array([scale * edge]),
            )
            graph = jaxfg.core.StackedFactorGraph.make([factor])
            initial = lab.make_assignments({v: np.array([scale])})
            s = dict(machines.DEFAULTS[kind])
            if kind == "dl":
                s["radius_initial"] = option["radius"] * scale
                extra = option["radius"]
            else:
                extra = option["initial"]
                low, high = option["bounds"]
                s.update(lambda_initial=extra, lambda_factor=option["factor"], lambda_min=low, lambda_max=high)
            x, taken, refused = 1.0, 0, 0
            for n in range(1, max(lengths) + 1):
                step = min(x, extra) if kind == "dl" else x / (1.0 + extra)
                if abs(x - step - edge) < 1e-9 or step < 1e-10 or x < 1e-3:
                    break  # Rounding decides
                if x - step > edge:
                    x -= step
                    taken += 1
                    extra = max(extra, 3.0 * step) if kind == "dl" else extra / option["factor"]
                else:
                    refused += 1
                    extra = extra / 2.0 if kind == "dl" else max(low, min(extra * option["factor"], high))
                if n not in lengths:
                    continue
                got = float(graph.solve(initial, machines.make_solver(kind, Damped(), n, s)).get_value(v)[0]) / scale
                ctx.transition()
                ctx.state((kind, scale, drop, tuple(map(str, option.values())), n))
                ctx.outcome((kind, f"{got:.9f}"))
                ctx.check(
                    abs(got - x) <= 1e-13 + 1e-6 * (1.0 - x),
                    f"after {taken} taken and {refused} refused steps, the estimate is {got} instead of {x} times the scale",
                )
            ctx.trace()
            ctx.count("taken", taken)
            ctx.count("refused", refused)
    ctx.sample(case)
