"""C11: optimization stops exactly when a documented criterion is met."""

import itertools

PROBLEMS = {"atan": (0, 2), "bend": (0, 2), "pose": (0,), "range": (2, 0), "rosen": (0,), "cubic": (1,)}
SCRIPTS = {
    "exact": (),
    "half": (0.5,) * 40,
    "refused first": (0.0, 0.0) + (0.6,) * 40,
    "failed later": (0.5, 0.5, float("nan"), 0.0, 0.5, float("nan")) + (0.5,) * 40,
}
QUICK = dict(
    cost_tolerance=(0.0, 1e-3, 0.3),
    gradient_tolerance=(0.0, 1e-2, 0.3),
    gradient_tolerance_start_step=(0, 3),
    parameter_tolerance=(0.0, 1e-3, 0.1),
    max_iterations=(0, 1, 2, 5, 25),
)
THOROUGH = dict(
    cost_tolerance=(0.0, 1e-5, 1e-3, 0.05, 0.3, 0.7),
    gradient_tolerance=(0.0, 1e-3, 1e-2, 0.1, 0.5),
    gradient_tolerance_start_step=(0, 1, 3, 7),
    parameter_tolerance=(0.0, 1e-4, 1e-2, 0.1, 0.4),
    max_iterations=(0, 1, 2, 3, 4, 5, 8, 25),
)
DEFAULTS = dict(
    max_iterations=100, cost_tolerance=1e-5, gradient_tolerance=1e-9, gradient_tolerance_start_step=10, parameter_tolerance=1e-7
)
# What is left at its default, and what decides with it
LEFT = [
    (("max_iterations",), dict(gradient_tolerance_start_step=0)),
    (("cost_tolerance",), dict(max_iterations=60)),
    (("gradient_tolerance",), dict(max_iterations=60, gradient_tolerance_start_step=0)),
    (("gradient_tolerance_start_step",), dict(max_iterations=60, gradient_tolerance=1e9)),
    (("parameter_tolerance",), dict(max_iterations=60)),
    (tuple(DEFAULTS), {}),
]
LIMITS = (127, 128, 255, 256, 1000, 32767, 32768, 40000, 65536, 10**6, 2**24 + 1, 2**31 - 1)
EXTRA = {
    "gn": [{}],
    "lm": [{}, dict(step_quality_min=0.8, lambda_initial=0.05), dict(lambda_initial=0.5, lambda_min=0.4, lambda_max=0.7)],
    "dl": [{}, dict(radius_initial=0.3, step_quality_min=0.8), dict(radius_initial=0.01)],
}
BOUNDS = {
    "quick": "all combinations of 3 cost tolerances, 3 gradient tolerances, 2 start steps, 3 parameter tolerances and "
    "5 iteration limits, for 3 solvers with 1-3 settings (damping at its bounds, tiny trust regions), 4 answer patterns and 8 problem/start pairs; 12 limits from 127 to 2147483647 that are not reached; 30 combinations of steps and tolerances in exact arithmetic, ties included; each setting and all settings left at their defaults x 3 answer patterns",
    "thorough": "all combinations of 6 x 5 x 4 x 5 tolerances and start steps and 8 iteration limits",
}
ASSUMPTIONS = ["float64; criteria within 1e-6 of their tolerance may go either way"]


def tasks(tier):
    out = []
    for name, starts in PROBLEMS.items():
        for start in starts:
            for kind in ("gn", "lm", "dl"):
                for script in SCRIPTS:
                    if kind == "gn" and script == "failed later":
                        continue
                    out.append(dict(config=dict(x64=True), problem=name, start=start, kind=kind, script=script))
    out += [dict(config=dict(x64=True), part="defaults", problem=name, kind=kind) for name in PROBLEMS if name != "cubic" for kind in ("gn", "lm", "dl")]
    return out + [dict(config=dict(x64=True), ties=kind) for kind in ("gn", "lm", "dl")]


def run(task, ctx):
    import os

    from .. import machines, ties

    if "ties" in task:
        return ties.stopping(ctx, task["ties"])
    if "part" in task:
        return defaults(ctx, machines, task)
    menu = THOROUGH if os.environ.get("VERIF_TIER") == "thorough" else QUICK
    problem = machines.problem(task["problem"])
    kind = task["kind"]
    problem.damped = kind == "lm"
    script = SCRIPTS[task["script"]]
    start = problem.pack(problem.starts[task["start"]])
    initial = problem.assignments(start)
    linear = machines.scripted(script)
    answers = list(script) + [1.0] * 100
    combos = list(itertools.product(*menu.values()))
    # Limits that are never reached
    large = [(1e-3, 0.0, 0, 0.0, limit) for limit in LIMITS] + [(0.0, 0.0, 0, 1e-3, limit) for limit in LIMITS]
    for change in EXTRA[kind]:
        # At an exact optimum rounding decides whether another step is accepted, so large limits need settings that stop before
        for combo in combos + (large if change in EXTRA[kind][:2] else []):
            s = dict(machines.DEFAULTS[kind], **change, **dict(zip(menu, combo)))
            limit = s.pop("max_iterations")
            case = dict(problem=problem.name, solver=kind, script=task["script"], start=start.tolist(),
                        settings=change, **dict(zip(menu, combo)))
            if ctx.wanted(case):
                with ctx.case(case):
                    check(ctx, machines, problem, kind, start, initial, linear, answers, s, limit)
    ctx.sample(case)


def defaults(ctx, machines, task):
    """Settings that are not given have their documented defaults."""
    import jaxfg

    kind = task["kind"]
    problem = machines.problem(task["problem"])
    problem.damped = kind == "lm"
    made = dict(
        gn=jaxfg.solvers.GaussNewtonSolver, lm=jaxfg.solvers.LevenbergMarquardtSolver, dl=jaxfg.solvers.DoglegSolver
    )[kind]
    for k in PROBLEMS[task["problem"]]:
        start = problem.pack(problem.starts[k])
        for (left, given), (pattern, answer) in itertools.product(LEFT, (("slow", 0.05), ("half", 0.5), ("exact", 1.0))):
            case = dict(problem=problem.name, solver=kind, left=left, answers=pattern, start=start.tolist())
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                script = (answer,) * (0 if pattern == "exact" else 120)
                given_all = dict({n: v for n, v in machines.NO_TOLERANCE.items() if n not in left}, **given)
                s = dict(machines.DEFAULTS[kind], **{n: DEFAULTS[n] for n in left if n != "max_iterations"}) | {
                    n: v for n, v in given_all.items() if n != "max_iterations"
                }
                solver = made(verbose=False, linear_solver=machines.scripted(script, 128), **given_all)
                check(ctx, machines, problem, kind, start, problem.assignments(start), None,
                      list(script) + [1.0] * 120, s, given_all.get("max_iterations", 100), solver)
    ctx.sample(case)


def check(ctx, machines, problem, kind, start, initial, linear, answers, s, limit, solver=None):
    import numpy as np

    belief = [machines.initial_state(kind, start, s)]
    steps = 0
    for i in range(limit):
        if all(b.done for b in belief):
            break
        if limit > 100 and i == 25:  # Rounding may be amplified in longer runs
            return ctx.count("skipped_long")
        belief = machines.merge(
            t
            for b in belief
            for t in ([b] if b.done else machines.STEP[kind](problem, b, answers[i], s))
        )
        steps += 1
        if len(belief) > 40:  # Steps at an optimum, whose quality is rounding
            return ctx.count("skipped_ambiguous")
    observed = problem.observe(solver or machines.make_solver(kind, linear, limit, s), initial)
    ctx.transition(steps)
    ctx.trace()
    for b in belief[:4]:
        ctx.state((problem.name, kind, np.round(b.flat, 7).tolist(), b.iterations, b.done))
    ctx.outcome((kind, np.round(observed, 7).tolist()))
    ctx.count("stopped_early" if all(b.done and b.iterations < limit for b in belief) else "ran_to_limit")
    if len(belief) > 1:
        ctx.count("ambiguous")
    ctx.check(
        bool(machines.matching(problem, belief, observed, tol=2e-9 if problem.name != "pose" else 2e-8)),
        lambda: f"stopped at {observed.tolist()}, expected to stop after "
        f"{sorted({b.iterations for b in belief})} iterations at {[b.flat.tolist() for b in belief[:3]]}",
    )
