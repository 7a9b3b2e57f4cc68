"""C08: Levenberg-Marquardt follows its damping state machine."""

import itertools

ANSWERS = (1.0, 0.5, 1.9, 0.0, float("nan"))
SETTINGS = [
    {},
    dict(lambda_initial=1.0, lambda_factor=10.0),
    dict(lambda_initial=0.3, lambda_min=0.1, lambda_max=1.0, lambda_factor=3.0),
    dict(lambda_initial=0.0, lambda_min=0.5),
    dict(step_quality_min=0.3, lambda_initial=0.05),
    dict(step_quality_min=0.9, lambda_initial=0.2, lambda_factor=4.0),
]
PROBLEMS = {"atan": 4, "rosen": 4, "range": 3, "bend": 3, "exp": 4, "cubic": 4, "pose": 2}
BOUNDS = {
    "quick": "all answer sequences of length <= 4 over 5 linear-solver answers (exact, short, long, zero, NaN) "
    "and <= 7 over 2, for 7 problems, all their starting points and 6 settings; 8 step qualities x 8 minimum qualities in exact arithmetic, ties included; "
    "runs of up to 60 accepted and refused steps observed at 10 limits, with 3 scales, 4 initial dampings, 5 factors and 3 pairs of bounds (dogleg: 7 scales, 3 radii); "
    "two runs of 150 iterations, observed at 12 limits",
    "thorough": "all answer sequences of length <= 5 over 5 answers and <= 11 over 2",
}
ASSUMPTIONS = [
    "answers are multiples in [0, 2) of the exact damped step, or NaN",
    "the damping is observed through the next answer, which depends on it",
    "float64; decisions within 1e-6 of their threshold may go either way",
]
SOLVER = "lm"
LIMITS = (8, 10, 16, 20, 25, 32, 40, 50, 64, 99, 100, 150)


def tasks(tier):
    out = []
    for name, count in PROBLEMS.items():
        for start in range(count):
            out.append(
                dict(config=dict(x64=True), problem=name, start=start,
                     wide=4 if tier == "quick" else 5, deep=7 if tier == "quick" else 11)
            )
    out.append(dict(config=dict(x64=True), ties=True))
    out.append(dict(config=dict(x64=True), ladder=True))
    out += [dict(config=dict(x64=True), long=name, limits=LIMITS if tier == "quick" else range(151)) for name in ("atan", "range")]
    return out


def run(task, ctx):
    from .. import machines, ties

    if "ties" in task:
        return ties.quality(ctx, SOLVER)
    if "ladder" in task:
        return ties.ladder(ctx, SOLVER)
    if "long" in task:
        return machines.long_run(ctx, machines.problem(task["long"]), SOLVER, task["limits"])
    problem = machines.problem(task["problem"])
    start = problem.pack(problem.starts[task["start"]])
    for change in SETTINGS:
        settings = dict(machines.DEFAULTS[SOLVER], **change)
        machines.explore_answers(ctx, problem, SOLVER, start, settings, ANSWERS, task["wide"])
        machines.explore_answers(ctx, problem, SOLVER, start, settings, (1.0, 1.9), task["deep"])
    ctx.sample(dict(problem=task["problem"], start=start.tolist(), settings=SETTINGS[-1]))
