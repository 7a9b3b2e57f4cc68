"""C09: dogleg follows its trust-region state machine."""

from . import c08

SETTINGS = [
    dict(radius_initial=1.0),
    dict(radius_initial=0.1),
    dict(radius_initial=0.5, step_quality_min=0.3),
    dict(radius_initial=3.0, step_quality_min=0.8),
    dict(radius_initial=20.0),
    dict(radius_initial=0.02, step_quality_min=0.0),
]
BOUNDS = c08.BOUNDS
ASSUMPTIONS = [
    "answers are multiples in [0, 2) of the exact Gauss-Newton step, or NaN",
    "the radius is observed through the next step, which depends on it",
    "float64; decisions within 1e-6 of their threshold may go either way",
]


def tasks(tier):
    return c08.tasks(tier)


def run(task, ctx):
    from .. import machines, ties

    if "ties" in task:
        return ties.quality(ctx, "dl")
    if "ladder" in task:
        return ties.ladder(ctx, "dl")
    if "long" in task:
        return machines.long_run(ctx, machines.problem(task["long"]), "dl", task["limits"])
    problem = machines.problem(task["problem"])
    start = problem.pack(problem.starts[task["start"]])
    for change in SETTINGS:
        settings = dict(machines.DEFAULTS["dl"], **change)
        machines.explore_answers(ctx, problem, "dl", start, settings, c08.ANSWERS, task["wide"])
        machines.explore_answers(ctx, problem, "dl", start, settings, (1.0, 0.7), task["deep"])
    ctx.sample(dict(problem=task["problem"], start=start.tolist(), settings=SETTINGS[-1]))
