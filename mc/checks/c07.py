"""C07: trust-region solvers never make the cost worse."""

ANSWERS = (1.0, 0.4, 1.95, 1e-9, float("nan"))
PROBLEMS = {"atan": 4, "rosen": 4, "range": 3, "bend": 3, "exp": 4, "cubic": 4, "pose": 2, "outlier": 2}
SETTINGS = {
    "lm": [
        {},
        dict(lambda_initial=100.0, lambda_factor=10.0),
        dict(lambda_initial=0.0, lambda_min=0.0, lambda_max=0.0),
        dict(step_quality_min=0.0, lambda_initial=0.05),
        dict(step_quality_min=0.95, lambda_initial=0.01, lambda_factor=1.5),
    ],
    "dl": [
        {},
        dict(radius_initial=0.05),
        dict(radius_initial=100.0),
        dict(radius_initial=0.7, step_quality_min=0.0),
        dict(radius_initial=2.0, step_quality_min=0.95),
    ],
}
BOUNDS = {
    "quick": "all answer sequences of length <= 3 over 5 linear-solver answers for 8 problems, all their starting "
    "points, both solvers and 5 settings each; iteration limits 0..12 with the three linear solvers of the "
    "library, float64 and float32",
    "thorough": "as quick, with answer sequences of length <= 5 and iteration limits 0..40",
}
ASSUMPTIONS = [
    "answers are multiples in (0, 2) of the exact step, or NaN",
    "cost recomputed by the reference; slack 1e-9 (float64), 1e-4 (float32) relative",
]


def tasks(tier):
    quick = tier == "quick"
    out = []
    for name, count in PROBLEMS.items():
        for kind in ("lm", "dl"):
            for start in range(count):
                out.append(dict(config=dict(x64=True), kind=kind, problem=name, start=start,
                                depth=3 if quick else 5))
            for linear in ("cholmod", "cg", "inexact"):
                if linear == "inexact" and quick and name not in ("range", "outlier"):
                    continue
                for x64 in (True, False):
                    if linear == "cg" and quick and not x64:
                        continue
                    out.append(dict(config=dict(x64=x64), kind=kind, problem=name, linear=linear,
                                    limit=12 if quick else 40))
    return out


def run(task, ctx):
    from .. import machines

    problem = machines.problem(task["problem"])
    for change in SETTINGS[task["kind"]]:
        settings = dict(machines.DEFAULTS[task["kind"]], **change)
        if "linear" in task:
            sweep(task, ctx, problem, settings, change)
        else:
            tree(task, ctx, problem, settings, change)


def not_worse(ctx, before, after, what):
    from .. import lab

    slack = (1e-9 if lab.X64 else 1e-4) * (before + (0.0 if lab.X64 else 0.1)) + 1e-14
    ctx.check(after <= before + slack, lambda: f"cost went from {before!r} to {after!r} {what}")


def tree(task, ctx, problem, settings, change):
    import numpy as np

    from .. import machines

    start = problem.pack(problem.starts[task["start"]])
    initial = problem.assignments(start)
    kind = task["kind"]

    def visit(script, cost):
        with ctx.case(dict(problem=problem.name, solver=kind, start=start.tolist(), settings=change,
                           script=list(script))):
            solver = machines.make_solver(kind, machines.scripted(script), len(script), settings)
            observed = problem.observe(solver, initial)
            ctx.transition()
            new_cost = problem.cost(observed)
            ctx.check(np.isfinite(new_cost), f"estimate {observed.tolist()} has no finite cost")
            not_worse(ctx, cost, new_cost, f"with answers {list(script)}")
            ctx.state((problem.name, kind, np.round(observed, 7).tolist()))
            ctx.outcome(round(new_cost, 8))
            ctx.count("same" if new_cost == cost else "lower")
            if len(script) == task["depth"]:
                ctx.trace()
                return
            for answer in ANSWERS:
                visit(script + (answer,), new_cost)

    visit((), problem.cost(start))
    ctx.sample(dict(problem=problem.name, solver=kind, start=start.tolist()))


def sweep(task, ctx, problem, settings, change):
    import numpy as np

    import jaxfg

    from .. import machines

    linear = {
        "cholmod": jaxfg.sparse.CholmodSolver,
        "cg": jaxfg.sparse.ConjugateGradientSolver,
        "inexact": jaxfg.sparse.InexactStepConjugateGradientSolver,
    }[task["linear"]]()
    for start in problem.starts:
        start = problem.pack(start)
        initial = problem.assignments(start)
        start = problem.pack(problem.unpack(np.asarray(start)))
        cost = None
        for k in range(task["limit"] + 1):
            with ctx.case(dict(problem=problem.name, solver=task["kind"], linear=task["linear"],
                               start=start.tolist(), settings=change, max_iterations=k)):
                solver = machines.make_solver(task["kind"], linear, k, settings)
                observed = problem.observe(solver, initial)
                ctx.transition()
                new_cost = problem.cost(observed)
                ctx.check(np.isfinite(new_cost), f"estimate {observed.tolist()} has no finite cost")
                if cost is not None:
                    not_worse(ctx, cost, new_cost, f"when raising max_iterations to {k}")
                ctx.state((problem.name, task["kind"], task["linear"], np.round(observed, 7).tolist()))
                cost = new_cost
        ctx.trace()
