"""C10: Gauss-Newton variants take exact undamped steps."""

import itertools

ANSWERS = (1.0, 0.5, 1.4, 0.0)
PROBLEMS = {"atan": 4, "rosen": 4, "range": 3, "bend": 3, "exp": 4, "pose": 2}
LIMITS = (8, 10, 16, 20, 25, 32, 40, 50, 64, 99, 100, 150)
UNROLLED = (9, 10, 11, 17, 25, 40)
BOUNDS = {
    "quick": "Gauss-Newton: all answer sequences of length <= 4 over 4 linear-solver answers for 6 problems and all "
    "their starting points; fixed iterations: 0..3 iterations, both loop forms, all answer sequences of that length "
    "over 3 answers; agreement of both solvers with CHOLMOD and CG for 0..3 iterations; runs of up to 150 iterations (unrolled: 40), observed at 12 limits",
    "thorough": "as quick, with sequences of length <= 6, and 0..6 fixed iterations",
}
ASSUMPTIONS = ["float64; systems with a condition number below 1e6"]


def tasks(tier):
    quick = tier == "quick"
    out = []
    for name, count in PROBLEMS.items():
        for start in range(count):
            out.append(dict(config=dict(x64=True), part="gn", problem=name, start=start, depth=4 if quick else 6))
        for unroll in (True, False):
            counts = range(4 if quick else 7)
            if quick and name in ("atan", "exp"):
                counts = (0, 1, 2)
            for n in counts:
                out.append(dict(config=dict(x64=True), part="fixed", problem=name, unroll=unroll, iterations=n))
    for name in ("range", "pose") if quick else PROBLEMS:
        for linear in ("cholmod", "cg"):
            out.append(dict(config=dict(x64=True), part="agree", problem=name, linear=linear,
                            counts=[0, 1, 3] if quick else [0, 1, 2, 3, 5, 8]))
    for name in ("atan", "range"):
        limits = LIMITS if quick else range(151)
        out.append(dict(config=dict(x64=True), part="long", problem=name, kind="gn", limits=limits))
        out += [dict(config=dict(x64=True), part="long", problem=name, kind="fixed", limits=c) for c in (LIMITS[::2], LIMITS[1::2])]
    for n in UNROLLED if quick else range(8, 101, 4):
        out.append(dict(config=dict(x64=True), part="long", problem="atan", kind="unrolled", limits=[n]))
    return out


def long(task, ctx, problem, machines):
    machines.long_run(ctx, problem, task["kind"], task["limits"])


def run(task, ctx):
    from .. import machines

    globals()[task["part"]](task, ctx, machines.problem(task["problem"]), machines)


def gn(task, ctx, problem, machines):
    start = problem.pack(problem.starts[task["start"]])
    machines.explore_answers(ctx, problem, "gn", start, machines.GN_DEFAULTS, ANSWERS, task["depth"])
    ctx.sample(dict(problem=problem.name, start=start.tolist(), answers=ANSWERS))


def fixed(task, ctx, problem, machines):
    import numpy as np

    import jaxfg

    n = task["iterations"]
    problem.damped = False
    for start in problem.starts:
        flat = problem.pack(start)
        for k, order in enumerate((problem.variables, problem.variables[::-1])):
            if k and (len(problem.variables) < 2 or n > 2):
                continue
            initial = problem.assignments(flat, order)
            for script in itertools.product(ANSWERS[:3], repeat=n):
                case = dict(problem=problem.name, start=flat.tolist(), iterations=n, unroll=task["unroll"],
                            script=script, reversed_order=k)
                if not ctx.wanted(case):
                    continue
                with ctx.case(case):
                    state = machines.initial_state("gn", flat, {})
                    judgeable = True
                    for answer in script:
                        judgeable = judgeable and machines.judgeable(problem, state)
                        (state,) = machines.gauss_newton(problem, state, answer, machines.NO_TOLERANCE)
                    solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(
                        verbose=False, linear_solver=machines.scripted(script), unroll=task["unroll"], iterations=n
                    )
                    result = problem.graph.solve(initial, solver)
                    observed = problem.pack(machines.lab.read_assignments(result, problem.variables))
                    ctx.transition(n)
                    ctx.trace()
                    ctx.check(list(result.get_variables()) == list(initial.get_variables()),
                              "solution is not in the order of the initial assignments")
                    ctx.state((problem.name, n, np.round(observed, 7).tolist()))
                    ctx.outcome(np.round(observed, 6).tolist())
                    if judgeable:
                        ctx.check(
                            bool(machines.matching(problem, [state], observed)),
                            lambda: f"estimate {observed.tolist()} instead of {state.flat.tolist()}",
                        )
                    else:
                        ctx.count("pruned_ill_conditioned")


def agree(task, ctx, problem, machines):
    """Both solvers visit the same estimates with the library's own linear solvers."""
    import numpy as np

    import jaxfg

    linear = {"cholmod": jaxfg.sparse.CholmodSolver, "cg": jaxfg.sparse.ConjugateGradientSolver}[task["linear"]]()
    for n in task["counts"]:
        for unroll in (True, False):
            for start in problem.starts:
                flat = problem.pack(start)
                initial = problem.assignments(flat)
                with ctx.case(dict(problem=problem.name, linear=task["linear"], start=flat.tolist(),
                                   iterations=n, unroll=unroll)):
                    a = problem.observe(machines.make_solver("gn", linear, n, machines.NO_TOLERANCE), initial)
                    b = problem.observe(
                        jaxfg.solvers.FixedIterationGaussNewtonSolver(
                            verbose=False, linear_solver=linear, unroll=unroll, iterations=n
                        ),
                        initial,
                    )
                    ctx.transition(2 * n)
                    ctx.trace()
                    ctx.state((problem.name, task["linear"], n, flat.tolist()))
                    scale = 1.0 + np.max(np.abs(a))
                    ctx.check(
                        problem.distance(a, b) < 1e-7 * scale,
                        lambda: f"{n} iterations give {b.tolist()}, Gauss-Newton gives {a.tolist()}",
                    )
