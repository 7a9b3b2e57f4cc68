"""C25: progress reports describe the optimization, and do not influence it."""

import itertools
import re

NAN = float("nan")
ANSWERS = (1.0, 0.4, 1.95, NAN)
PROBLEMS = {"atan": 4, "rosen": 4, "range": 3, "bend": 3, "exp": 4, "cubic": 4, "pose": 2, "outlier": 2}
SETTINGS = {
    "gn": [{}],
    "lm": [{}, dict(lambda_initial=100.0, lambda_factor=10.0)],
    "dl": [{}, dict(radius_initial=0.05)],
}
TOLERANCES = [
    dict(cost_tolerance=1e-2),
    dict(gradient_tolerance=1e-2, gradient_tolerance_start_step=2),
    dict(parameter_tolerance=1e-2),
]
LONG = (11, 22, 33, 51, 101)
FORMS = ("plain", "nested", "again")
BOUNDS = {
    "quick": "all answer sequences of length <= 2 over 4 linear-solver answers, for 8 problems, one starting point each, three "
    "solvers and up to two settings; iteration limits 0..8 with the library's default linear solver, without and with three "
    "tolerances, from every starting point; the fixed solver with 0..4 iterations, unrolled or not; called directly, "
    "within a compiled function, and twice; single precision for all limits; runs of 11, 22, 33, 51 and 101 iterations (unrolled: 33)",
    "thorough": "as quick, with answer sequences of length <= 4 and iteration limits 0..25",
}
ASSUMPTIONS = [
    "a report is a line of text that holds the numbers; wording, punctuation and additional numbers are free",
    "numbers agree to 1e-4 relative (1e-2 in single precision); a stop that rounding decides may be reported either way",
]


def tasks(tier):
    quick = tier == "quick"
    out = []
    for name, count in PROBLEMS.items():
        for kind in ("gn", "lm", "dl"):
            out.append(dict(part="tree", config=dict(x64=True), kind=kind, problem=name, start=hash_of(name, kind) % count,
                            depth=2 if quick else 4))
            for x64 in (True, False):
                out.append(dict(part="limits", config=dict(x64=x64), kind=kind, problem=name, limit=8 if quick else 25))
        if name in ("atan", "range"):
            out += [dict(part="long", config=dict(x64=True), problem=name, kind=k, counts=LONG if quick else range(8, 151, 7))
                    for k in ("gn", "lm", "dl", "fixed", "unrolled")]
        out.append(dict(part="fixed", config=dict(x64=True), problem=name, limit=4 if quick else 8))
    return out


def hash_of(*words):
    return sum(map(ord, "".join(words)))


NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|\bnan\b|[-+]?\binf\b", re.I)


def numbers(line):
    return [float(x) for x in NUMBER.findall(line)]


def capture(function):
    """What a call returns, and the lines that it printed."""
    import contextlib
    import io

    import jax

    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        result = function()
        result = jax.block_until_ready(result)
        jax.effects_barrier()
        try:
            from jax.experimental import host_callback

            host_callback.barrier_wait()
        except ImportError:
            pass
    return result, [line for line in sink.getvalue().splitlines() if line.strip()]


def run(task, ctx):
    from .. import machines

    problem = machines.problem(task["problem"])
    {"tree": tree, "limits": limits, "fixed": fixed, "long": long}[task["part"]](task, ctx, problem)


def holds(line, value):
    import numpy as np

    from .. import lab

    tol = 1e-4 if lab.X64 else 1e-2
    for x in numbers(line):
        if x == value or (np.isnan(x) and np.isnan(value)):
            return True
        # Costs near zero are rounding noise
        if abs(x - value) <= tol * abs(value) + (1e-12 if lab.X64 else 1e-4):
            return True
    return False


def judge(ctx, lines, runs):
    """`runs`: the possible courses, each a list of (cost, extra) per estimate. Lines must tell one of them."""
    complaints = []
    for course in runs:
        n = len(course) - 1
        if len(lines) != n + 1:
            complaints.append(f"{len(lines)} lines instead of {n + 1}")
            continue
        for k, (cost, extra) in enumerate(course):
            if k not in numbers(lines[k]):
                complaints.append(f"line {k} does not hold the number {k}")
            elif not holds(lines[k], cost):
                complaints.append(f"line {k} does not hold the cost {cost}")
            elif k < n and extra is not None and not holds(lines[k], extra):
                complaints.append(f"line {k} does not hold {extra}")
            else:
                continue
            break
        else:
            return
    ctx.fail(f"{complaints[:3]}: {lines}")


def observe(ctx, problem, initial, solver, form):
    """Solves silently and with reports. Returns the quiet estimate and the lines."""
    import jax
    import jax_dataclasses as jdc
    import numpy as np

    from .. import lab

    def call(s):
        solve = lambda: problem.graph.solve(initial, s)
        if form == "nested":
            return jax.jit(lambda graph, start: graph.solve(start, s))(problem.graph, initial)
        if form == "again":
            jax.block_until_ready(solve())
        return solve()

    quiet, nothing = capture(lambda: call(jdc.replace(solver, verbose=False)))
    ctx.check(not nothing, lambda: f"printed {nothing} with verbose=False")
    told, lines = capture(lambda: call(jdc.replace(solver, verbose=True)))
    ctx.transition(2)
    a = problem.pack(lab.read_assignments(quiet, problem.variables))
    b = problem.pack(lab.read_assignments(told, problem.variables))
    scale = 1.0 + (np.max(np.abs(a)) if np.all(np.isfinite(a)) else 0.0)
    ctx.check(
        problem.distance(a, b) <= (1e-6 if lab.X64 else 2e-2) * scale,
        lambda: f"{b.tolist()} with reports, {a.tolist()} without",
    )
    if form == "again":
        ctx.check(len(lines) % 2 == 0, lambda: f"two solves printed {lines}")
        half = len(lines) // 2
        ctx.check(lines[:half] == lines[half:], lambda: f"the same solve printed differently: {lines}")
        lines = lines[half:]
    return a, lines


def courses(problem, kind, start, limit, script, settings):
    """The possible runs of the reference machine, as lists of states."""
    from .. import machines

    paths = [[machines.initial_state(kind, start, settings)]]
    finished = []
    for i in range(limit):
        longer = []
        for path in paths:
            scale = script[i] if i < len(script) else 1.0
            for state in machines.STEP[kind](problem, path[-1], scale, settings):
                (finished if state.done else longer).append(path + [state])
        paths = longer
        if len(paths) + len(finished) > 64:
            return None
    return finished + paths


def tell(problem, kind, path):
    return [(problem.cost(s.flat), None if kind == "gn" else s.extra) for s in path]


def tree(task, ctx, problem):
    from .. import machines

    kind = task["kind"]
    start = problem.pack(problem.starts[task["start"]])
    initial = problem.assignments(start)
    for change in SETTINGS[kind]:
        settings = dict(machines.DEFAULTS[kind], **change)
        for n in range(task["depth"] + 1):
            for script in itertools.product(ANSWERS, repeat=n):
                case = dict(problem=problem.name, solver=kind, settings=change, script=[str(a) for a in script])
                if not ctx.wanted(case):
                    continue
                with ctx.case(case):
                    solver = machines.make_solver(kind, machines.scripted(script), n, settings)
                    estimate, lines = observe(ctx, problem, initial, solver, "plain")
                    runs = courses(problem, kind, start, n, script, settings)
                    if runs is None:
                        ctx.count("skipped_ambiguous")
                        continue
                    judge(ctx, lines, [tell(problem, kind, path) for path in runs])
                    ctx.state((problem.name, kind, str(change), n, script))
                    ctx.trace()
                    ctx.outcome([round(x, 6) for l in lines for x in numbers(l)])
    ctx.sample(dict(problem=problem.name, solver=kind, lines=lines))


def long(task, ctx, problem):
    """Many iterations, with short steps."""
    import jaxfg

    from .. import machines

    kind = task["kind"]
    machine = kind if kind in machines.STEP else "gn"
    settings = dict(machines.DEFAULTS[machine], **(dict(radius_initial=0.04) if machine == "dl" else {}))
    start = problem.pack(problem.starts[-1])
    script = [(0.05, 0.08, 0.03, 0.06)[i % 4] for i in range(160)]
    linear = machines.scripted(script, length=160)
    for n in task["counts"]:
        if kind == "unrolled" and n > 33:
            continue
        with ctx.case(dict(problem=problem.name, solver=kind, iterations=n)):
            if kind == machine:
                solver = machines.make_solver(kind, linear, n, settings)
            else:
                solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(linear_solver=linear, unroll=kind == "unrolled", iterations=n)
            estimate, lines = observe(ctx, problem, problem.assignments(start), solver, "plain")
            runs = courses(problem, machine, start, n, script, settings)
            if runs is None:
                ctx.count("skipped_ambiguous")
                continue
            judge(ctx, lines, [tell(problem, machine, path) for path in runs])
            ctx.state((problem.name, kind, n))
            ctx.trace()
            ctx.outcome((n, [round(x, 5) for x in numbers(lines[-1])]))


def limits(task, ctx, problem):
    import jaxfg

    from .. import lab, machines

    kind = task["kind"]
    for s, start in enumerate(problem.starts):
        start = problem.pack(start)
        initial = problem.assignments(start)
        for t, change in enumerate([{}] + TOLERANCES):
            settings = dict(machines.DEFAULTS[kind], **change)
            estimates, stop = [], None
            for k in range(task["limit"] + 1):
                form = FORMS[k % 3] if t == 0 and s == 0 and k < 3 else "plain"
                case = dict(problem=problem.name, solver=kind, start=s, settings=change, max_iterations=k, form=form)
                with ctx.case(case):
                    solver = machines.make_solver(kind, jaxfg.sparse.CholmodSolver(), k, settings)
                    estimate, lines = observe(ctx, problem, initial, solver, form)
                    estimates.append(problem.cost(estimate))
                    # What was run is known from the shorter runs, which ended at its earlier estimates
                    n = len(lines) - 1
                    ctx.check(0 <= n <= k, lambda: f"{len(lines)} lines for at most {k} iterations: {lines}")
                    if t == 0:
                        ctx.check(n == k, lambda: f"{len(lines)} lines for {k} iterations: {lines}")
                    judge(ctx, lines, [[(c, None) for c in estimates[: n + 1]]])
                    if n < k:
                        # Terminated: every larger limit gives the same
                        ctx.check(stop in (None, n), f"stopped after {n} iterations, and earlier after {stop}")
                        ctx.check(abs(estimates[n] - estimates[k]) <= lab.EPS * (1 + abs(estimates[n])),
                                  f"estimate changed after the reported end: costs {estimates}")
                        stop = n
                    else:
                        ctx.check(stop is None, f"stopped after {stop} iterations, and then after {n}")
                    ctx.state((problem.name, kind, lab.X64, s, t, k))
                    ctx.trace()
                    ctx.outcome((n, [round(x, 5) for x in numbers(lines[-1])]))
            if t > 0:
                ctx.count("stopped_early" if stop is not None else "ran_to_limit")


def fixed(task, ctx, problem):
    import jaxfg

    from .. import machines

    start = problem.pack(problem.starts[-1])
    for unroll in (True, False):
        estimates = []
        for k in range(task["limit"] + 1):
            with ctx.case(dict(problem=problem.name, unroll=unroll, iterations=k)):
                solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(
                    unroll=unroll, iterations=k, linear_solver=jaxfg.sparse.CholmodSolver()
                )
                estimate, lines = observe(ctx, problem, problem.assignments(start), solver, "plain")
                estimates.append(problem.cost(estimate))
                judge(ctx, lines, [[(c, None) for c in estimates]])
                ctx.state((problem.name, unroll, k))
                ctx.trace()
