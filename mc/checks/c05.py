"""C05: MAP inference does not depend on ordering."""

import itertools

from .. import graphs

SOLVERS = ("gn", "lm", "dl", "fixed")
# Factors as (letter arguments); every problem has a unique optimum near its initial values
PROBLEMS = {
    "vectors": [
        ("generic", dict(signature=("R2",), indices=(40,), noise="full", variant=0)),
        ("generic", dict(signature=("R1", "R2"), indices=(40, 40), res_dim=2, variant=1)),
        ("generic", dict(signature=("R2", "R2"), indices=(40, 41), res_dim=3, noise="fullcov", variant=2)),
        ("generic", dict(signature=("R1",), indices=(40,), res_dim=1, variant=3)),
    ],
    "manifolds": [
        ("generic", dict(signature=("C",), indices=(40,), res_dim=2)),
        ("generic", dict(signature=("Y", "R1"), indices=(40, 41), res_dim=4, noise="full", variant=1)),
        ("generic", dict(signature=("C", "Y"), indices=(41, 40), res_dim=3, variant=2)),
        ("generic", dict(signature=("R1", "C"), indices=(41, 40), res_dim=2, variant=1)),
    ],
    "poses": [
        ("prior", dict(group="SE2", index=40)),
        ("between", dict(group="SE2", a=40, b=41, noise="full", variant=1)),
        ("between", dict(group="SE2", a=41, b=40, variant=2)),
        ("generic", dict(signature=("R2", "SE2"), indices=(42, 41), res_dim=2, variant=1)),
    ],
}
BOUNDS = {
    "quick": "two graphs with all 24 factor orders x 4 solvers and all assignment orders, a pose graph with 8 factor orders "
    "x 4 solvers; assignment orders cycle through all permutations; two starts; chains of 26 and 60 variables in 13 orders",
    "thorough": "three graphs with all 24 factor orders x all assignment orders x 4 solvers",
}
ASSUMPTIONS = [
    "starting close enough to the optimum for every solver to converge to it; solutions compared to 1e-5",
]


def tasks(tier):
    out = []
    for name, letters in PROBLEMS.items():
        perms = list(itertools.permutations(range(4)))
        if tier == "quick" and name == "poses":
            perms = perms[::3]
        for solver in SOLVERS:
            for share in graphs.chunks(perms, 4):
                out.append(dict(config=dict(x64=True), problem=name, solver=solver, orders=share, all=tier == "thorough"))
    for count in (26, 60) if tier == "quick" else (26, 60, 130):
        for solver in SOLVERS:
            out.append(dict(config=dict(x64=True), large=count, solver=solver))
    return out


def shuffles(n):
    """Orders of many things: as listed, backwards, halves exchanged, interleaved, mixed."""
    stride = next(s for s in (7, 11, 13) if n % s)
    return dict(
        plain=list(range(n)), backwards=list(range(n))[::-1], halves=list(range(n // 2, n)) + list(range(n // 2)),
        odd=list(range(1, n, 2)) + list(range(0, n, 2)), mixed=[(i * stride) % n for i in range(n)],
    )


def large(task, ctx):
    """Chains of many variables: linear, with a closed-form optimum."""
    import jaxfg
    import numpy as np

    from .. import lab

    n = task["large"]
    variables = [lab.var(("R2", "R2", "R1")[i % 3], 100 + i) for i in range(n)]
    factors = []
    for i, v in enumerate(variables):
        d = lab.vtype_of(v).dim
        factors.append(lab.linear([v], [np.eye(d) * (1.0 + i % 4)], np.sin(i + np.arange(d)), lab.Noise("diag", d, i % 3)))
        if i:
            u = variables[i - 1]
            C = [0.4 * np.cos(i + k + np.arange(2 * lab.vtype_of(x).dim)).reshape(2, -1) for k, x in enumerate((u, v))]
            factors.append(lab.linear([u, v], C, np.cos(i + np.arange(2)), lab.Noise("diag", 2, i % 2)))
    start = lab.make_values(variables)
    best = reference(factors, start)
    for f, w in itertools.product(shuffles(len(factors)).items(), shuffles(n).items()):
        case = dict(large=n, solver=task["solver"], factors=f[0], assignments=w[0])
        if not ctx.wanted(case) or (f[0] != "plain" and w[0] not in ("plain", f[0])):
            continue
        with ctx.case(case):
            graph = lab.make_graph([factors[i] for i in f[1]])
            given = lab.make_assignments(start, [variables[i] for i in w[1]])
            found = graph.solve(given, solver=solver_of(task["solver"], jaxfg, 25))
            ctx.transition()
            ctx.state((n, f[0], w[0]))
            ctx.check(found.storage_layout == given.storage_layout, "the solution is not stored like the initial assignments")
            error = lab.same_values(lab.read_assignments(found, variables), best)
            ctx.check(error < 1e-4, lambda: f"solution differs by {error} from the optimum")
            ctx.trace()
            ctx.outcome(np.round(np.asarray(found.storage), 3).tolist())


def solver_of(name, jaxfg, limit):
    from .. import machines

    made = dict(gn=jaxfg.solvers.GaussNewtonSolver, lm=jaxfg.solvers.LevenbergMarquardtSolver, dl=jaxfg.solvers.DoglegSolver)
    if name == "fixed":
        return jaxfg.solvers.FixedIterationGaussNewtonSolver(iterations=max(limit - 20, 6), unroll=False, verbose=False)
    return made[name](max_iterations=limit, verbose=False, **machines.NO_TOLERANCE)


def run(task, ctx):
    if "large" in task:
        return large(task, ctx)
    from .. import lab

    import jaxfg
    import numpy as np

    factors = [getattr(lab, f)(**k) for f, k in PROBLEMS[task["problem"]]]
    variables = lab.variables_of(factors)
    start = lab.make_values(variables)
    best = reference(factors, start)
    starts = [
        lab.ref_retract(best, 0.15 * np.sin(shift + np.arange(100)), lab.columns_of(variables)[0]) for shift in (2.0, 5.0)
    ]
    solver = solver_of(task["solver"], jaxfg, 60)
    arrangements = list(itertools.permutations(range(len(variables))))
    for order in task["orders"]:
        index = sum(o * 4**i for i, o in enumerate(order))
        graph = lab.make_graph([factors[i] for i in order])
        everything = task["all"] or list(order) == [0, 1, 2, 3] and task["solver"] == "gn"
        chosen = arrangements if everything else [arrangements[(index * 5) % len(arrangements)]]
        for arrangement in chosen:
            case = dict(problem=task["problem"], solver=task["solver"], factors=order, assignments=arrangement)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                for initial in starts:
                    given = lab.make_assignments(initial, [variables[i] for i in arrangement])
                    found = graph.solve(given, solver=solver)
                    ctx.transition()
                    ctx.state((task["problem"], tuple(order), arrangement))
                    ctx.check(
                        found.storage_layout == given.storage_layout
                        and list(found.get_variables()) == list(given.get_variables()),
                        "the solution is not stored like the initial assignments",
                    )
                    got = lab.read_assignments(found, variables)
                    error = lab.same_values(got, best)
                    ctx.check(error < 1e-5, lambda: f"solution {[x.tolist() for x in got.values()]} instead of {[x.tolist() for x in best.values()]}")
                    # The initial assignments still hold what they held
                    ctx.check(lab.same_values(lab.read_assignments(given, variables), initial) < 1e-9, "initial assignments changed")
                    ctx.outcome((task["problem"], np.round(np.concatenate(list(got.values())), 3).tolist()))
            ctx.count("arrangements")
        ctx.trace()
    ctx.sample(dict(problem=task["problem"], optimum={str(i): x.tolist() for i, x in enumerate(best.values())}))


def reference(factors, values):
    """The optimum, by damped Gauss-Newton iterations in numpy."""
    import numpy as np

    from .. import lab

    columns, dim = lab.columns_of(lab.variables_of(factors))
    damping = 1.0
    for _ in range(300):
        J, r = lab.ref_system(factors, values)
        step = np.linalg.solve(J.T @ J + damping * np.eye(dim), -J.T @ r)
        moved = lab.ref_retract(values, step, columns)
        if lab.ref_cost(factors, moved) <= lab.ref_cost(factors, values) * (1 + 1e-14):
            values, damping = moved, damping * 0.2
            if np.linalg.norm(step) < 1e-11 and damping < 1e-6:
                break
        else:
            damping = damping * 5 + 1e-12
    J, r = lab.ref_system(factors, values)
    assert np.linalg.norm(J.T @ r) < 1e-6, np.linalg.norm(J.T @ r)
    assert np.linalg.cond(J) < 100, np.linalg.cond(J)
    return values
