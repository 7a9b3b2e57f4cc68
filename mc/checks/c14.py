"""C14: concurrent threads get the answers they would get alone."""

import itertools

# name -> (threads, preemptions, instructions instead of lines)
SCENARIOS = {
    # Systems: the same new sparsity pattern, two patterns, known patterns, own solvers
    "systems same": dict(kind="systems", threads=2, patterns="same"),
    "systems different": dict(kind="systems", threads=2, patterns="different"),
    "systems known": dict(kind="systems", threads=2, patterns="known"),
    "systems twice": dict(kind="systems", threads=2, patterns="twice"),
    "systems three": dict(kind="systems", threads=3, patterns="three"),
    # Graphs: solve graphs that differ in their connections, build and solve
    "graphs solve": dict(kind="graphs", threads=2, build=False),
    "graphs build": dict(kind="graphs", threads=2, build=True),
    # One graph object and solver object shared by all threads, with other initial values
    "graphs shared": dict(kind="shared", threads=2),
    # First use of variable types
    "types vector": dict(kind="types", threads=2, what="vector"),
    "types canonical": dict(kind="types", threads=2, what="canonical"),
    "types graph": dict(kind="types", threads=2, what="graph"),
    # Marginal covariances from one object
    "covariance": dict(kind="covariance", threads=2),
}
QUICK = [
    ("systems same", 2, False), ("systems different", 2, False), ("systems known", 1, False), ("systems twice", 1, False),
    ("systems three", 1, False), ("systems same", 1, True), ("systems different", 1, True),
    ("graphs solve", 1, False), ("graphs build", 1, False), ("graphs shared", 1, False),
    ("types vector", 2, False), ("types canonical", 2, False), ("types graph", 1, False), ("types vector", 1, True),
    ("types canonical", 1, True), ("covariance", 1, False),
]
THOROUGH = QUICK + [
    ("systems known", 2, False), ("systems twice", 2, False), ("systems three", 2, False), ("systems same", 2, True),
    ("systems different", 2, True), ("graphs solve", 2, False), ("graphs shared", 2, False), ("types graph", 2, False),
    ("covariance", 2, False),
]
BOUNDS = {
    "quick": "every schedule with <= 2 preemptions at library lines of 2 threads solving systems or first using types, with <= 1 "
    "at lines of 2-3 threads solving, building and sharing graphs, solvers and covariances, and with <= 1 at bytecode "
    "instructions of 2 threads solving systems or first using types",
    "thorough": "as quick with <= 2 preemptions throughout, except <= 1 when building graphs",
}
ASSUMPTIONS = [
    "threads are switched between lines or bytecode instructions of library code; numpy, scipy, CHOLMOD and XLA calls run uninterrupted",
    "compiled functions are warmed up, so that each thread calls back into Python by itself",
]
TASK_TIMEOUT = 600


def tasks(tier):
    return [
        dict(config=dict(x64=True), scenario=s, preemptions=p, instructions=i, first=f)
        for f in (0, 1)
        for s, p, i in sorted(QUICK if tier == "quick" else THOROUGH, key=lambda x: (-x[1], x[0]))
    ]


def make_system(m, offset):
    """One of 15^4 sparsity patterns of equal shape and size."""
    import numpy as np

    import jaxfg

    pairs = [(i, j) for i in range(6) for j in range(i)]
    entries = [(i, i) for i in range(6)]
    for k in range(4):
        m, pair = divmod(m, len(pairs))
        entries += [(6 + k, pairs[pair][0]), (6 + k, pairs[pair][1])]
    rows, cols = np.array(entries).T
    values = 1.0 + 0.5 * np.sin(offset + 1.3 * np.arange(len(entries)))
    A = jaxfg.sparse.SparseCooMatrix(
        values=values, coords=jaxfg.sparse.SparseCooCoordinates(rows=rows, cols=cols), shape=(10, 6)
    )
    b = np.cos(np.arange(6.0) + offset)
    dense = np.zeros((10, 6))
    np.add.at(dense, (rows, cols), values)
    lambd = 0.3 * offset
    return A, b, lambd, np.linalg.solve(dense.T @ dense + (lambd + 1e-5) * np.eye(6), b)


def systems(scenario):
    import jax
    import numpy as np

    import jaxfg

    @jax.jit
    def solve(solver, A, b, lambd):
        return solver.solve_subproblem(A=A, ATb=b, lambd=lambd, iteration=0)

    shared = jaxfg.sparse.CholmodSolver()
    for k in (0, 1):
        A, b, lambd, x = make_system(k, 0)
        solve(shared, A, b, lambd).block_until_ready()

    def make(number):
        new = 2 + 3 * number
        jobs = dict(
            same=[[(new, 0)], [(new, 1)]],
            different=[[(new, 0)], [(new + 1, 1)]],
            known=[[(0, 0)], [(1, 1)]],
            twice=[[(new, 0), (new + 1, 1)], [(new + 1, 2), (new, 3)]],
            three=[[(new, 0)], [(new, 1)], [(new + 1, 2)]],
        )[scenario["patterns"]]
        made = [[make_system(*j) for j in per_thread] for per_thread in jobs]

        def body(work):
            return lambda: [np.asarray(solve(shared, A, b, lambd)) for A, b, lambd, _ in work]

        expected = [[work_item[-1] for work_item in work] for work in made]
        return [body(work) for work in made], lambda run: compare(run, expected, 1e-9)

    return make


def compare(run, expected, tol):
    import numpy as np

    for t, (got, want) in enumerate(zip(run.results, expected)):
        for g, w in zip(got, want):
            if not (np.shape(g) == np.shape(w) and np.all(np.abs(np.asarray(g) - w) <= tol * (1 + np.max(np.abs(w))))):
                return f"thread {t} got {np.asarray(g).tolist()} instead of {np.asarray(w).tolist()}"
    return None


def make_graph_problem(m, offset, nodes, edges=3):
    """Linear graph. Connections given by a number, all of equal shape."""
    import numpy as np

    from .. import lab

    pairs = [(i, j) for i in range(len(nodes)) for j in range(len(nodes)) if i != j]
    factors = [lab.linear([v], [np.eye(2)], np.sin(i + offset + np.arange(2)), lab.Noise("diag", 2, 0)) for i, v in enumerate(nodes)]
    for k in range(edges):
        m, pair = divmod(m, len(pairs))
        a, b = pairs[pair]
        factors.append(
            lab.linear([nodes[a], nodes[b]], [np.eye(2), -np.eye(2) * 1.5], np.cos(k + offset + np.arange(2)), lab.Noise("diag", 2, 1))
        )
    zero = {v: np.zeros(2) for v in nodes}
    J, r = lab.ref_system(factors, zero)
    columns, dim = lab.columns_of(lab.variables_of(factors))
    x = np.linalg.lstsq(J, -r, rcond=None)[0]
    return factors, zero, np.concatenate([x[columns[v] : columns[v] + 2] for v in nodes])


def graphs_(scenario):
    import numpy as np

    import jaxfg

    from .. import lab

    small = scenario["build"]
    nodes = [lab.var("R2", 300 + i) for i in range(3 if small else 5)]
    solver = jaxfg.solvers.GaussNewtonSolver(max_iterations=1 if small else 2, verbose=False)

    def work(m, offset):
        factors, zero, x = make_graph_problem(m, offset, nodes, 1 if small else 3)
        graph = None if scenario["build"] else lab.make_graph(factors)
        given = lab.make_assignments(zero)

        def body():
            g = lab.make_graph(factors) if graph is None else graph
            solution = g.solve(given, solver=solver)
            return [np.concatenate([np.asarray(solution.get_value(v)) for v in nodes])]

        return body, [x]

    work(0, 0)[0]()

    def make(number):
        made = [work(1 + 2 * number, 0), work(2 + 2 * number, 1)]
        return [b for b, _ in made], lambda run: compare(run, [x for _, x in made], 2e-4)

    return make


def shared(scenario):
    import numpy as np

    import jaxfg

    from .. import lab

    nodes = [lab.var("R2", 300 + i) for i in range(5)]
    factors, zero, x = make_graph_problem(1234, 0, nodes)
    graph = lab.make_graph(factors)
    solver = jaxfg.solvers.LevenbergMarquardtSolver(max_iterations=3, verbose=False)

    def work(offset):
        given = lab.make_assignments({v: np.sin(offset + i + np.arange(2)) for i, v in enumerate(nodes)})

        def body():
            solution = graph.solve(given, solver=solver)
            cost, _ = graph.compute_cost(given)
            J = graph.compute_whitened_residual_jacobian(given, graph.compute_whitened_residual_vector(given))
            return [np.concatenate([np.asarray(solution.get_value(v)) for v in nodes]), np.asarray(cost), np.asarray(J.values)]

        return body

    alone = [work(0)(), work(1)()]
    alone = [work(0)(), work(1)()]

    def make(number):
        return [work(0), work(1)], lambda run: compare(run, alone, 1e-12)

    return make


def new_type():
    import jax.numpy as jnp

    import jaxfg

    class NewVariable(jaxfg.core.VariableBase):
        @classmethod
        def get_default_value(cls):
            return jnp.zeros(2)

        get_default_value.__func__.__override__ = True

    return NewVariable


def types(scenario):
    import numpy as np

    import jaxfg

    from .. import lab

    what = scenario["what"]
    dims = itertools.count(1000)

    def make(number):
        dim = next(dims)
        if what == "vector":

            def body():
                T = jaxfg.core.RealVectorVariable[dim]
                return T, T.get_parameter_dim()

            def judge(run):
                types = [r[0] for r in run.results] + [jaxfg.core.RealVectorVariable[dim]]
                if any(t is not types[0] for t in types):
                    return f"threads got different types for vectors of size {dim}"
                if any(r[1] != dim for r in run.results):
                    return "wrong size"

            return [body, body], judge

        if what == "canonical":
            T = new_type()

            def body():
                return T.canonical_instance()

            def judge(run):
                instances = list(run.results) + [T.canonical_instance()]
                if any(i is not instances[0] for i in instances):
                    return "threads got different canonical instances of one type"
                if not isinstance(instances[0], T):
                    return "canonical instance of another type"

            return [body, body], judge

        T = new_type()
        noise = jaxfg.noises.DiagonalGaussian(np.ones(2))
        variables = [T() for _ in range(3)]

        def body():
            factors = [
                lab._Linear(variables=(v,), noise_model=noise, coefficients=(np.eye(2),), offset=np.zeros(2)) for v in variables
            ]
            graph = jaxfg.core.StackedFactorGraph.make(factors)
            return [s.num_factors for s in graph.factor_stacks], graph.jacobian_coords

        def judge(run):
            alone, _ = body()
            for t, (stacks, coords) in enumerate(run.results):
                if stacks != alone:
                    return f"thread {t} got stacks of sizes {stacks} instead of {alone}"
                dense = np.zeros((6, 6))
                np.add.at(dense, (np.asarray(coords.rows), np.asarray(coords.cols)), 1.0)
                if not np.array_equal(dense, np.kron(np.eye(3), np.ones((2, 2)))):
                    return f"thread {t} got wrong coordinates"

        return [body, body], judge

    return make


def covariance(scenario):
    import numpy as np

    import jaxfg

    from .. import lab

    nodes = [lab.var("R2", 300 + i) for i in range(5)]
    factors, zero, x = make_graph_problem(1234, 0, nodes)
    graph = lab.make_graph(factors)
    given = lab.make_assignments(zero)
    J, r = lab.ref_system(factors, zero)
    columns, dim = lab.columns_of(lab.variables_of(factors))
    cov = np.linalg.inv(J.T @ J)

    def block(*vs):
        at = [columns[v] + i for v in vs for i in range(2)]
        return cov[np.ix_(at, at)]

    def make(number):
        from jaxfg.experimental import SparseCovariance

        sc = SparseCovariance.make(graph, given)
        a, b = (nodes[1], nodes[3]), (nodes[3],)
        return [lambda: [sc.compute_marginal(*a)], lambda: [sc.compute_marginal(*b)]], lambda run: compare(
            run, [[block(*a)], [block(*b)]], 1e-9
        )

    return make


KINDS = dict(systems=systems, graphs=graphs_, shared=shared, types=types, covariance=covariance)


def run(task, ctx):
    from .. import schedules

    scenario = SCENARIOS[task["scenario"]]
    make = KINDS[scenario["kind"]](scenario)
    judge = [None]

    def bodies(number):
        made, judge[0] = make(number)
        return made

    def visit(execution, schedule):
        order, preemptions = schedule
        with ctx.case(dict(order=order, preemptions=preemptions)):
            names = [execution.where[k] if k < len(execution.where) else "end" for k, _ in preemptions]
            for t, error in enumerate(execution.errors):
                ctx.check(error is None, f"thread {t} failed with {error!r}, when interrupted at {names}")
            wrong = judge[0](execution)
            ctx.check(wrong is None, f"{wrong}, when interrupted at {names}")
        ctx.trace()
        ctx.transition(len(execution.points))
        for k, _ in preemptions:
            if k < len(execution.where):
                # Where each thread stands when control passes between them
                ctx.state((task["scenario"], execution.points[k][0], execution.where[k], preemptions.index((k, _))))
        ctx.outcome((task["scenario"], [len(execution.points), [p[0] for p in execution.points]]))
        ctx.count("schedules_with_preemptions" if preemptions else "schedules_without_preemptions")
        if execution.blocked:
            ctx.count("schedules_with_a_blocked_thread")

    schedules.explore(
        bodies, scenario["threads"], task["preemptions"], visit, opcodes=task["instructions"], first=task["first"],
        only=ctx.only_case and (tuple(ctx.only_case["order"]), tuple(map(tuple, ctx.only_case["preemptions"]))),
    )
