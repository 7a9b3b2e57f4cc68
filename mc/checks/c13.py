"""C13: results do not depend on what was computed before."""

import itertools

from .. import graphs

# Linear systems: (pattern, values, order of entries, damping, solver)
SYSTEMS = {
    "p": ("small-0", 0, 0, 0.0, "chol"),
    "p-values": ("small-0", 1, 0, 0.0, "chol"),
    "p-order": ("small-0", 0, 1, 0.0, "new"),
    "q": ("small-1", 0, 0, 0.0, "chol"),
    "r": ("small-2", 0, 0, 0.4, "new"),
    "zeros": ("small-zeros", 0, 0, 0.0, "chol"),
    "p-cg": ("small-0", 0, 0, 0.4, "cg"),
    "q-cg": ("small-1", 1, 0, 0.0, "inexact"),
    "wide": ("split", 0, 0, 0.0, "chol"),
    "wide2": ("split2", 0, 0, 0.0, "chol"),
    "big": ("big-0", 0, 0, 0.0, "chol"),
    "big2": ("big-1", 0, 0, 0.0, "chol"),
    "big3": ("big-2", 0, 0, 0.0, "new"),
}
# Graphs: (connections, types, weights, solver)
GRAPHS = {
    "chain": ("01 12", "R2", 0, "gn"),
    "chain2": ("02 21", "R2", 0, "gn"),
    "star": ("01 02", "R2", 1, "lm"),
    "chain-lm": ("01 12", "R2", 1, "lm"),
    "reversed": ("21 10", "R2", 0, "dl"),
    "mixed": ("01 12", "mix", 0, "gn"),
    "mixed2": ("02 12", "mix", 1, "gn"),
    "fixed": ("12 02", "R2", 0, "fixed"),
    "four": ("01 12 23", "four", 0, "gn"),
    "four2": ("01 02 23", "four", 0, "gn"),
}
TYPES = {"R2": ("R2", "R2", "R2"), "mix": ("R2", "R2", "R1"), "four": ("R2", "R2", "R2", "R2")}
MIXED = ("p", "q", "big", "big2", "chain", "chain2", "mixed", "star")
BOUNDS = {
    "quick": "every history of length 3 over 13 linear systems, over 10 graphs, and over 8 of both, as windows of three walks "
    "in one process; every history of length <= 2 over 9 of them from a freshly loaded library; in one process each, in four orders, "
    "all 216 graphs with three edges on 4 variables x four storage orders (two families of types), and all 512 sparsity patterns of 6x3 "
    "systems over an identity x two entry orders; orders of variables, rows and columns of 9 graphs, alone and after each of the 9; every history of length 2 over 13 problems whose factor, variable and noise classes share their names",
    "thorough": "every history of length 4 over 13 linear systems, and over 10 graphs or both; every history of length <= 2 over all 23 from a "
    "freshly loaded library; all graphs and patterns as before, with 12 instead of 4 orders",
}
ASSUMPTIONS = ["answers compared with closed-form solutions, so with each other: linear to 1e-8, graphs to 1e-6"]
TASK_TIMEOUT = 300


def de_bruijn(n, k):
    """Cyclic sequence over n letters with every word of length k as a window."""
    sequence, a = [], [0] * n * k

    def extend(t, p):
        if t > k:
            if k % p == 0:
                sequence.extend(a[1 : p + 1])
            return
        a[t] = a[t - p]
        extend(t + 1, p)
        for j in range(a[t - p] + 1, n):
            a[t] = j
            extend(t + 1, t)

    extend(1, 1)
    return sequence + sequence[: k - 1]


def tasks(tier):
    out = []
    depth = 3 if tier == "quick" else 4
    for names, k in ((list(SYSTEMS), depth), (list(GRAPHS), depth), (list(MIXED), depth)):
        walk = [names[i] for i in de_bruijn(len(names), k)]
        out.append(dict(config=dict(x64=True), part="walk", walk=walk, depth=k, fresh=False))
        # The same walk backwards: other first uses
        out.append(dict(config=dict(x64=True), part="walk", walk=walk[::-1], depth=k, fresh=False))
    menu = ("p", "p-order", "q", "wide", "wide2", "big", "big2", "chain", "chain2") if tier == "quick" else list(SYSTEMS) + list(GRAPHS)
    fresh = [(a, b) for a, b in itertools.product(menu, repeat=2)]
    out += [dict(config=dict(x64=True), part="fresh", histories=c) for c in graphs.chunks(fresh, 5)]
    for order in range(4 if tier == "quick" else 12):
        for types in FOUR:
            out.append(dict(config=dict(x64=True), part="all-graphs", types=types, order=order))
        out.append(dict(config=dict(x64=True), part="all-patterns", order=order))
    out += [dict(config=dict(x64=True), part="orders", second=list(second)) for second in ORDERS]
    names = ("0 0 0", "1 0 0", "2 0 0", "3 0 1", "4 0 0", "0 1 0", "2 1 1", "0 2 0", "1 2 1", "3 3 0", "1 10 0", "2 10 0", "3 10 1")
    walk = [names[i] for i in de_bruijn(len(names), depth - 1)]
    out += [dict(config=dict(x64=True), part="names", walk=w) for w in (walk, walk[::-1])]
    return out


# Types of the variables of a chain, in the order in which factors mention them
ORDERS = tuple(itertools.permutations(("SO2", "SE2", "SO3"))) + (("SE2", "SO2", "SE2"), ("SE2", "SE2", "SO2"), ("SO2", "SE2", "SE2"))


STORAGE = ((0, 1, 2, 3), (0, 2, 1, 3), (3, 1, 2, 0), (3, 2, 1, 0))
FOUR = {"four": ("R2", "R2", "R2", "R2"), "mixed": ("R1", "R2", "R2", "R1")}


def reorder(items, order):
    """Deterministic orders: as listed, reversed, and strides that visit every item once."""
    if order < 2:
        return items[:: 1 - 2 * order]
    n, stride = len(items), (1, 1, 101, 331, 37, 59, 73, 83, 97, 113, 127, 139)[order]
    return [items[(i * stride) % n] for i in range(n)]


class World:
    """One instance of the library with its own caches and compiled functions."""

    def __init__(self):
        import importlib
        import sys

        for name in [m for m in sys.modules if m == "jaxfg" or m.startswith("jaxfg.") or m == "mc.lab"]:
            del sys.modules[name]
        import jax

        import mc

        if hasattr(mc, "lab"):
            del mc.lab
        self.lab = importlib.import_module("mc.lab")
        self.jaxfg = importlib.import_module("jaxfg")
        jaxfg = self.jaxfg
        self.shared = dict(
            chol=jaxfg.sparse.CholmodSolver(),
            cg=jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-12),
            inexact=jaxfg.sparse.InexactStepConjugateGradientSolver(inexact_step_eta=1e-11),
        )
        self.solvers = {}

        @jax.jit
        def solve(solver, A, b, lambd):
            return solver.solve_subproblem(A=A, ATb=b, lambd=lambd, iteration=0)

        self.solve = solve
        self.expected = {}


def pattern(name):
    """Coordinates and shape. Patterns of one family have equal shapes and entry counts."""
    import numpy as np

    if name.startswith("small"):
        shape = (5, 3)
        common = [(0, 0), (1, 1), (2, 2)]
        extra = {
            "small-0": [(3, 0), (3, 1), (4, 1), (4, 2)],
            "small-1": [(3, 0), (3, 2), (4, 0), (4, 1)],
            "small-2": [(3, 1), (3, 2), (4, 0), (4, 2)],
            "small-zeros": [(3, 0), (3, 1), (4, 1), (4, 2)],
        }[name]
        return common + extra, shape
    if name == "split":  # Equal row lists, split into columns differently
        return [(0, 0), (1, 0), (2, 0), (3, 1), (4, 2)], (5, 3)
    if name == "split2":
        return [(0, 0), (1, 1), (2, 1), (3, 2), (4, 2)], (5, 3)
    # Large systems that differ in the middle only
    n = 220
    entries = [(i, i) for i in range(n)]
    at = dict(zip(("big-0", "big-1", "big-2"), (1, 7, 31)))[name]
    for i in range(n - 40):
        entries += [(n + i, i), (n + i, i + (at if 60 < i < 120 else 1))]
    return entries, (2 * n - 40, n)


def do_system(world, name, ctx):
    import numpy as np

    jaxfg = world.jaxfg
    pattern_name, values, order, lambd, solver = SYSTEMS[name]
    if name not in world.expected:
        entries, shape = pattern(pattern_name)
        k = len(entries)
        r, c = np.array(entries).T
        v = (1.0 + 0.5 * np.sin(1.0 + values + 1.7 * np.arange(k))) * np.where(r == c, 2.0, -0.6)
        if pattern_name == "small-zeros":
            v[-2] = 0.0
        p = np.arange(k) if order == 0 else np.argsort(np.cos(3.0 * np.arange(k)))
        b = np.cos(np.arange(shape[1]))
        dense = np.zeros(shape)
        np.add.at(dense, (r, c), v)
        H = dense.T @ dense
        H = H + ((lambd + 1e-5) * np.eye(len(H)) if solver in ("chol", "new") else lambd * np.diag(np.diag(H)))
        A = jaxfg.sparse.SparseCooMatrix(values=v[p], coords=jaxfg.sparse.SparseCooCoordinates(rows=r[p], cols=c[p]), shape=shape)
        world.expected[name] = A, b, np.linalg.solve(H, b)
    A, b, expected = world.expected[name]
    made = jaxfg.sparse.CholmodSolver() if solver == "new" else world.shared[solver]
    got = np.asarray(world.solve(made, A, b, lambd))
    return got, expected, 1e-8


def do_graph(world, name, ctx):
    import numpy as np

    jaxfg, lab = world.jaxfg, world.lab
    edges, types, weights, solver = GRAPHS[name]
    if solver not in world.solvers:
        settings = dict(max_iterations=60, cost_tolerance=0.0, gradient_tolerance=1e-12, parameter_tolerance=0.0, verbose=False)
        world.solvers[solver] = dict(
            gn=lambda: jaxfg.solvers.GaussNewtonSolver(**settings),
            lm=lambda: jaxfg.solvers.LevenbergMarquardtSolver(**settings),
            dl=lambda: jaxfg.solvers.DoglegSolver(**settings),
            fixed=lambda: jaxfg.solvers.FixedIterationGaussNewtonSolver(iterations=12, unroll=False, verbose=False),
        )[solver]()
    if name not in world.expected:
        nodes = [lab.var(t, 70 + i) for i, t in enumerate(TYPES[types])]
        factors = []
        for i, v in enumerate(nodes):
            d = lab.vtype_of(v).dim
            factors.append(lab.linear([v], [np.eye(d)], np.sin(i + weights + np.arange(d)), lab.Noise("diag", d, i % 2)))
        for e, (a, b) in enumerate(edges.split()):
            va, vb = nodes[int(a)], nodes[int(b)]
            da, db = lab.vtype_of(va).dim, lab.vtype_of(vb).dim
            A, B = np.eye(2, da) * (1.0 + e), -np.eye(2, db) * (1.5 + weights)
            factors.append(lab.linear([va, vb], [A, B], 2.0 * np.cos(e + weights + np.arange(2)), lab.Noise("full", 2, e)))
        variables = lab.variables_of(factors)
        columns, dim = lab.columns_of(variables)
        zero = {v: np.zeros(lab.vtype_of(v).dim) for v in variables}
        J, r = lab.ref_system(factors, zero)
        x = np.linalg.lstsq(J, -r, rcond=None)[0]
        expected = np.concatenate([x[columns[v] : columns[v] + lab.vtype_of(v).dim] for v in nodes])
        world.expected[name] = nodes, factors, lab.make_assignments(zero), expected
    nodes, factors, given, expected = world.expected[name]
    graph = lab.make_graph(factors)  # Built anew each time
    found = lab.read_assignments(graph.solve(given, solver=world.solvers[solver]), nodes)
    return np.concatenate([found[v] for v in nodes]), expected, 1e-6


def step(world, name, ctx, history):
    import numpy as np

    got, expected, tol = (do_system if name in SYSTEMS else do_graph)(world, name, ctx)
    ctx.transition()
    ctx.check(
        got.shape == expected.shape and np.all(np.abs(got - expected) <= tol * (1 + np.max(np.abs(expected)))),
        lambda: f"{name} after {history}: {got[:8].tolist()} instead of {expected[:8].tolist()} "
        f"(largest difference {np.max(np.abs(got - expected)) if got.shape == expected.shape else 'shape'})",
    )
    ctx.outcome((name, np.round(got[:20], 4).tolist()))


def run(task, ctx):
    if task["part"] == "walk":
        world = World()
        walk, k = task["walk"], task["depth"]
        with ctx.case(dict(walk=walk[: 3 * k], length=len(walk))):
            for i, name in enumerate(walk):
                step(world, name, ctx, walk[max(0, i - k + 1) : i])
                ctx.state(tuple(walk[max(0, i - k + 1) : i + 1]))
                ctx.trace() if i >= k - 1 else None
        ctx.sample(dict(walk=walk[:12], length=len(walk)))
        return
    if task["part"] == "all-graphs":
        return all_graphs(task, ctx)
    if task["part"] == "all-patterns":
        return all_patterns(task, ctx)
    if task["part"] == "orders":
        return orders(task, ctx)
    if task["part"] == "names":
        return names(task, ctx)
    for history in task["histories"]:
        if not ctx.wanted(history):
            continue
        with ctx.case(history):
            world = World()
            for i, name in enumerate(history):
                step(world, name, ctx, ["fresh library"] + list(history[:i]))
                ctx.state(("fresh", tuple(history[: i + 1])))
            ctx.trace()
            ctx.count("fresh_libraries")


def all_graphs(task, ctx):
    """Evaluates and linearizes every graph of a family, one after another."""
    import numpy as np

    from .. import lab

    nodes = [lab.var(t, 80 + i) for i, t in enumerate(FOUR[task["types"]])]
    dims = [lab.vtype_of(v).dim for v in nodes]
    values = {v: np.cos(i + np.arange(d)) for i, (v, d) in enumerate(zip(nodes, dims))}
    pairs = list(itertools.combinations(range(4), 2))
    anchors = [lab.linear([v], [np.eye(d)], np.sin(i + np.arange(d)), lab.Noise("diag", d, i % 2)) for i, (v, d) in enumerate(zip(nodes, dims))]

    def edge(e, a, b):
        A, B = np.eye(2, dims[a]) * (1.0 + e), -np.eye(2, dims[b]) * 1.5
        return lab.linear([nodes[a], nodes[b]], [A, B], 2.0 * np.cos(e + np.arange(2)), lab.Noise("full", 2, e))

    made = {(e, p): edge(e, *p) for e in range(3) for p in pairs}
    items = [(es, o) for es in itertools.product(pairs, repeat=3) for o in range(len(STORAGE))]
    with ctx.case(dict(types=task["types"], order=task["order"])):
        for count, (edges, storage) in enumerate(reorder(items, task["order"])):
            factors = anchors + [made[e, p] for e, p in enumerate(edges)]
            graph = lab.make_graph(factors)
            given = lab.make_assignments(values, [nodes[i] for i in STORAGE[storage]])
            r = graph.compute_whitened_residual_vector(given)
            J = graph.compute_whitened_residual_jacobian(given, r)
            r, J = np.asarray(r), np.asarray(J.as_dense())
            want_J, want_r = lab.ref_system(factors, values)
            # Order of rows and columns is the library's: compare what does not depend on it, and each variable's block
            variables = list(graph.get_variables())
            columns, _ = lab.columns_of(lab.variables_of(factors))
            layout = graph.local_storage_layout.index_from_variable
            permute = np.concatenate([np.arange(columns[v], columns[v] + lab.vtype_of(v).dim) for v in sorted(variables, key=lambda v: layout[v])])
            for got, want, what in ((J.T @ J, (want_J.T @ want_J)[permute][:, permute], "normal matrix"), (J.T @ r, (want_J.T @ want_r)[permute], "gradient"), (r @ r, want_r @ want_r, "cost")):
                ctx.check(lab.close(got, want, 1e-8), lambda: f"{what} of graph {count}, {edges} with storage order {storage}: {np.round(got, 4).tolist()} instead of {np.round(want, 4).tolist()}")
            ctx.transition()
            ctx.state(("graph", task["types"], edges, storage))
            ctx.outcome(round(float(r @ r), 6))
    ctx.trace()
    ctx.sample(dict(types=task["types"], order=task["order"], graphs=len(items)))


def names(task, ctx):
    """Classes of one name but different meanings, one after another."""
    import numpy as np

    from .. import names

    world = World()
    made = {}
    walk = task["walk"]
    with ctx.case(dict(classes=walk[:6], length=len(walk))):
        for i, letter in enumerate(walk):
            # Classes defined long ago, and new ones
            if letter not in made or i % 7 == 0:
                made[letter] = names.Problem(world.jaxfg, letter)
            for what, got, want in made[letter].observe():
                ctx.transition()
                ctx.check(
                    np.shape(got) == np.shape(want) and np.max(np.abs(got - want)) < 1e-6,
                    lambda: f"{what} of {letter} after {walk[max(0, i - 3) : i]}: {np.round(got, 5).tolist()} instead of {np.round(want, 5).tolist()}",
                )
                ctx.outcome((what, letter, np.round(got, 5).tolist()))
            ctx.state(("names", tuple(walk[max(0, i - 1) : i + 1])))
            ctx.trace()


def orders(task, ctx):
    """Orders of variables, rows and columns of a graph, after any other graph."""
    import numpy as np

    def build(world, types):
        lab = world.lab
        nodes = [lab.var(t, 60 + i) for i, t in enumerate(types)]
        factors = [lab.prior(t, 60 + i) for i, t in enumerate(types)]
        graph = lab.make_graph(factors)
        given = lab.make_assignments({v: lab.vtype_of(v).points[1] for v in nodes})
        r = graph.compute_whitened_residual_vector(given)
        J = graph.compute_whitened_residual_jacobian(given, r)
        return [nodes.index(v) for v in graph.get_variables()], np.asarray(r), np.asarray(J.as_dense())

    second = task["second"]
    alone = build(World(), second)
    for first in ORDERS:
        case = dict(history=[first, second])
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            world = World()
            build(world, first)
            after = build(world, second)
            ctx.transition(2)
            ctx.state(("order", tuple(first), tuple(second)))
            ctx.outcome(("order", after[0]))
            ctx.trace()
            ctx.check(after[0] == alone[0], f"variables in order {after[0]} instead of {alone[0]}")
            for a, b, what in zip(after[1:], alone[1:], ("residuals", "Jacobian")):
                ctx.check(a.shape == b.shape and np.max(np.abs(a - b)) < 1e-12, f"{what} {a.tolist()} instead of {b.tolist()}")
    ctx.sample(dict(second=second, order=alone[0]))


def all_patterns(task, ctx):
    """Solves systems with every sparsity pattern of a family, one after another."""
    import jax
    import numpy as np

    import jaxfg

    solver = jaxfg.sparse.CholmodSolver()
    solve = jax.jit(lambda s, A, b: s.solve_subproblem(A=A, ATb=b, lambd=0.0, iteration=0))
    items = [(k, o) for k in range(512) for o in (0, 1)]
    b = np.array([1.0, -0.5, 0.3])
    with ctx.case(dict(order=task["order"])):
        for k, entry_order in reorder(items, task["order"]):
            entries = [(i, i) for i in range(3)] + [(3 + i, j) for i in range(3) for j in range(3) if k >> (3 * i + j) & 1]
            r, c = np.array(entries).T
            v = np.where(r < 3, 2.0, 1.0 + 0.5 * np.sin(r + 3.0 * c))
            p = np.arange(len(r))[:: 1 - 2 * entry_order]
            dense = np.zeros((6, 3))
            dense[r, c] = v
            A = jaxfg.sparse.SparseCooMatrix(values=v[p], coords=jaxfg.sparse.SparseCooCoordinates(rows=r[p], cols=c[p]), shape=(6, 3))
            got, want = np.asarray(solve(solver, A, b)), np.linalg.solve(dense.T @ dense + 1e-5 * np.eye(3), b)
            ctx.check(np.max(np.abs(got - want)) < 1e-9, f"pattern {k}, entry order {entry_order}: {got.tolist()} instead of {want.tolist()}")
            ctx.transition()
            ctx.state(("pattern", k, entry_order))
            ctx.outcome(np.round(got, 6).tolist())
    ctx.trace()
    ctx.sample(dict(order=task["order"], patterns=len(items)))
