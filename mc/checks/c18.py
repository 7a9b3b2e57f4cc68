"""C18: marginal covariances are blocks of the inverse information."""

import itertools

from .. import graphs

TYPES = {
    "euclid": ("R2", "R1", "R3", "R2", "R1", "R3"),
    "mixed": ("SE2", "C", "R2", "Y", "R1", "SO3"),
    "same": ("R2",) * 6,
    "se3": ("SE3", "SE3", "SO2", "SE2", "R1", "R1"),
}
BOUNDS = {
    "quick": "all edge sets on 1..3 variables with three type assignments and all query sequences of length 2; all 64 edge "
    "sets on 4 variables, and the chain, ring, star and complete graph on 6, with all single queries; three factor orders; chains and rings of 12, 33 and 70; chains of 150 and 400; four covariances side by side, made and asked in all 24 orders for all edge sets on 1 and 2 variables, and in 5 orders for those on 3; up to three variables in single precision; all edge sets on 1..3 variables with robust noise and two thresholds",
    "thorough": "all edge sets on 1..4 variables with four type assignments and all query sequences of length 2, length 3 on "
    "up to 2 variables; all 1024 edge sets on 5 variables with all single queries",
}
ASSUMPTIONS = ["every variable has a unary factor; condition number of J'J below 1e7; compared to 1e-7 relative to the largest entry (single precision: condition number below 300, 1e-3)"]


def edge_sets(n):
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(1 << len(pairs)):
        yield [p for i, p in enumerate(pairs) if k >> i & 1]


def tasks(tier):
    cases = []
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for k, edges in enumerate(edge_sets(n)):
            for types in ("euclid", "mixed", "same") + (("se3",) if tier == "thorough" else ()):
                for order in range(3) if n > 1 else (0,):
                    if tier == "thorough" and n == 4 and order != k % 3:
                        continue
                    depth = 3 if tier == "thorough" and n <= 2 else 2
                    cases.append(dict(n=n, edges=edges, types=types, order=order, depth=depth if order == k % 3 else 1))
    for n in (4,) if tier == "quick" else (4, 5):
        for k, edges in enumerate(edge_sets(n)):
            cases.append(dict(n=n, edges=edges, types=list(TYPES)[k % 2], order=k % 3, depth=1))
    for n, types in ((6, "euclid"), (6, "mixed")):
        ring = [(i, (i + 1) % n) for i in range(n)]
        for k, edges in enumerate((ring[:-1], ring, [(0, i) for i in range(1, n)], [(i, n - 1) for i in range(n - 1)],
                                   list(itertools.combinations(range(n), 2)))):
            cases.append(dict(n=n, edges=edges, types=types, order=k % 3, depth=1))
    for n in (12, 33, 70) if tier == "quick" else (12, 20, 33, 70, 150):
        for types in ("euclid", "mixed"):
            ring = [(i, (i + 1) % n) for i in range(n)]
            for k, edges in enumerate((ring[:-1], ring + [(0, n // 2), (1, n - 3)])):
                cases.append(dict(n=n, edges=edges, types=types, order=k % 3, depth=1))
    for g in ("SE3", "SO3"):
        cases.append(dict(n=2, edges=[(0, 1)], types=g, order=0, depth=1))
    # Outliers have less weight, inliers the same
    cases += [
        dict(n=n, edges=edges, types=types, order=0, depth=1, robust=delta)
        for n in (1, 2, 3) for edges in edge_sets(n) for types in ("euclid", "mixed") for delta in (0.2, 1.0)
    ]
    out = [dict(config=dict(x64=True), cases=c) for c in graphs.chunks(cases, 8)]
    together = [dict(n=n, edges=edges, types=types) for n in (1, 2, 3) for edges in edge_sets(n) for types in ("euclid", "mixed", "same")]
    out += [dict(config=dict(x64=True), part="together", cases=c) for c in graphs.chunks(together, 5)]
    deep = [dict(n=n, types=types, order=order) for n in (150, 400) for types in ("same", "mixed") for order in (0, 1)]
    out += [dict(config=dict(x64=True), part="deep", cases=[c]) for c in deep]
    single = [c for c in cases if c["n"] <= 3 and c["order"] == 0]
    return out + [dict(config=dict(x64=False), cases=[dict(c, depth=1) for c in g]) for g in graphs.chunks(single, 8)]


def run(task, ctx):
    import jax

    with jax.disable_jit():
        for case in task["cases"]:
            if ctx.wanted(case):
                with ctx.case(case):
                    {"together": alive, "deep": chain}.get(task.get("part"), check)(ctx, **case)


def build(n, edges, types, order, shift=0, robust=None):
    from .. import lab

    names = TYPES[types] if types in TYPES else (types,) * n
    names = list(itertools.islice(itertools.cycle(names), n))
    prefix = "" if robust is None else "huber-"
    seen, nodes = {}, []
    for t in names[:n]:
        seen[t] = seen.get(t, -1) + 1
        nodes.append((t, seen[t]))
    factors = []
    for i, (t, k) in enumerate(nodes):
        factors.append(lab.generic((t,), (k,), res_dim=lab.VTYPES[t].dim, variant=i + shift, noise=prefix + ("diag", "full")[i % 2], delta=robust))
    for e, (a, b) in enumerate(edges):
        (ta, ka), (tb, kb) = nodes[a], nodes[b]
        factors.append(lab.generic((ta, tb), (ka, kb), res_dim=2 + e % 2, variant=e % 3 + shift, noise=prefix + ("full", "diag")[e % 2], delta=robust))
    # Three storage layouts
    factors = [factors, factors[::-1], factors[n:] + factors[:n][::-1]][order]
    return [lab.var(t, k) for t, k in nodes], factors


def alive(ctx, n, edges, types):
    """Several covariances at the same time: of one graph at two assignments, of its copy, and of
    a graph with other parameters over the same variables."""
    import numpy as np

    import jaxfg

    from .. import lab

    nodes, factors = build(n, edges, types, 0)
    _, others = build(n, edges, types, 0, shift=2)
    graph, copy, other = lab.make_graph(factors), lab.make_graph(factors), lab.make_graph(others)
    columns, dim = lab.columns_of(lab.variables_of(factors))
    menu = [(graph, factors, 0), (graph, factors, 1), (copy, factors, 2), (other, others, 0)]
    expected = []
    for g, fs, shift in menu:
        J, _ = lab.ref_system(fs, lab.make_values(nodes, shift), columns)
        if np.linalg.cond(J.T @ J) > 1e7:
            ctx.count("skipped_ill_conditioned")
            return
        expected.append(np.linalg.inv(J.T @ J))
    where = {v: list(range(columns[v], columns[v] + lab.vtype_of(v).ldim)) for v in nodes}
    make = lambda i: jaxfg.experimental.SparseCovariance.make(menu[i][0], lab.make_assignments(lab.make_values(nodes, menu[i][2])))
    pairs = [(i, j) for i in range(n) for j in range(n)]
    orders = list(itertools.permutations(range(4)))
    for early, order in itertools.product((True, False), orders if n < 3 else orders[::5]):
        # Either all are made first, or each when it is first asked
        made = {i: make(i) for i in order} if early else {}
        for a, b in pairs:
            index = where[nodes[a]] + (where[nodes[b]] if a != b else [])
            for i in order:
                if i not in made:
                    made[i] = make(i)
                got = np.asarray(made[i].compute_marginal(*([nodes[a], nodes[b]] if a != b else [nodes[a]])), float)
                right = expected[i][np.ix_(index, index)]
                ctx.transition()
                ctx.check(
                    got.shape == right.shape and np.all(np.abs(got - right) <= 1e-7 * np.max(np.abs(expected[i]))),
                    lambda: f"marginal {(a, b)} of covariance {i}: {got.tolist()} instead of {right.tolist()} (order {order})",
                )
        ctx.trace()
        ctx.state((n, str(edges), types, early, order))
    ctx.outcome([np.round(e, 5).tolist() for e in expected])


def chain(ctx, n, types, order):
    """Long chains: entries at one end depend on those at the other."""
    import copy

    import numpy as np

    import jaxfg

    from .. import lab

    nodes, factors = build(n, [(i, i + 1) for i in range(n - 1)], types, order)
    graph = lab.make_graph(factors)
    values = lab.make_values(nodes)
    columns, dim = lab.columns_of(lab.variables_of(factors))
    J, _ = lab.ref_system(factors, values, columns)
    covariance = np.linalg.inv(J.T @ J)
    made = jaxfg.experimental.SparseCovariance.make(graph, lab.make_assignments(values, nodes[::-1]))
    where = {v: list(range(columns[v], columns[v] + lab.vtype_of(v).ldim)) for v in nodes}
    for picks in ((0,), (n - 1,), (n // 2,), (0, n - 1), (n - 1, 0), (1, 0), (n // 3, n // 2)):
        fresh = copy.deepcopy(made, {id(v): v for v in nodes})
        for _ in range(2):
            got = np.asarray(fresh.compute_marginal(*[nodes[i] for i in picks]), float)
            index = [c for i in picks for c in where[nodes[i]]]
            expected = covariance[np.ix_(index, index)]
            ctx.transition()
            ctx.check(
                got.shape == expected.shape and np.all(np.abs(got - expected) <= 1e-7 * np.max(np.abs(covariance))),
                lambda: f"marginal {picks}: {got.tolist()} instead of {expected.tolist()}",
            )
        ctx.trace()
    ctx.state((n, types, order))
    ctx.outcome(np.round(np.diag(covariance), 5).tolist())


def check(ctx, n, edges, types, order, depth, robust=None):
    import copy

    import numpy as np

    import jaxfg

    from .. import lab
    from .c02 import dense

    nodes, factors = build(n, edges, types, order, robust=robust)
    graph = lab.make_graph(factors)
    variables = lab.variables_of(factors)
    values = lab.make_values(nodes)
    if robust is not None:
        norms = [np.linalg.norm(f.noise.L @ f.residual(values)) for f in factors]
        ctx.count("outliers", int(sum(x > robust for x in norms)))
        ctx.count("inliers", int(sum(x < robust for x in norms)))
    J, _ = lab.ref_system(factors, values)
    information = J.T @ J
    tol = 1e-7 if lab.X64 else 1e-3
    if np.linalg.cond(information) > (1e7 if lab.X64 else 300):
        ctx.count("skipped_ill_conditioned")
        return
    covariance = np.linalg.inv(information)
    scale = np.max(np.abs(covariance))
    columns, dim = lab.columns_of(variables)
    made = jaxfg.experimental.SparseCovariance.make(graph, lab.make_assignments(values, nodes[::-1]))
    ctx.state((n, str(edges), types, order, robust))

    where = {v: list(range(columns[v], columns[v] + lab.vtype_of(v).ldim)) for v in nodes}
    # Our columns follow first appearance; translate entries of the graph's own layout
    layout = graph.local_storage_layout.index_from_variable
    translate = {layout[v] + k: columns[v] + k for v in nodes for k in range(lab.vtype_of(v).ldim)}
    full = [translate[i] for i in range(dim)]

    menu = []
    for size in (1, 2):
        for vs in itertools.permutations(range(n), size):
            menu.append(("marginal", vs))
    if n > 2:
        menu += [("marginal", tuple(range(n))), ("marginal", tuple(range(n))[::-1])]
    menu.append(("marginal", (0, 0)))
    if n > 6:
        # Neighbours, opposite ends, and one in eight of the rest
        menu = [m for i, m in enumerate(menu) if i % 8 == 0 or max(m[1]) - min(m[1]) in (1, n - 1)][:: max(1, n // 12)] + menu[-3:]
    spots = range(dim) if depth == 1 and n <= 3 else sorted({0, 1 % dim, dim // 2, dim - 1})
    menu += [("entry", ij) for ij in itertools.product(spots, repeat=2)][:: 1 if depth < 3 else 3]
    menu += [("dense", True), ("dense", False)]

    def query(target, what, argument):
        if what == "marginal":
            got = target.compute_marginal(*[nodes[i] for i in argument])
            index = [c for i in argument for c in where[nodes[i]]]
            expected = covariance[np.ix_(index, index)]
        elif what == "entry":
            got = target[argument]
            expected = covariance[translate[argument[0]], translate[argument[1]]]
        else:
            got = target.as_dense(use_inverse=argument)
            expected = covariance[np.ix_(full, full)]
        got = np.asarray(got, float)
        ctx.check(
            got.shape == np.shape(expected) and np.all(np.abs(got - expected) <= tol * scale),
            lambda: f"{what} {argument}: {got.tolist()} instead of {np.asarray(expected).tolist()}",
        )

    for sequence in itertools.product(menu, repeat=depth):
        fresh = copy.deepcopy(made, {id(v): v for v in nodes})
        for what, argument in sequence:
            try:
                query(fresh, what, argument)
            except Exception as e:
                raise type(e)(f"after {sequence}: {e}") from e
            ctx.transition()
        ctx.trace()
    ctx.outcome(np.round(covariance, 5).tolist())
    ctx.sample(dict(n=n, edges=edges, types=types, order=order, queries=len(menu) ** depth))
