"""C22: incompatible inputs are refused, not silently misread."""

import itertools

from .. import graphs

# Two variables of one type, others with equal and different dimensions
UNIVERSE = (("R2", 30), ("R2", 31), ("R1", 30), ("C", 30), ("R2", 32))
OPERATIONS = ("cost", "residual", "jacobian", "nll", "gn", "lm", "dl", "fixed", "covariance")
BOUNDS = {
    "quick": "graphs over all 15 subsets of 4 variables x assignments over all 31 subsets of 5, global and local, x 9 "
    "operations, eagerly and (subsets of up to 2) compiled; layout changes and retractions for all pairs of subsets and flags; all single "
    "mutations of value tuples for 7 factor signatures; products for shapes up to 4x4 with lengths 0..6; likelihoods of all "
    "noise mixes of up to 3 factors",
    "thorough": "also compiled for all pairs",
}
ASSUMPTIONS = ["Python assertions are enabled"]


def subsets(n):
    return [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]


def tasks(tier):
    out = []
    for mode in ("eager", "jit"):
        for g in subsets(4):
            if mode == "jit" and tier == "quick" and len(g) > 2:
                continue
            if mode == "jit" and tier == "quick" and g not in ((0,), (1, 2), (0, 1), (3,), (0, 3)):
                continue
            out.append(dict(config=dict(x64=True), part="graph", mode=mode, graph=g))
    out += [dict(config=dict(x64=True), part=p) for p in ("layouts", "retract", "tuples", "products", "likelihood")]
    return out


def refused(ctx, f, what):
    """Passes if f raises."""
    import numpy as np
    import jax

    ctx.transition()
    try:
        out = f()
        jax.block_until_ready(jax.tree_util.tree_leaves(out))
    except Exception as e:
        ctx.outcome((what.split(":")[0], type(e).__name__))
        return
    ctx.fail(f"{what}: was not refused")


def accepted(ctx, f, what):
    import jax

    ctx.transition()
    try:
        out = f()
        jax.block_until_ready(jax.tree_util.tree_leaves(out))
    except Exception as e:
        ctx.fail(f"{what}: refused with {type(e).__name__}: {e}")
        raise
    ctx.outcome((what.split(":")[0], "accepted"))
    return out


def variables(subset):
    from .. import lab

    return [lab.var(*UNIVERSE[i]) for i in subset]


def assign(subset, local=False):
    import numpy as np
    import jaxfg

    from .. import lab

    vs = variables(subset)
    if not local:
        return lab.make_assignments(lab.make_values(vs))
    layout = jaxfg.core.StorageLayout.make(vs, local=True)
    return jaxfg.core.VariableAssignments(storage=0.1 * np.ones(layout.dim), storage_layout=layout)


def graph_of(subset):
    from .. import lab

    factors = []
    for i in subset:
        t, k = UNIVERSE[i]
        factors.append(lab.generic((t,), (k,), res_dim=lab.VTYPES[t].dim, variant=i))
    for a, b in zip(subset, subset[1:]):
        (ta, ka), (tb, kb) = UNIVERSE[a], UNIVERSE[b]
        factors.append(lab.generic((ta, tb), (ka, kb), res_dim=2))
    return lab.make_graph(factors)


def operation(name, graph, assignments):
    import numpy as np

    import jaxfg

    cg = jaxfg.sparse.ConjugateGradientSolver()
    if name == "cost":
        return graph.compute_cost(assignments)
    if name == "residual":
        return graph.compute_whitened_residual_vector(assignments)
    if name == "jacobian":
        return graph.compute_whitened_residual_jacobian(assignments, residual_vector=np.zeros(graph.residual_dim))
    if name == "nll":
        return graph.compute_joint_nll(assignments)
    if name == "covariance":
        return jaxfg.experimental.SparseCovariance.make(graph, assignments).as_dense()
    solver = dict(
        gn=lambda: jaxfg.solvers.GaussNewtonSolver(linear_solver=cg, max_iterations=2, verbose=False),
        lm=lambda: jaxfg.solvers.LevenbergMarquardtSolver(linear_solver=cg, max_iterations=2, verbose=False),
        dl=lambda: jaxfg.solvers.DoglegSolver(linear_solver=cg, max_iterations=2, verbose=False),
        fixed=lambda: jaxfg.solvers.FixedIterationGaussNewtonSolver(linear_solver=cg, iterations=1, verbose=False),
    )[name]()
    return graph.solve(assignments, solver=solver)


def run(task, ctx):
    globals()["part_" + task["part"]](task, ctx)


def part_graph(task, ctx):
    import jax

    members = tuple(task["graph"])
    graph = graph_of(members)
    with jax.disable_jit(task["mode"] == "eager"):
        for other in subsets(5):
            for local in (False, True):
                case = dict(mode=task["mode"], graph=members, assignments=other, local=local)
                if not ctx.wanted(case):
                    continue
                with ctx.case(case):
                    ctx.state(str(case))
                    # Listed in reverse: another storage order is no reason to refuse
                    given = assign(other[::-1], local)
                    for name in OPERATIONS:
                        fits = other == members and not local
                        (accepted if fits else refused)(ctx, lambda: operation(name, graph, given), f"{name}: {case}")
                    ctx.trace()
    ctx.sample(dict(graph=members, operations=OPERATIONS))


def part_layouts(task, ctx):
    import jax

    import jaxfg

    with jax.disable_jit():
        for a, b, la, lb in itertools.product(subsets(5), subsets(5), (False, True), (False, True)):
            case = dict(assignments=a, layout=b, local=[la, lb])
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                ctx.state(str(case))
                given = assign(a, la)
                layout = jaxfg.core.StorageLayout.make(variables(b[::-1]), local=lb)
                fits = a == b and la == lb
                (accepted if fits else refused)(ctx, lambda: given.update_storage_layout(layout), f"layout: {case}")
        ctx.trace()


def part_retract(task, ctx):
    import jax

    with jax.disable_jit():
        for a, b, la, lb in itertools.product(subsets(5), subsets(5), (False, True), (False, True)):
            case = dict(values=a, deltas=b, local=[la, lb])
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                ctx.state(str(case))
                values, deltas = assign(a, la), assign(b[::-1], lb)
                fits = a == b and not la and lb
                (accepted if fits else refused)(ctx, lambda: values.manifold_retract(deltas), f"retract: {case}")
        ctx.trace()
    # Compiled
    for a, b, la, lb in itertools.product(((0,), (0, 1), (0, 2)), ((0,), (1,), (0, 1), (0, 2), (0, 4)), (False, True), (False, True)):
        case = dict(values=a, deltas=b, local=[la, lb], mode="jit")
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            values, deltas = assign(a, la), assign(b[::-1], lb)
            fits = a == b and not la and lb
            (accepted if fits else refused)(ctx, lambda: values.manifold_retract(deltas), f"retract: {case}")
            ctx.trace()


def part_tuples(task, ctx):
    import numpy as np

    from .. import lab

    def check(label, factor, values, wrong):
        with ctx.case(dict(factor=label)):
            ctx.state(label)
            build = factor.jaxfg.build_variable_value_tuple
            out = accepted(ctx, lambda: build(tuple(values)), f"tuple: {label}")
            ctx.check(all(a is b for a, b in zip(out, values)) and len(out) == len(values), "values were changed")
            refused(ctx, lambda: build(list(values)), f"tuple: {label} as list")
            for n in range(len(values)):
                refused(ctx, lambda: build(tuple(values[:n])), f"tuple: {label} with {n} values") if "ellipsis" not in label else None
                for position in range(len(values)):
                    for bad in wrong[position]:
                        mutated = list(values)
                        mutated[position] = bad
                        refused(ctx, lambda: build(tuple(mutated)), f"tuple: {label} with {type(bad).__name__} at {position}")
            if "ellipsis" not in label:
                refused(ctx, lambda: build(tuple(values) + (values[-1],)), f"tuple: {label} with one value more")
            ctx.trace()

    def value(t, k=0):
        return lab.VTYPES[t].to_value(lab.VTYPES[t].points[k])

    others = {"SE2": ("SO2", "SE3", "R2", "P", "D"), "P": ("SE2", "D", "R2", "Y"), "D": ("P", "SE2", "R3"), "Y": ("P", "SE2", "D")}
    for style in ("tuple", "named"):
        for signature in (("SE2",), ("SE2", "R2"), ("P", "D"), ("R2", "Y"), ("SE2", "P", "D"), ("D", "SE2")):
            factor = lab.generic(signature, (0,) * len(signature), style=style)
            values = [value(t) for t in signature]
            wrong = [[value(o) for o in others.get(t, ())] for t in signature]
            check(f"{style} {signature}", factor, values, wrong)
    for n in (1, 2, 3):
        factor = lab.generic(("SE2",) * n, tuple(range(n)), style="ellipsis")
        check(f"ellipsis {n}", factor, [value("SE2", k) for k in range(n)], [[value(o) for o in others["SE2"]]] * n)
    for g in ("SO2", "SE2", "SO3", "SE3"):
        check(f"prior {g}", lab.prior(g, 0), [value(g)], [[value("R2"), value("D")]])
        check(f"between {g}", lab.between(g, 0, 1), [value(g), value(g, 1)], [[value("R2")], [value("D")]])


def part_products(task, ctx):
    import jax
    import numpy as np
    from jax import numpy as jnp

    import jaxfg

    for m, n in itertools.product(range(1, 5), repeat=2):
        with ctx.case(dict(shape=[m, n])):
            ctx.state((m, n))
            rows, cols = map(np.ravel, np.indices((m, n)))
            A = jaxfg.sparse.SparseCooMatrix(
                values=np.arange(1.0, m * n + 1), coords=jaxfg.sparse.SparseCooCoordinates(rows=rows, cols=cols), shape=(m, n)
            )
            for length in range(7):
                x = jnp.ones(length)
                (accepted if length == n else refused)(ctx, lambda: A @ x, f"product: {m}x{n} with {length}")
                (accepted if length == m else refused)(ctx, lambda: A.T @ x, f"product: transpose of {m}x{n} with {length}")
            for shape in ((n, 1), (1, n), (n, n), ()):
                refused(ctx, lambda: A @ jnp.ones(shape), f"product: {m}x{n} with array of shape {shape}")
            refused(ctx, lambda: jax.jit(lambda A, x: A @ x)(A, jnp.ones(n + 1)), f"product: compiled {m}x{n} with {n + 1}")
            ctx.trace()


def part_likelihood(task, ctx):
    import jax

    from .. import lab

    kinds = ("diag", "full", "fullcov", "huber-diag", "huber-full")
    with jax.disable_jit():
        for word in graphs.words(kinds, (1, 2, 3)):
            if not ctx.wanted(word):
                continue
            with ctx.case(word):
                ctx.state(tuple(word))
                factors = [lab.generic(("R2",), (i % 2,), noise=k, variant=i) for i, k in enumerate(word)]
                graph = lab.make_graph(factors)
                given = lab.make_assignments(lab.make_values(lab.variables_of(factors)))
                fits = not any(k.startswith("huber") for k in word)
                (accepted if fits else refused)(ctx, lambda: graph.compute_joint_nll(given), f"likelihood: {word}")
                accepted(ctx, lambda: graph.compute_cost(given), f"cost: {word}")
                ctx.trace()
    for word in (("huber-diag",), ("diag", "huber-full")):
        with ctx.case(dict(compiled=word)):
            factors = [lab.generic(("R2",), (i % 2,), noise=k, variant=i) for i, k in enumerate(word)]
            given = lab.make_assignments(lab.make_values(lab.variables_of(factors)))
            refused(ctx, lambda: lab.make_graph(factors).compute_joint_nll(given), f"likelihood: compiled {word}")
