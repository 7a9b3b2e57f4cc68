"""C20: JAX transformations do not change results."""

import itertools

from .. import graphs

GRAPHS = ("vectors", "manifolds", "poses", "robust")
PLAIN = ("residual", "cost", "jacobian", "nll", "retract", "relayout", "stacked", "set", "defaults")
SOLVES = ("gn", "lm", "dl", "fixed", "unrolled", "inexact")
TRANSFORMS = ("eager", "jit", "vmap-values", "vmap-graph", "vmap-both", "jit-vmap", "vmap-vmap", "map")
BOUNDS = {
    "quick": "4 graphs x (9 operations x 8 transformations, 6 kinds of solves x 4-7 transformations) x batches of 1 and 3 (solves: 3); "
    "derivatives of solves by 3 parameters per graph, in forward and reverse mode, 1..3 iterations; also where all residuals are zero, with a robust loss; "
    "derivatives of costs and residuals of 7 graphs by every parameter and by the values, in both modes",
    "thorough": "4 graphs x 15 operations x 8 transformations x batches of 1, 2 and 5; derivatives for up to 8 iterations",
}
ASSUMPTIONS = [
    "results compared to 1e-7 (conjugate gradient tolerance 1e-12); derivatives to 1e-5 with five-point differences of the solve itself",
]


def tasks(tier):
    out = []
    quick = tier == "quick"
    batches = (1, 3) if quick else (1, 2, 5)
    for name in GRAPHS[:3]:
        for n in ((2,) if name == "manifolds" else (1, 3)) if quick else (1, 2, 3, 5, 8):
            for k in range(3):
                out.append(dict(config=dict(x64=True), part="derivative", graph=name, iterations=n, parameters=[k] if quick else [k, k + 3, k + 6]))
    # Residuals that are exactly zero, where norms and logarithms are not smooth or need care
    for name in ("satisfied", "satisfied-SE2", "satisfied-SO3") if quick else ("satisfied", "satisfied-SO2", "satisfied-SE2", "satisfied-SO3", "satisfied-SE3"):
        for k in range(2):
            out.append(dict(config=dict(x64=True), part="derivative", graph=name, iterations=2, parameters=[k]))
    for name in GRAPHS + ("satisfied", "satisfied-SE2", "satisfied-SO3") + (() if quick else ("satisfied-SO2", "satisfied-SE3")):
        out.append(dict(config=dict(x64=True), part="evaluation", graph=name))
    for name in GRAPHS:
        for op in SOLVES:
            transforms = TRANSFORMS
            if quick:
                transforms = ("jit", "vmap-values", "vmap-graph", "jit-vmap") + (("eager", "vmap-vmap", "map") if name == "vectors" else ())
            for t in graphs.chunks(transforms, 3):
                out.append(dict(config=dict(x64=True), part="plain", graph=name, operations=(op,), transforms=t, batches=batches[1:] if quick else batches))
        for ops in graphs.chunks(PLAIN, 3):
            out.append(dict(config=dict(x64=True), part="plain", graph=name, operations=ops, transforms=TRANSFORMS, batches=batches))
    return out


def factors_of(name, variant):
    """Graphs with one structure and, for each variant, other parameters."""
    from .. import lab

    v = variant
    if name == "vectors":
        return [
            lab.generic(("R2",), (60,), noise="full", variant=v),
            lab.generic(("R2",), (61,), noise="diag", variant=v + 1),
            lab.generic(("R1", "R2"), (60, 60), res_dim=2, variant=v + 1),
            lab.generic(("R2", "R2"), (60, 61), res_dim=3, noise="fullcov", variant=v + 2),
            lab.generic(("R1",), (60,), res_dim=1, variant=v),
        ]
    if name == "manifolds":
        return [
            lab.generic(("C",), (60,), res_dim=2, variant=v),
            lab.generic(("Y", "R1"), (60, 61), res_dim=4, noise="full", variant=v + 1),
            lab.generic(("C", "Y"), (61, 60), res_dim=3, variant=v + 2, style="named"),
            lab.generic(("R1", "C"), (61, 60), res_dim=2, variant=v + 1),
        ]
    if name == "poses":
        return [
            lab.prior("SE2", 60, variant=v % 2),
            lab.between("SE2", 60, 61, noise="full", variant=v % 3),
            lab.between("SE2", 61, 60, noise="full", variant=(v + 1) % 3),
        ]
    if name == "satisfied":
        import numpy as np

        a, b = lab.var("R2", 60), lab.var("R2", 61)
        return [
            lab.linear([a], [np.array([[2.0, 1.0], [0.0, 1.0]])], np.zeros(2), lab.Noise("huber-full", 2, v, 0.5)),
            lab.linear([a, b], [np.eye(2), -np.eye(2)], np.zeros(2), lab.Noise("huber-diag", 2, v, 4.0)),
        ]
    if name.startswith("satisfied-"):
        group = name.split("-")[1]
        identity = lab.vtype_of(lab.var(group, 60)).default
        return [
            lab.prior(group, 60, noise="huber-diag", delta=0.5, mu=identity),
            lab.between(group, 60, 61, noise="huber-full", delta=4.0, measured=identity),
        ]
    return [
        lab.generic(("R2",), (60,), noise="huber-full", variant=v, delta=0.4),
        lab.generic(("R2",), (60,), noise="huber-full", variant=v + 1, delta=0.7),
        lab.generic(("R2", "R2"), (60, 61), noise="diag", variant=v),
        lab.generic(("R2",), (61,), noise="diag", variant=v),
    ]


def operations():
    import jax
    import numpy as np
    from jax import numpy as jnp

    import jaxfg

    from .. import machines

    cg = jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-12)
    settings = dict(machines.NO_TOLERANCE, max_iterations=6, verbose=False)

    def solve(solver):
        return lambda graph, a: graph.solve(a, solver=solver).storage

    def retract(graph, a):
        layout = jaxfg.core.StorageLayout.make(list(a.get_variables())[::-1], local=True)
        delta = jaxfg.core.VariableAssignments(
            storage=0.3 * jnp.sin(jnp.arange(layout.dim) + jnp.sum(a.storage)), storage_layout=layout
        )
        return a.manifold_retract(delta).storage

    def jacobian(graph, a):
        r = graph.compute_whitened_residual_vector(a)
        A = graph.compute_whitened_residual_jacobian(a, r)
        return A.as_dense(), A @ jnp.ones(A.shape[1]), A.T @ r

    def set_value(graph, a):
        variables = list(a.get_variables())
        v = variables[-1]
        value = jax.tree_util.tree_map(lambda x: x * 0.5, a.get_value(v))
        return [a.set_value(v, value).get_value(u) for u in variables]

    return dict(
        residual=lambda graph, a: graph.compute_whitened_residual_vector(a),
        cost=lambda graph, a: graph.compute_cost(a),
        jacobian=jacobian,
        nll=lambda graph, a: graph.compute_joint_nll(a),
        retract=retract,
        relayout=lambda graph, a: a.update_storage_layout(graph.storage_layout).storage,
        stacked=lambda graph, a: [a.get_stacked_value(t) for t in a.storage_layout.get_variable_types()],
        set=set_value,
        defaults=lambda graph, a: a.storage - jaxfg.core.VariableAssignments.make_from_defaults(a.get_variables()).storage,
        gn=solve(jaxfg.solvers.GaussNewtonSolver(linear_solver=cg, **settings)),
        lm=solve(jaxfg.solvers.LevenbergMarquardtSolver(linear_solver=cg, **settings)),
        dl=solve(jaxfg.solvers.DoglegSolver(linear_solver=cg, **settings)),
        fixed=solve(jaxfg.solvers.FixedIterationGaussNewtonSolver(linear_solver=cg, iterations=3, unroll=False, verbose=False)),
        unrolled=solve(jaxfg.solvers.FixedIterationGaussNewtonSolver(linear_solver=cg, iterations=3, unroll=True, verbose=False)),
        # Lanes of a batch stop after different numbers of steps
        inexact=solve(
            jaxfg.solvers.GaussNewtonSolver(
                linear_solver=jaxfg.sparse.InexactStepConjugateGradientSolver(), max_iterations=30, verbose=False
            )
        ),
    )


def run(task, ctx):
    dict(plain=plain, derivative=derivative, evaluation=evaluation)[task["part"]](task, ctx)


def stack(items):
    import jax
    from jax import numpy as jnp

    return jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(i) for i in x]), *items)


def lane(tree, i):
    import jax

    return jax.tree_util.tree_map(lambda x: x[i], tree)


def plain(task, ctx):
    import jax
    import numpy as np

    from .. import lab

    name = task["graph"]
    menu = operations()
    most = max(task["batches"])
    all_graphs = [lab.make_graph(factors_of(name, v)) for v in range(most)]
    variables = lab.variables_of(factors_of(name, 0))
    # Values near and far, stored in another order than the graph's
    all_values = []
    for k in range(most):
        values = lab.make_values(variables)
        columns, dim = lab.columns_of(variables)
        values = lab.ref_retract(values, 0.4 * k * np.sin(k + np.arange(dim)), columns)
        all_values.append(lab.make_assignments(values, variables[::-1]))

    def tree_check(got, expected, what):
        ctx.check(
            jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(expected), f"{what}: another structure"
        )
        for g, e in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(expected)):
            ctx.check(lab.close(g, e, 1e-7), lambda: f"{what}: {np.asarray(g).tolist()} instead of {np.asarray(e).tolist()}")
        ctx.transition()

    for op in task["operations"]:
        if op == "nll" and name == "robust":
            continue
        f = menu[op]
        alone = {}

        def single(i, j):
            if (i, j) not in alone:
                alone[i, j] = f(all_graphs[i], all_values[j])
                ctx.trace()
            return alone[i, j]

        for transform, n in itertools.product(task["transforms"], task["batches"]):
            case = dict(graph=name, operation=op, transform=transform, batch=n)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                ctx.state(str(case))
                gs, vs = all_graphs[:n], all_values[:n]
                if transform == "eager":
                    with jax.disable_jit():
                        for i in range(n):
                            tree_check(f(gs[i], vs[i]), single(i, i), f"lane {i}")
                elif transform == "jit":
                    compiled = jax.jit(f)
                    for i in range(n):
                        tree_check(compiled(gs[i], vs[i]), single(i, i), f"call {i}")
                    tree_check(compiled(gs[0], vs[-1]), single(0, n - 1), "call with other values")
                elif transform == "vmap-values":
                    out = jax.vmap(f, in_axes=(None, 0))(gs[0], stack(vs))
                    for i in range(n):
                        tree_check(lane(out, i), single(0, i), f"lane {i}")
                elif transform == "vmap-graph":
                    out = jax.vmap(f, in_axes=(0, None))(stack(gs), vs[-1])
                    for i in range(n):
                        tree_check(lane(out, i), single(i, n - 1), f"lane {i}")
                elif transform in ("vmap-both", "jit-vmap", "map"):
                    if transform == "map":
                        out = jax.lax.map(lambda gv: f(*gv), (stack(gs), stack(vs)))
                    else:
                        batched = jax.vmap(f)
                        out = (jax.jit(batched) if transform == "jit-vmap" else batched)(stack(gs), stack(vs))
                    for i in range(n):
                        tree_check(lane(out, i), single(i, i), f"lane {i}")
                else:
                    out = jax.vmap(lambda g: jax.vmap(lambda v: f(g, v))(stack(vs)))(stack(gs))
                    for i, j in itertools.product(range(n), repeat=2):
                        tree_check(lane(lane(out, i), j), single(i, j), f"lane {i},{j}")
                ctx.outcome((op, np.round(np.asarray(jax.tree_util.tree_leaves(single(0, 0))[0], float), 5).tolist()))
    ctx.sample(dict(graph=name, operations=task["operations"], transforms=task["transforms"]))


def editable(graph):
    """(label, get, set) for parameters of each stack."""
    for k, s in enumerate(graph.factor_stacks):
        for f in ("mu", "T_a_b"):
            if hasattr(s.factor, f):
                pose = getattr(s.factor, f)
                yield f"stack {k} {f}", pose.parameters(), lambda g, x, k=k, f=f, c=type(pose): setattr(
                    g.factor_stacks[k].factor, f, c(x)
                )
        fields = [f for f in ("b", "s", "offset") if hasattr(s.factor, f)]
        for f in fields:
            yield f"stack {k} {f}", getattr(s.factor, f), lambda g, x, k=k, f=f: setattr(g.factor_stacks[k].factor, f, x)
        for f in ("sqrt_precision_diagonal", "sqrt_precision_matrix"):
            if hasattr(s.factor.noise_model, f):
                yield f"stack {k} noise", getattr(s.factor.noise_model, f), lambda g, x, k=k, f=f: setattr(
                    g.factor_stacks[k].factor.noise_model, f, x
                )


def derivative(task, ctx):
    import jax
    import jax_dataclasses as jdc
    import numpy as np
    from jax import numpy as jnp

    import jaxfg

    from .. import lab, ref

    name, n = task["graph"], task["iterations"]
    factors = factors_of(name, 0)
    graph = lab.make_graph(factors)
    variables = lab.variables_of(factors)
    given = lab.make_assignments(lab.make_values(variables), variables[::-1])
    if name.startswith("satisfied"):
        given = jaxfg.core.VariableAssignments.make_from_defaults(variables[::-1])
    cg = jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-13)
    weights = np.cos(1.0 + np.arange(given.storage.shape[0]))

    chosen = list(editable(graph))
    # Quick runs differentiate by one parameter, one noise model and one parameter of a shared stack
    chosen = [chosen[k % len(chosen)] for k in task["parameters"]]
    for label, value, put in chosen:
        for unroll in (True, False):
            case = dict(graph=name, parameter=label, unroll=unroll, iterations=n)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                ctx.state(str(case))
                solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(linear_solver=cg, iterations=n, unroll=unroll, verbose=False)
                value = np.asarray(value, float)

                def loss(x):
                    with jdc.copy_and_mutate(graph) as edited:
                        put(edited, x)
                    return jnp.sum(weights * edited.solve(given, solver=solver).storage)

                compiled = jax.jit(loss)
                numeric = ref.numdiff(
                    lambda d: np.array([float(compiled(jnp.asarray(value + d.reshape(value.shape))))]), value.size
                ).reshape(value.shape)
                # Loops without a static length only support forward mode
                modes = dict(forward=jax.jacfwd)
                if unroll:
                    modes.update(reverse=jax.grad)
                for mode, transform in modes.items():
                    got = np.asarray(jax.jit(transform(loss))(jnp.asarray(value)))
                    ctx.transition()
                    ctx.check(
                        lab.close(got, numeric, 1e-5),
                        lambda: f"{mode} derivative by {label} is {got.tolist()} instead of {numeric.tolist()}",
                    )
                    ctx.outcome((label, np.round(got, 3).tolist()))
                    ctx.trace()
    ctx.sample(dict(graph=name, parameters=[c[0] for c in chosen]))


def evaluation(task, ctx):
    import jax
    import jax_dataclasses as jdc
    import numpy as np
    from jax import numpy as jnp

    import jaxfg

    from .. import lab, ref

    name = task["graph"]
    factors = factors_of(name, 0)
    graph = lab.make_graph(factors)
    variables = lab.variables_of(factors)
    given = lab.make_assignments(lab.make_values(variables), variables[::-1])
    if name.startswith("satisfied"):
        given = jaxfg.core.VariableAssignments.make_from_defaults(variables[::-1])
    weights = np.cos(1.0 + np.arange(graph.compute_whitened_residual_vector(given).shape[0]))
    functions = dict(
        cost=lambda g, a: g.compute_cost(a)[0],
        residual=lambda g, a: weights @ g.compute_whitened_residual_vector(a),
    )
    if "robust" not in name and "satisfied" not in name:
        functions["nll"] = lambda g, a: g.compute_joint_nll(a)
    for label, value, put in list(editable(graph)) + [("values", given.storage, None)]:
        for op, f in functions.items():
            case = dict(graph=name, evaluation=op, by=label)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                ctx.state(str(case))
                value = np.asarray(value, float)

                def loss(x):
                    if put is None:
                        return f(graph, jdc.replace(given, storage=x))
                    with jdc.copy_and_mutate(graph) as edited:
                        put(edited, x)
                    return f(edited, given)

                compiled = jax.jit(loss)
                numeric = ref.numdiff(
                    lambda d: np.array([float(compiled(jnp.asarray(value + d.reshape(value.shape))))]), value.size
                ).reshape(value.shape)
                for mode, transform in dict(forward=jax.jacfwd, reverse=jax.grad).items():
                    got = np.asarray(jax.jit(transform(loss))(jnp.asarray(value)))
                    ctx.transition()
                    ctx.check(
                        lab.close(got, numeric, 1e-5),
                        lambda: f"{mode} derivative of {op} by {label} is {got.tolist()} instead of {numeric.tolist()}",
                    )
                    ctx.outcome((op, label, np.round(got, 3).tolist()))
                ctx.trace()
    ctx.sample(dict(graph=name, evaluations=list(functions)))
