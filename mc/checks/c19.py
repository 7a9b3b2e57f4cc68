"""C19: geometry factors and variables follow the Lie groups."""

import itertools

from .. import graphs

GROUPS = ("SO2", "SE2", "SO3", "SE3")
BOUNDS = {
    "quick": "per group, rotations by 0, 1e-9, 1e-4, 0.04, 0.3, -1.2, 2.5, 3.1 (two axes), translations 0, short and long: all "
    "ordered pairs for priors and retractions, all triples of a subset of 8 for between factors; retractions by 13 lengths between 1e-6 and 20 in 4 directions; chains of 50 retractions; "
    "solves of all loops of 2 and 3 poses from 4 starts; float64, and float32 on a subset",
    "thorough": "the same grids with five axes and four translations; triples of 16 poses; 400 retractions; loops of up to 4 poses",
}
ASSUMPTIONS = [
    "relative rotations below pi - 0.03; Jacobians below 2.9 (finite differences of the reference logarithm must not cross pi)",
]
ANGLES = (0.0, 1e-9, 1e-4, 0.04, 0.3, -1.2, 2.5, 3.1)


def grid(name, tier):
    """Flat parameters of a grid of group elements, identity first."""
    import numpy as np

    from .. import ref

    g = ref.GROUPS[name]
    axes = [np.array([0.6, -0.48, 0.64]), np.array([0.0, 0.0, 1.0])]
    if tier == "thorough":
        axes += [np.eye(3)[0], np.eye(3)[1], np.array([1.0, 1.0, -1.0]) / np.sqrt(3)]
    shifts = [0.0, 0.5, 40.0] + ([1e-5] if tier == "thorough" else [])
    if name == "SO2":
        tangents = [np.array([a]) for a in ANGLES]
    elif name == "SE2":
        tangents = [np.array([s, -0.7 * s, a]) for a in ANGLES for s in shifts]
    elif name == "SO3":
        tangents = [a * axis for a in ANGLES for axis in axes]
    else:
        tangents = [
            np.concatenate([s * np.array([1.0, -0.4, 0.3]), a * axis])
            for a in ANGLES for i, axis in enumerate(axes) for j, s in enumerate(shifts)
            if tier == "thorough" or i == 0 or j == 1
        ]
    points = {}
    for t in tangents:
        p = g.exp(t)
        points.setdefault(tuple(np.round(p, 14)), p)
    return list(points.values())


def tasks(tier):
    out = []
    for name in GROUPS:
        for x64 in (True, False):
            out += [dict(config=dict(x64=x64), part=part, group=name, tier=tier) for part in ("prior", "retract")]
            out += [dict(config=dict(x64=x64), part="between", group=name, tier=tier, share=s) for s in range(1 if name == "SO2" else 3)]
        out += [dict(config=dict(x64=True), part="solve", group=name, tier=tier, poses=n)
                for n in ((2, 3) if tier == "quick" else (2, 3, 4))]
    return out


def run(task, ctx):
    globals()[task["part"]](task, ctx)


def tolerance(points, g):
    """Rounding of products of long translations."""
    import numpy as np

    from .. import lab

    longest = max([0.0] + [np.max(np.abs(p)) for p in points])
    return (1e-8 if lab.X64 else 2e-3) * (1 + longest)


def judge(ctx, g, kind, inputs, residual, jacobians, expected, derivatives, relative):
    """Compares one residual and its Jacobians with the reference."""
    import numpy as np

    from .. import lab, ref

    angle = g.angle(relative)
    if angle > np.pi - 0.03:
        ctx.count("skipped_near_pi")
        return
    # jaxlie's logarithms divide by 1 - cos(angle) at small angles
    length = max(np.max(np.abs(p)) for p in inputs)
    eps = 2.3e-16 if lab.X64 else 1.2e-7
    tol = tolerance(inputs, g) + (20 * eps / angle**2 * length if angle > 1e-8 else 0.0)
    ctx.check(
        residual.shape == expected.shape and np.max(np.abs(residual - expected)) <= tol,
        lambda: f"{kind} residual {residual.tolist()} instead of {expected.tolist()} for {[p.tolist() for p in inputs]}",
    )
    if angle > 2.9:
        return
    rounding = 20 * eps / angle**3 * (1 + length) if angle > 1e-8 else 0.0
    if rounding > 0.3 * (1 + length):
        ctx.count("skipped_small_angle_rounding")
        return
    precision = 1e-6 if lab.X64 else 5e-3 * (1 + 0.1 * tol)
    for which, (J, f) in enumerate(zip(jacobians, derivatives)):
        D = ref.numdiff(f, g.ldim)
        amplification = 1 + np.max(np.abs(D))
        ctx.check(
            J.shape == D.shape and np.max(np.abs(J - D)) <= precision * amplification + rounding,
            lambda: f"{kind} Jacobian {which} is {J.tolist()} instead of {D.tolist()} for {[p.tolist() for p in inputs]}",
        )
        ctx.count("jacobians")


def prior(task, ctx):
    import jax
    import jaxlie
    import numpy as np

    import jaxfg

    from .. import lab, ref
    from .c02 import dense

    name = task["group"]
    g, group = ref.GROUPS[name], getattr(jaxlie, name)
    points = grid(name, task["tier"])
    if not lab.X64:
        points = points[::2]
    v = lab.var(name, 0)
    noise = jaxfg.noises.DiagonalGaussian(np.ones(g.ldim))

    @jax.jit
    def evaluate(graph, assignments):
        r = graph.compute_whitened_residual_vector(assignments)
        return r, graph.compute_whitened_residual_jacobian(assignments, r)

    for i, mu in enumerate(points):
        graph = jaxfg.core.StackedFactorGraph.make(
            [jaxfg.geometry.PriorFactor.make(variable=v, mu=group(np.asarray(mu)), noise_model=noise)]
        )
        for j, T in enumerate(points):
            case = dict(group=name, mu=i, T=j)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                ctx.state((name, "prior", i, j))
                r, A = evaluate(graph, lab.make_assignments({v: T}))
                relative = g.mul(g.inv(T), mu)
                judge(
                    ctx, g, "prior", (T, mu), np.asarray(r, float), [dense(A)], g.log(relative),
                    [lambda d: g.log(g.mul(g.inv(g.mul(T, g.exp(d))), mu))], relative,
                )
                ctx.transition()
                ctx.outcome(np.round(np.asarray(r), 5).tolist())
        ctx.trace()
    ctx.sample(dict(group=name, poses=len(points)))


def between(task, ctx):
    import jax
    import jaxlie
    import numpy as np

    import jaxfg

    from .. import lab, ref
    from .c02 import dense

    name = task["group"]
    g, group = ref.GROUPS[name], getattr(jaxlie, name)
    points = grid(name, task["tier"])
    count = 8 if task["tier"] == "quick" else 16
    points = points[:: max(1, len(points) // count)][:count]
    if not lab.X64:
        points = points[::2]
    a, b = lab.var(name, 0), lab.var(name, 1)
    noise = jaxfg.noises.DiagonalGaussian(np.ones(g.ldim))

    @jax.jit
    def evaluate(graph, assignments):
        r = graph.compute_whitened_residual_vector(assignments)
        return r, graph.compute_whitened_residual_jacobian(assignments, r)

    for i, z in enumerate(points):
        if name != "SO2" and i % 3 != task["share"]:
            continue
        graph = jaxfg.core.StackedFactorGraph.make(
            [
                jaxfg.geometry.BetweenFactor.make(
                    variable_T_world_a=a, variable_T_world_b=b, T_a_b=group(np.asarray(z)), noise_model=noise
                )
            ]
        )
        columns = graph.local_storage_layout.index_from_variable
        for (j, Ta), (k, Tb) in itertools.product(enumerate(points), repeat=2):
            case = dict(group=name, between=i, a=j, b=k)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                ctx.state((name, "between", i, j, k))
                r, A = evaluate(graph, lab.make_assignments({a: Ta, b: Tb}))
                A = dense(A)

                def error(Ta, Tb):
                    return g.mul(g.inv(g.mul(g.inv(Ta), Tb)), z)

                relative = error(Ta, Tb)
                judge(
                    ctx, g, "between", (Ta, Tb, z), np.asarray(r, float),
                    [A[:, columns[v] : columns[v] + g.ldim] for v in (a, b)], g.log(relative),
                    [
                        lambda d: g.log(error(g.mul(Ta, g.exp(d)), Tb)),
                        lambda d: g.log(error(Ta, g.mul(Tb, g.exp(d)))),
                    ],
                    relative,
                )
                ctx.transition()
                ctx.outcome(np.round(np.asarray(r), 5).tolist())
        ctx.trace()


def retract(task, ctx):
    import jax
    import numpy as np

    from .. import lab, ref

    name = task["group"]
    g, vt = ref.GROUPS[name], lab.VTYPES[name]
    points = grid(name, task["tier"])
    cls = vt.cls

    with ctx.case(dict(group=name, what="definition")):
        identity = vt.from_value(cls.get_default_value())
        ctx.check(g.same(identity, g.identity) < 1e-7, f"default value is {identity.tolist()}")
        ctx.check(cls.get_local_parameter_dim() == g.ldim and cls.get_parameter_dim() == g.dim, "wrong dimensions")
        for v, x in lab.read_assignments(
            __import__("jaxfg").core.VariableAssignments.make_from_defaults([lab.var(name, 0), lab.var(name, 1)]),
            [lab.var(name, 0), lab.var(name, 1)],
        ).items():
            ctx.check(g.same(x, g.identity) < 1e-7, f"assignments default to {x.tolist()}")

    step = jax.jit(lambda x, d: (cls.manifold_retract(x, d), cls.manifold_retract_jacobian(x)))
    deltas = [g.log(p) for p in points if g.angle(p) < 3.05]
    deltas += [np.eye(g.ldim)[i] * s for i in range(g.ldim) for s in (1e-7, 0.2, -3.0, 9.0)]
    directions = [np.eye(g.ldim)[0], np.eye(g.ldim)[-1], np.sin(1.0 + np.arange(g.ldim)), np.cos(np.arange(g.ldim)[::-1])]
    deltas += [s * d / np.linalg.norm(d) for d in directions for s in (1e-6, 1e-5, 1e-3, 0.01, 0.02, 0.05, 0.1, 0.5, 1.0, 3.5, 5.0, 8.0, 20.0)]
    for i, T in enumerate(points):
        case = dict(group=name, T=i)
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            tol = tolerance((T,), g)
            for d in deltas if lab.X64 else deltas[::3]:
                moved, J = step(vt.to_value(T), d)
                moved = vt.from_value(moved)
                expected = g.mul(T, g.exp(d))
                ctx.transition()
                ctx.check(
                    g.same(moved, expected) <= tol * (1 + np.max(np.abs(d))),
                    lambda: f"retraction of {T.tolist()} by {d.tolist()} is {moved.tolist()} instead of {expected.tolist()}",
                )
                ctx.check(g.off_manifold(moved) <= tol, lambda: f"{moved.tolist()} is off the manifold")
            (J,) = J
            D = ref.numdiff(lambda d: g.mul(T, g.exp(d)), g.ldim)
            J = np.asarray(J, float).reshape(g.dim, g.ldim)
            # Quaternions may flip their sign
            ctx.check(
                min(np.max(np.abs(J - D)), np.inf) <= (1e-7 if lab.X64 else 1e-3) * (1 + np.max(np.abs(T))),
                lambda: f"retraction Jacobian at {T.tolist()} is {J.tolist()} instead of {D.tolist()}",
            )
            ctx.state((name, "retract", i))
            ctx.outcome(np.round(moved, 4).tolist())
            ctx.trace()
    # Long sequences of retractions stay on the manifold
    for k in range(4):
        with ctx.case(dict(group=name, chain=k)):
            x, flat = vt.to_value(points[k]), points[k]
            n = 50 if task["tier"] == "quick" else 400
            for i in range(n):
                d = 0.4 * np.sin(1.0 + k + i + np.arange(g.ldim))
                x, _ = step(x, d)
                flat = g.mul(flat, g.exp(d))
                ctx.transition()
            got = vt.from_value(x)
            off = 1e-9 if lab.X64 else 1e-4
            ctx.check(g.off_manifold(got) < off, f"{got.tolist()} is off the manifold after {n} retractions")
            ctx.check(g.same(got, flat) < (1e-7 if lab.X64 else 2e-3) * (1 + np.max(np.abs(flat))), f"{got.tolist()} instead of {flat.tolist()}")
            ctx.trace()


def solve(task, ctx):
    """Loops of consistent relative poses: solvers find them, on the manifold."""
    import jaxlie
    import numpy as np

    import jaxfg

    from .. import lab, ref

    name, n = task["group"], task["poses"]
    g, vt = ref.GROUPS[name], lab.VTYPES[name]
    poses = [lab.var(name, i) for i in range(n)]
    solvers = [
        ("gn", jaxfg.solvers.GaussNewtonSolver(verbose=False)),
        ("lm", jaxfg.solvers.LevenbergMarquardtSolver(verbose=False)),
        ("dl", jaxfg.solvers.DoglegSolver(verbose=False)),
        ("fixed", jaxfg.solvers.FixedIterationGaussNewtonSolver(iterations=30, unroll=False, verbose=False)),
    ]
    truths = [{v: vt.points[(k + s) % 5] for k, v in enumerate(poses)} for s in range(4)]
    for s, truth in enumerate(truths):
        factors = [lab.prior(name, 0, noise="full", mu=truth[poses[0]])]
        for i in range(n):
            a, b = poses[i], poses[(i + 1) % n]
            factors.append(lab.between(name, i, (i + 1) % n, noise=("diag", "full")[i % 2], variant=i % 2,
                                       measured=g.mul(g.inv(truth[a]), truth[b])))
        graph = lab.make_graph(factors)
        for start in range(4):
            case = dict(group=name, poses=n, truth=s, start=start)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                initial = {v: vt.retract(truth[v], 0.25 * start * np.sin(start + k + np.arange(g.ldim))) for k, v in enumerate(poses)}
                for label, solver in solvers:
                    found = lab.read_assignments(graph.solve(lab.make_assignments(initial), solver=solver), poses)
                    ctx.transition()
                    for v in poses:
                        ctx.check(g.off_manifold(found[v]) < 1e-7, f"{label}: {found[v].tolist()} is off the manifold")
                        ctx.check(g.same(found[v], truth[v]) < 1e-4, f"{label}: {found[v].tolist()} instead of {truth[v].tolist()}")
                ctx.state((name, "solve", n, s, start))
                ctx.trace()
