"""C30: numeric types of inputs do not change results."""

import itertools

# Setting: value. All values are exact in every type.
COMMON = dict(
    max_iterations=3, cost_tolerance=0.25, gradient_tolerance=0.5, gradient_tolerance_start_step=1, parameter_tolerance=0.125
)
SETTINGS = {
    "gn": COMMON,
    "lm": dict(COMMON, lambda_initial=4, lambda_factor=8, lambda_min=2, lambda_max=16, step_quality_min=0.5),
    "dogleg": dict(COMMON, radius_initial=2, step_quality_min=0.5),
    "fixed": dict(iterations=3),
    "loop": dict(iterations=3),
    "cg": dict(tolerance=0.25),
    "inexact": dict(inexact_step_eta=0.5),
}
INTEGER = {"max_iterations", "gradient_tolerance_start_step", "iterations"}
NUMBERS = ("int", "float", "np.float32", "np.float64", "np.int32", "np.int64", "array.float32", "array.float64", "jnp.float32", "jnp.float64", "jnp.int32")
TYPES = ("int32", "int64", "float32", "float64")
SOLVERS = ("gn", "lm", "dogleg", "fixed", "loop")
BOUNDS = {
    "quick": "each setting of each nonlinear solver and of the conjugate gradient solvers x 11 forms of a number (Python, NumPy, JAX; integers, single and double precision), "
    "in both precisions of JAX; parameters, noise and values each in 4 types (all 64 mixes) x 5 solvers x 2 linear solvers; costs, residuals, Jacobians and retractions for all 64 mixes; 4 constructions of noise models from 6 forms of arrays, plain and robust with 11 forms of thresholds; "
    "assignments of 3 variables in all 64 mixes of types, each replaced by values in 8 forms and read back, in both precisions of JAX",
    "thorough": "also all pairs of settings of Levenberg-Marquardt and dogleg in single precision types",
}
ASSUMPTIONS = ["half precision and complex numbers are outside the contract; iteration counts of the fixed solver are hashable integers"]


def tasks(tier):
    cases = []
    for kind, settings in SETTINGS.items():
        for name, value in settings.items():
            for form in NUMBERS:
                integer = "int" in form
                if (name in INTEGER) != integer and (name in INTEGER or value != int(value)):
                    continue
                if name == "iterations" and not form.startswith(("int", "np.")):
                    continue
                cases.append([kind, {name: form}])
    if tier == "thorough":
        for kind in ("lm", "dogleg"):
            for a, b in itertools.combinations([n for n in SETTINGS[kind] if n not in INTEGER], 2):
                cases.append([kind, {a: "np.float32", b: "jnp.float64"}])
                cases.append([kind, {a: "array.float64", b: "array.float32"}])
    out = [dict(config=dict(x64=x64), part="settings", cases=cases[i::16]) for x64 in (True, False) for i in range(16)]
    out += [dict(config=dict(x64=True), part="types", parameters=p, noise=n) for p in TYPES for n in TYPES]
    out += [dict(config=dict(x64=True), part="poses", parameters=p, solver=s) for p in TYPES[2:] for s in SOLVERS]
    out += [dict(config=dict(x64=x64), part="assigned", first=t) for x64 in (True, False) for t in TYPES]
    out += [dict(config=dict(x64=x64), part="noise", numbers=t) for x64 in (True, False) for t in TYPES + ("list", "jnp")]
    return out


def noise(task, ctx):
    """Noise models from numbers that are exact in every type."""
    import numpy as np
    from jax import numpy as jnp

    import jaxfg

    from .. import lab

    form = task["numbers"]
    given = dict(list=lambda x: x.tolist(), jnp=jnp.asarray).get(form, lambda x: x.astype(form))
    N = jaxfg.noises
    full = np.array([[2, 1, 0], [0, 3, 1], [0, 0, 5]])
    covariance = np.array([[5, 2, 1], [2, 7, 0], [1, 0, 3]])
    d = np.array([2, 3, 7])
    root = np.linalg.inv(np.linalg.cholesky(covariance))
    models = {
        "diagonal": (lambda: N.DiagonalGaussian(given(d)), np.diag(d)),
        "variances": (lambda: N.DiagonalGaussian.make_from_covariance(given(d)), np.diag(1 / np.sqrt(d))),
        "full": (lambda: N.Gaussian(given(full)), full),
        "covariance": (lambda: N.Gaussian.make_from_covariance(given(covariance)), root),
    }
    for name, thresholds in itertools.product(models, (None, 1, 30)):
        if form == "list" and name != "variances":  # Lists are accepted here alone
            continue
        for kind, delta in [("none", None)] if thresholds is None else [(k, number(k, thresholds)) for k in NUMBERS]:
            case = [form, name, kind, thresholds]
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                make, S = models[name]
                model = make() if delta is None else N.HuberWrapper(make(), delta)
                r, J = np.array([1, -4, 2]), np.array([[1, 2], [0, -3], [5, 1]])
                w = S @ r
                weight = 1.0 if delta is None or np.linalg.norm(w) < thresholds else np.sqrt(thresholds / np.linalg.norm(w))
                for kind_r in ("float64", "float32", "int32"):
                    got = np.asarray(model.whiten_residual_vector(jnp.asarray(r.astype(kind_r))), float)
                    got_J = np.asarray(model.whiten_jacobian(jnp.asarray(J.astype(kind_r)), jnp.asarray(weight * w)), float)
                    ctx.transition(2)
                    inner = lambda a: a.T @ a
                    ctx.check(lab.close(got @ got, (weight * w) @ (weight * w), 1e-5), lambda: f"{kind_r}: whitened to {got.tolist()}, expected norm {np.linalg.norm(weight * w)}")
                    ctx.check(lab.close(inner(got_J), inner(weight * (S @ J)), 1e-5), lambda: f"{kind_r}: Jacobian whitened to {got_J.tolist()}")
                v = lab.var("R2", 3)
                factor = lab._Linear(variables=(v,), noise_model=model, coefficients=(J,), offset=np.zeros(3))
                graph = jaxfg.core.StackedFactorGraph.make([factor, factor])
                at = jaxfg.core.VariableAssignments.make_from_dict({v: jnp.array([1.0, -1.0])})
                e = S @ (J @ np.array([1.0, -1.0]))
                n = np.linalg.norm(e)
                expected = 2 * (n * n if delta is None or n < thresholds else thresholds * n)
                cost = float(graph.compute_cost(at)[0])
                ctx.check(lab.close(cost, expected, 1e-5), f"cost {cost} instead of {expected}")
                if delta is None:
                    nll = float(graph.compute_joint_nll(at))
                    expected -= 2 * 2 * np.linalg.slogdet(S)[1]
                    ctx.check(lab.close(nll, expected, 1e-5), f"negative log-likelihood {nll} instead of {expected}")
                ctx.state(tuple(case))
                ctx.trace()
                ctx.outcome(round(cost, 4))


def assigned(task, ctx):
    """Values in one type replace and stand beside values in other types."""
    import numpy as np
    from jax import numpy as jnp

    import jaxfg

    from .. import lab

    variables = [lab.var("R2", 0), lab.var("R2", 1), lab.var("R1", 0)]
    numbers = [[1, -2], [3, 4], [5]]
    for mix in itertools.product([task["first"]], TYPES, TYPES):
        # Halves tell whether a type without fractions was used on the way
        held = [np.array(x, t) + (0 if "int" in t else np.asarray(0.5, t)) for x, t in zip(numbers, mix)]
        given = jaxfg.core.VariableAssignments.make_from_dict(dict(zip(variables, held)))
        for k, form, xp in itertools.product(range(3), TYPES, (np, jnp)):
            case = [mix, k, form, xp.__name__]
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                new = xp.asarray(np.array(numbers[k]) + (7 if "int" in form else 7.25), dtype=form)
                expected = [np.asarray(new if i == k else x, float) for i, x in enumerate(held)]
                changed = given.set_value(variables[k], new)
                layout = jaxfg.core.StorageLayout.make(variables[::-1])
                for what, values in (
                    ("changed", changed),
                    ("in another layout", changed.update_storage_layout(layout)),
                    ("before", given),
                ):
                    for i, v in enumerate(variables):
                        got = np.asarray(values.get_value(v))
                        wanted = np.asarray(held[i], float) if what == "before" else expected[i]
                        ctx.check(np.array_equal(got, wanted), lambda: f"{what}: value {i} is {got.tolist()} instead of {wanted.tolist()}")
                        ctx.transition()
                got = np.asarray(changed.get_stacked_value(type(variables[0])))
                ctx.check(np.array_equal(np.sort(got, axis=0), np.sort(expected[:2], axis=0)), lambda: f"stacked values are {got.tolist()}")
                ctx.state(str(case))
                ctx.outcome([x.tolist() for x in expected])
                ctx.trace()


def run(task, ctx):
    globals()[task["part"]](task, ctx)


def number(form, value):
    import numpy as np
    from jax import numpy as jnp

    where, _, name = form.rpartition(".")
    if not where:
        return dict(int=int, float=float)[name](value)
    if where == "array":
        return np.array(value, dtype=name)
    return getattr(np if where == "np" else jnp, name)(value)


def solver(kind, **settings):
    import jaxfg

    S = jaxfg.solvers
    if kind in ("cg", "inexact"):
        linear = {"cg": jaxfg.sparse.ConjugateGradientSolver, "inexact": jaxfg.sparse.InexactStepConjugateGradientSolver}[kind]
        return S.GaussNewtonSolver(verbose=False, max_iterations=2, linear_solver=linear(**settings))
    if kind in ("fixed", "loop"):
        return S.FixedIterationGaussNewtonSolver(verbose=False, unroll=kind == "fixed", **settings)
    made = {"gn": S.GaussNewtonSolver, "lm": S.LevenbergMarquardtSolver, "dogleg": S.DoglegSolver}[kind]
    return made(verbose=False, **{**dict(max_iterations=4, cost_tolerance=0.0, parameter_tolerance=0.0), **settings})


def settings(task, ctx):
    """The same number in another type gives the same solution."""
    import jax
    import numpy as np

    from .. import lab

    double = task["config"]["x64"]
    for kind, given in task["cases"]:
        if not ctx.wanted([kind, given]):
            continue
        with ctx.case([kind, given]):
            factors = [
                lab.generic(("R2",), (0,), res_dim=2, variant=0),
                lab.generic(("R2", "R1"), (0, 0), res_dim=3, variant=1),
                lab.generic(("R1",), (0,), res_dim=1, variant=2),
            ]
            variables = lab.variables_of(factors)
            graph = lab.make_graph(factors)
            initial = lab.make_assignments(lab.make_values(variables, 1), variables)
            values = {name: SETTINGS[kind][name] for name in given}
            expected = graph.solve(initial, solver(kind, **values))
            obtained = graph.solve(initial, solver(kind, **{name: number(form, values[name]) for name, form in given.items()}))
            ctx.transition(2)
            a, b = np.asarray(expected.storage), np.asarray(obtained.storage)
            ctx.check(np.all(np.isfinite(a)), "reference run is not finite")
            ctx.check(lab.close(a, b, 1e-9 if double else 2e-3), lambda: f"{b.tolist()} instead of {a.tolist()}")
            ctx.state((kind, tuple(sorted(given.items())), double))
            ctx.trace()
            ctx.outcome(np.round(a, 3).tolist())


def types(task, ctx):
    """Linear graph with small integers as parameters: exact in every type."""
    import numpy as np
    from jax import numpy as jnp

    import jaxfg

    from .. import lab
    from .c02 import dense

    p, n = task["parameters"], task["noise"]
    A, B = np.array([[2, 1], [0, 1]]), np.array([[1, 0], [1, -3]])
    C, z, t = np.array([[1, 2], [3, -1]]), np.array([3, -5]), np.array([4, 1])
    w = np.array([2, 1])
    J = np.block([[np.diag(w) @ A, np.zeros((2, 2))], [np.diag(w) @ B, np.diag(w) @ C]]).astype(float)
    target = np.concatenate([w * z, w * t]).astype(float)
    optimum = np.linalg.solve(J, target)
    start = np.array([1, -2, 2, 5])
    for v in TYPES:
        case = [p, n, v]
        x, y = lab.var("R2", 0), lab.var("R2", 1)
        noise = lambda: jaxfg.noises.DiagonalGaussian(w.astype(n))
        made = lambda vs, cs, b: lab._Linear(variables=vs, noise_model=noise(), coefficients=tuple(c.astype(p) for c in cs), offset=b.astype(p))
        graph = jaxfg.core.StackedFactorGraph.make([made((x,), (A,), z), made((x, y), (B, C), t)])
        initial = jaxfg.core.VariableAssignments.make_from_dict({x: jnp.asarray(start[:2].astype(v)), y: jnp.asarray(start[2:].astype(v))})
        at = [graph.local_storage_layout.index_from_variable[u] for u in (x, y)]
        columns = [at[0], at[0] + 1, at[1], at[1] + 1]
        residual = J @ start - target
        if ctx.wanted(case + ["evaluate"]):
            with ctx.case(case + ["evaluate"]):
                cost, r = graph.compute_cost(initial)
                ctx.check(lab.close(cost, residual @ residual, 1e-6), f"cost {float(cost)} instead of {residual @ residual}")
                # Factors of different numbers of variables are in different groups, of any order
                order = [0, 1, 2, 3] if lab.close(r, residual, 1e-6) else [2, 3, 0, 1]
                ctx.check(lab.close(r, residual[order], 1e-6), lambda: f"residual {np.asarray(r).tolist()} instead of {residual.tolist()}")
                got = dense(graph.compute_whitened_residual_jacobian(initial, r))[:, columns]
                ctx.check(lab.close(got, J[order], 1e-6), lambda: f"Jacobian {got.tolist()} instead of {J[order].tolist()}")
                delta = jaxfg.core.VariableAssignments(storage=jnp.arange(4) + 0.5, storage_layout=graph.local_storage_layout)
                moved = initial.manifold_retract(delta)
                for u, s, k in ((x, start[:2], at[0]), (y, start[2:], at[1])):
                    m = np.asarray(moved.get_value(u))
                    ctx.check(lab.close(m, s + np.arange(k, k + 2) + 0.5, 1e-6), lambda: f"retracted to {m.tolist()}")
                ctx.transition(4)
                ctx.state((p, n, v, "evaluate"))
                ctx.trace()
        for kind, linear in itertools.product(SOLVERS, ("cholmod", "cg")):
            if not ctx.wanted(case + [kind, linear]):
                continue
            with ctx.case(case + [kind, linear]):
                used = dict(cholmod=jaxfg.sparse.CholmodSolver, cg=lambda: jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-10))[linear]()
                limits = dict(iterations=12) if kind in ("fixed", "loop") else dict(max_iterations=60, cost_tolerance=1e-9)
                solution = graph.solve(initial, solver(kind, linear_solver=used, **limits))
                got = np.concatenate([np.asarray(solution.get_value(u), float) for u in (x, y)])
                ctx.transition()
                ctx.check(lab.close(got, optimum, 2e-3), lambda: f"{got.tolist()} instead of {optimum.tolist()}")
                ctx.state((p, n, v, kind, linear))
                ctx.trace()
                ctx.outcome(np.round(got, 2).tolist())


def poses(task, ctx):
    """Pose graphs with parameters, noise and values in two precisions."""
    import numpy as np
    from jax import numpy as jnp

    import jaxfg
    import jaxlie

    from .. import lab

    p = task["parameters"]
    for n, v, kind, linear in itertools.product(TYPES[2:], TYPES[2:], [task["solver"]], ("cholmod", "cg")):
        case = [p, n, v, kind, linear]
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            pose = lambda angle, x, y, dtype: jaxlie.SE2(jnp.asarray(np.array([np.cos(angle), np.sin(angle), x, y]), dtype=dtype))
            a, b = lab.var("SE2", 0), lab.var("SE2", 1)
            noise = lambda: jaxfg.noises.DiagonalGaussian(np.array([1.0, 2.0, 1.0], dtype=n))
            graph = jaxfg.core.StackedFactorGraph.make(
                [jaxfg.geometry.PriorFactor.make(a, pose(0.5, 1, 2, p), noise()), jaxfg.geometry.BetweenFactor.make(a, b, pose(np.pi / 2, 2, 0, p), noise())]
            )
            initial = jaxfg.core.VariableAssignments.make_from_dict({a: pose(0.25, 0, 1, v), b: pose(1.5, 1, 3, v)})
            used = dict(cholmod=jaxfg.sparse.CholmodSolver, cg=lambda: jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-10))[linear]()
            limits = dict(iterations=12) if kind in ("fixed", "loop") else dict(max_iterations=60, cost_tolerance=1e-9)
            solution = graph.solve(initial, solver(kind, linear_solver=used, **limits))
            got = np.concatenate([np.asarray(solution.get_value(u).unit_complex_xy, float) for u in (a, b)])
            end = 0.5 + np.pi / 2
            expected = np.array([np.cos(0.5), np.sin(0.5), 1, 2, np.cos(end), np.sin(end), 1 + 2 * np.cos(0.5), 2 + 2 * np.sin(0.5)])
            ctx.transition()
            ctx.check(lab.close(got, expected, 2e-3), lambda: f"{got.tolist()} instead of {expected.tolist()}")
            ctx.state(tuple(case))
            ctx.trace()
            ctx.outcome(np.round(got, 2).tolist())
