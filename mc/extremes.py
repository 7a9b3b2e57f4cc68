"""Very large, very small and non-finite numbers, in values, parameters, noise and deltas.

Comparisons are relative: a residual of 1e-12 has to be right to 1e-8 of itself."""

import itertools

import numpy as np

SPECIAL = (0.0, -0.0, 1e-300, 1e-12, -1e-9, 1e-6, 3e-4, 1.0, -250.0, 3e4, -2e6, 1e9, -1e12, 1e100, float("inf"), float("-inf"), float("nan"))
COEFFICIENTS = (1e-12, -1e-9, 1e-7, 1e-4, 1.0, 300.0, -2e5, 1e8, 1e12)
PRECISIONS = (1e-8, 1e-3, 1.0, 1e4, 1e9)


def same(a, b, tol=1e-9):
    """Equal up to a relative error; NaN is equal to NaN."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)))))


def _scaled(noise, w, v, coefficient, target):
    import jax_dataclasses as jdc  # noqa: F401

    import jaxfg

    model = {
        "diag": lambda: jaxfg.noises.DiagonalGaussian(np.array([w, w])),
        "full": lambda: jaxfg.noises.Gaussian(np.eye(2) * w),
        "diagcov": lambda: jaxfg.noises.DiagonalGaussian.make_from_covariance(np.full(2, w**-2.0)),
        "fullcov": lambda: jaxfg.noises.Gaussian.make_from_covariance(np.eye(2) * w**-2.0),
    }[noise]()
    return _factor_class()(variables=(v,), noise_model=model, c=np.array(coefficient), b=np.array(target))


_classes = []


def _factor_class():
    if not _classes:
        from typing import Any, Tuple

        import jax
        import jax_dataclasses as jdc

        import jaxfg

        @jdc.pytree_dataclass
        class Scaled(jaxfg.core.FactorBase):
            c: Any
            b: Any

            def compute_residual_vector(self, variable_values: Tuple[jax.Array]):
                (x,) = variable_values
                return self.c * x - self.b

            compute_residual_vector.__override__ = True

        _classes.append(Scaled)
    return _classes[0]


def residual_part(ctx, values):
    """Two factors of one group and one of another, at every pair of special values."""
    import jaxfg

    R2 = jaxfg.core.RealVectorVariable[2]
    a, b = R2(), R2()
    for first, second in values:
        with ctx.case(dict(values=[repr(first), repr(second)])):
            for w, target, noise in ((1.0, 0.0, "diag"), (1e3, 0.5, "full")):
                factors = [_scaled(noise, w, a, 1.0, 0.0), _scaled(noise, 2.0 * w, b, 1.0, 0.0), _scaled(noise, w, b, 3.0, np.array([0.0, target]))]
                graph = jaxfg.core.StackedFactorGraph.make(factors)
                x, y = np.array([first, 0.25]), np.array([second, -0.5])
                assignments = jaxfg.core.VariableAssignments.make_from_dict({a: x, b: y})
                cost, residual = graph.compute_cost(assignments)
                ctx.transition()
                with np.errstate(all="ignore"):
                    blocks = [w * x, 2.0 * w * y, w * (3.0 * y - np.array([0.0, target]))]
                    if noise == "full":
                        # A full matrix adds zero times the other component
                        blocks = [np.where(np.isfinite(z[::-1]), z, np.nan) for z in blocks]
                    total = sum(np.sum(z**2) for z in blocks)
                got = np.asarray(residual).reshape(-1, 2)
                ctx.check(got.shape == (3, 2), lambda: f"residual {got.tolist()}")
                ctx.check(
                    any(all(same(got[i], blocks[j]) for i, j in enumerate(p)) for p in itertools.permutations(range(3))),
                    lambda: f"residual {got.tolist()} instead of {[z.tolist() for z in blocks]}",
                )
                ctx.check(same(cost, total), lambda: f"cost {float(cost)} instead of {total} of {got.tolist()}")
                ctx.outcome((repr(got.tolist()),))
            ctx.state((repr(first), repr(second)))
            ctx.trace()


def jacobian_part(ctx, cases):
    """Derivatives of every magnitude: coefficients times precisions, two to a group."""
    import jaxfg

    from .checks.c02 import dense

    R2 = jaxfg.core.RealVectorVariable[2]
    a, b = R2(), R2()
    for noise, w, c, d in cases:
        case = dict(noise=noise, precision=w, coefficients=[c, d])
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            factors = [_scaled(noise, w, a, c, 0.0), _scaled(noise, 1.0, b, d, 0.0)]
            graph = jaxfg.core.StackedFactorGraph.make(factors)
            for x in (np.zeros(2), np.array([1.5, -2e5])):
                assignments = jaxfg.core.VariableAssignments.make_from_dict({a: x, b: x})
                residual = graph.compute_whitened_residual_vector(assignments)
                J = dense(graph.compute_whitened_residual_jacobian(assignments, residual))
                ctx.transition()
                at = {v: graph.local_storage_layout.index_from_variable[v] for v in (a, b)}
                blocks = []
                for v, k in ((a, w * c), (b, d)):
                    block = np.zeros((2, 4))
                    block[:, at[v] : at[v] + 2] = np.eye(2) * k
                    blocks.append(block)
                ctx.check(
                    any(same(J, np.concatenate(p)) for p in (blocks, blocks[::-1])),
                    lambda: f"Jacobian {J.tolist()} instead of {np.concatenate(blocks).tolist()}",
                )
            ctx.state((noise, w, c, d))
            ctx.trace()
            ctx.outcome((w * c, d))


def values_part(ctx, name):
    """Special numbers in every component of a value: stored, read and moved unchanged."""
    import jaxfg

    from . import lab

    VA = jaxfg.core.VariableAssignments
    vt = lab.VTYPES[name]
    u, v, other = lab.var(name, 0), lab.var(name, 1), lab.var("R1" if name != "R1" else "R2", 0)
    rest = lab.vtype_of(other)
    variables = (u, v, other)
    exact = lambda x, y: np.array_equal(x, y, equal_nan=True)

    def verify(obj, expected, what):
        ctx.transition()
        stacked = [np.asarray(l, float) for l in vt._leaves(obj.get_stacked_value(vt.cls))]
        members = [w for w in obj.get_variables() if type(w) is vt.cls]
        for w in variables:
            got = lab.vtype_of(w).from_value(obj.get_value(w))
            ctx.check(exact(got, expected[w]), lambda: f"{what}: {got.tolist()} instead of {expected[w].tolist()}")
        for i, w in enumerate(members):
            got = np.concatenate([l[i].reshape(-1) for l in stacked])
            ctx.check(exact(got, expected[w]), lambda: f"{what}: stacked {got.tolist()} instead of {expected[w].tolist()}")

    for number in SPECIAL:
        for k in range(-1, vt.dim):
            case = dict(type=name, number=repr(number), component=k)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                x = np.full(vt.dim, number) if k < 0 else np.array(vt.points[1])
                x[max(k, 0)] = number
                y = np.array(vt.points[0])
                value = vt.to_value(x)
                flat = {u: x, v: y, other: np.array(rest.points[2])}
                obj = VA.make_from_dict({w: lab.vtype_of(w).to_value(flat[w]) for w in variables})
                verify(obj, flat, "make_from_dict")
                verify(obj.update_storage_layout(jaxfg.core.StorageLayout.make([other, v, u])), flat, "update_storage_layout")
                verify(VA.make_from_dict(obj.as_dict()), flat, "dict round trip")
                partial = VA.make_from_partial_dict(variables, {v: value})
                expected = {u: np.asarray(vt.default), v: x, other: np.asarray(rest.default)}
                verify(partial, expected, "make_from_partial_dict")
                verify(partial.set_value(u, value), {**expected, u: x}, "set_value")
                verify(partial, expected, "re-read")
                ctx.state((name, repr(number), k))
                ctx.trace()
                ctx.outcome((name, repr(number), k))


def deltas_part(ctx, name):
    """Deltas of every magnitude, of one variable or of both, next to a variable that stays."""
    import jaxfg

    from . import lab

    vt = lab.VTYPES[name]
    u, v, other = lab.var(name, 0), lab.var(name, 1), lab.var("R1" if name != "R1" else "R2", 0)
    rest = lab.vtype_of(other)
    vectors = name in ("S", "R1", "R2", "R3", "B", "E", "P", "D", "M")
    scales = (1e-12, 1e-9, 1e-7, 1e-5, 1e-3) + ((40.0, 1e3, 2e4, 1e6, 1e9, 1e12) if vectors else (2.0, 5.0, 9.0))
    for scale, both, start in itertools.product(scales, (False, True), ("default", "zero", "point")):
        case = dict(type=name, scale=scale, both=both, start=start)
        if start == "zero" and not vectors or not ctx.wanted(case):
            continue
        with ctx.case(case):
            x = {"default": np.asarray(vt.default), "zero": np.zeros(vt.dim), "point": vt.points[3]}[start]
            flat = {u: x, v: np.asarray(vt.points[1]), other: np.zeros(rest.dim)}
            delta = {
                u: scale * np.cos(1.0 + np.arange(vt.ldim)),
                v: scale * np.sin(1.0 + np.arange(vt.ldim)) if both else np.zeros(vt.ldim),
                other: np.zeros(rest.ldim) if not both else np.full(rest.ldim, scale),
            }
            layout = jaxfg.core.StorageLayout.make([other, v, u], local=True)
            storage = np.zeros(layout.dim)
            for w, d in delta.items():
                at = layout.index_from_variable[w]
                storage[at : at + len(d)] = d
            moved = lab.make_assignments(flat, [u, v, other]).manifold_retract(jaxfg.core.VariableAssignments(storage=storage, storage_layout=layout))
            ctx.transition()
            for w in (u, v, other):
                t = lab.vtype_of(w)
                got, expected = t.from_value(moved.get_value(w)), t.retract(flat[w], delta[w])
                # Rounding of the values, and of the displacement
                # (jaxlie approximates the exponential map of tiny rotations)
                relative = 1e-4 if name in ("SE2", "SE3", "SO2", "SO3") else 1e-9
                tol = 4e-15 * max(1.0, np.max(np.abs(flat[w]))) * (np.abs(flat[w]) > 0) + relative * np.abs(delta[w]).max()
                if w is other:
                    tol = 1e-12 * np.abs(expected)
                ctx.check(
                    np.all(np.abs(got - expected) <= tol),
                    lambda: f"moved from {flat[w].tolist()} by {delta[w].tolist()} to {got.tolist()} instead of {expected.tolist()}",
                )
            ctx.state((name, scale, both, start))
            ctx.trace()
            ctx.outcome(np.asarray(moved.storage).tolist())


_own_classes = []


def _own_class():
    if not _own_classes:
        from typing import Any, Tuple

        import jax
        import jax_dataclasses as jdc
        from jax import numpy as jnp

        import jaxfg

        @jdc.pytree_dataclass
        class Paraboloid(jaxfg.core.FactorBase):
            """Squared distances. They are differentiable everywhere, but automatic
            differentiation fails at the target, which is why users supply derivatives."""

            target: Any

            def compute_residual_vector(self, variable_values: Tuple[jax.Array, jax.Array]):
                x, y = variable_values
                return jnp.stack([jnp.sqrt(jnp.sum((x - self.target) ** 2)) ** 2 + y[0], jnp.sqrt(y[0] ** 4)])

            compute_residual_vector.__override__ = True

            def compute_residual_jacobians(self, variable_values: Tuple[jax.Array, jax.Array]):
                x, y = variable_values
                return (
                    jnp.stack([2.0 * (x - self.target), jnp.zeros_like(x)]),
                    jnp.stack([jnp.ones_like(y), 2.0 * y]),
                )

            compute_residual_jacobians.__override__ = True

        _own_classes.append(Paraboloid)
    return _own_classes[0]


def own_part(ctx, counts):
    """Factors that supply their own derivatives, at points where only those are defined."""
    import jaxfg

    from .checks.c02 import dense

    R1, R2 = jaxfg.core.RealVectorVariable[1], jaxfg.core.RealVectorVariable[2]
    variables = [(R2(), R1()) for _ in range(max(counts))]
    points = ((0.0, 0.0), (0.5, 0.0), (0.0, -1.5), (0.5, 2.0))  # Distances from the targets
    for n in counts:
        for choice in itertools.product(points, repeat=min(n, 2)):
            case = dict(factors=n, points=choice)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                targets = [np.array([1.0 + i, -0.5 * i]) for i in range(n)]
                weights = [np.array([1.0 + i, 3.0]) for i in range(n)]
                graph = jaxfg.core.StackedFactorGraph.make(
                    [
                        _own_class()(variables=v, noise_model=jaxfg.noises.DiagonalGaussian(w), target=t)
                        for v, w, t in zip(variables, weights, targets)
                    ]
                )
                values, blocks = {}, []
                at = graph.local_storage_layout.index_from_variable
                for i, ((u, v), w, t) in enumerate(zip(variables, weights, targets)):
                    dx, y = choice[i % len(choice)]
                    values[u], values[v] = t + np.array([dx, 0.0]), np.array([y])
                    block = np.zeros((2, 3 * n))
                    block[0, at[u] : at[u] + 2] = (2.0 * dx, 0.0)
                    block[:, at[v]] = (1.0, 2.0 * y)
                    blocks.append(w[:, None] * block)
                assignments = jaxfg.core.VariableAssignments.make_from_dict(values)
                residual = graph.compute_whitened_residual_vector(assignments)
                J = dense(graph.compute_whitened_residual_jacobian(assignments, residual))
                ctx.transition()
                rows = [J[2 * i : 2 * i + 2] for i in range(n)]
                ctx.check(
                    any(all(same(a, b) for a, b in zip(rows, p)) for p in itertools.permutations(blocks)),
                    lambda: f"Jacobian {J.tolist()} instead of {np.concatenate(blocks).tolist()}",
                )
                ctx.state((n, choice))
                ctx.trace()
                ctx.outcome(repr(J.tolist()))
