"""Many numbers: graphs and assignments whose indices need more than 16 bits."""

from typing import Any, Tuple

import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp

import jaxfg

from . import lab

WIDTH = 50


@jdc.pytree_dataclass
class Wave(jaxfg.core.FactorBase):
    """Elementwise: sin(x + p)."""

    p: Any

    def compute_residual_vector(self, variable_values: Tuple[object]):
        return jnp.sin(variable_values[0] + self.p)

    compute_residual_vector.__override__ = True


@jdc.pytree_dataclass
class Link(jaxfg.core.FactorBase):
    """First entry of the one minus the last entry of the other, squared."""

    p: Any

    def compute_residual_vector(self, variable_values: Tuple[object, object]):
        a, b = variable_values
        return (a[:1] - b[-1:]) ** 2 + self.p

    compute_residual_vector.__override__ = True


class Wide:
    """A graph with `count` x 50 parameters and as many residuals, and a few links."""

    def __init__(self, count, reverse=False):
        vector = jaxfg.core.RealVectorVariable[WIDTH]
        self.vectors = [vector() for _ in range(count)]
        self.last = jaxfg.core.RealVectorVariable[3]()
        # Distinct, so that every residual and every value can be told apart
        self.x = {v: 0.3 + np.arange(i * WIDTH, (i + 1) * WIDTH) * (0.4 / (count * WIDTH)) for i, v in enumerate(self.vectors)}
        self.x[self.last] = np.array([0.25, 1.5, -2.0])
        self.p = {v: 0.1 * np.sin(1.0 + i) for i, v in enumerate(self.vectors)}
        unit = lambda n: jaxfg.noises.DiagonalGaussian(np.ones(n))
        waves = [Wave(variables=(v,), noise_model=unit(WIDTH), p=np.array(self.p[v])) for v in self.vectors]
        ends = [self.vectors[0], self.vectors[count // 2], self.vectors[-1], self.last]
        self.pairs = [(a, b) for a in ends for b in ends if a is not b]
        links = [Link(variables=p, noise_model=unit(1), p=np.array([10.0 + k])) for k, p in enumerate(self.pairs)]
        self.factors = links + waves[::-1] if reverse else waves + links
        self.variables = [self.last] + self.vectors[::-1] if reverse else self.vectors + [self.last]

    def residuals(self, x):
        """Unordered: (value, derivatives as (variable, entry, value))."""
        out = []
        for v in self.vectors:
            a = x[v] + self.p[v]
            out += [(s, ((v, k, c),)) for k, (s, c) in enumerate(zip(np.sin(a), np.cos(a)))]
        for k, (a, b) in enumerate(self.pairs):
            d = x[a][0] - x[b][-1]
            out.append((d**2 + 10.0 + k, ((a, 0, 2 * d), (b, len(x[b]) - 1, -2 * d))))
        return out


def graph_part(ctx, count, reverse, jacobian):
    """Residuals and, if wanted, their Jacobian."""
    wide = Wide(count, reverse)
    graph = jaxfg.core.StackedFactorGraph.make(wide.factors)
    ctx.check(set(graph.get_variables()) == set(wide.variables), "graph lists the wrong variables")
    assignments = jaxfg.core.VariableAssignments.make_from_dict({v: wide.x[v] for v in wide.variables[::-1]})
    cost, residual = graph.compute_cost(assignments)
    residual = np.asarray(residual)
    expected = wide.residuals(wide.x)
    values = np.array([e[0] for e in expected])
    ctx.transition()
    ctx.check(residual.shape == values.shape, f"{residual.shape} residuals instead of {values.shape}")
    # Any order of the residuals will do
    got, right = np.argsort(residual, kind="stable"), np.argsort(values, kind="stable")
    off = np.abs(residual[got] - values[right])
    ctx.check(np.max(off) < 1e-10, lambda: f"{np.sum(off > 1e-10)} of {len(off)} residuals are wrong")
    ctx.check(abs(cost - np.sum(values**2)) < 1e-8 * cost, f"cost {cost} instead of {np.sum(values**2)}")
    if jacobian:
        J = graph.compute_whitened_residual_jacobian(assignments, residual)
        rows, cols, entries = map(np.asarray, (J.coords.rows, J.coords.cols, J.values))
        dim = sum(len(x) for x in wide.x.values())
        ctx.check(tuple(J.shape) == (len(values), dim), f"Jacobian of shape {J.shape}")
        ctx.check(rows.min() >= 0 and rows.max() < J.shape[0] and cols.min() >= 0 and cols.max() < dim, "index out of range")
        import scipy.sparse

        made = scipy.sparse.csr_matrix((entries, (rows.astype(np.int64), cols.astype(np.int64))), shape=J.shape)
        where = graph.local_storage_layout.index_from_variable
        r, c, d = [], [], []
        for k, at in zip(right, got):
            for v, entry, value in expected[k][1]:
                r.append(at)
                c.append(where[v] + entry)
                d.append(value)
        meant = scipy.sparse.csr_matrix((d, (r, c)), shape=J.shape)
        off = abs(made - meant)
        ctx.check(off.max() < 1e-6, lambda: f"{(off > 1e-6).sum()} entries of the Jacobian are wrong")
    ctx.state(("wide", count, reverse))
    ctx.trace()
    ctx.outcome((count, float(np.round(cost, 6))))


def assignments_part(ctx, count):
    """Assignments are made, read, changed, rearranged and retracted."""
    wide = Wide(count)
    VA, Layout = jaxfg.core.VariableAssignments, jaxfg.core.StorageLayout
    vectors = wide.vectors
    ends = vectors[:2] + vectors[count // 2 : count // 2 + 2] + vectors[-2:] + [wide.last]

    def verify(assignments, expected, what):
        ctx.transition()
        ctx.check(set(assignments.get_variables()) == set(wide.variables), f"{what}: wrong variables")
        listed = [v for v in assignments.get_variables() if type(v) is type(vectors[0])]
        stacked = np.asarray(assignments.get_stacked_value(type(vectors[0])))
        ctx.check(np.allclose(stacked, [expected[v] for v in listed], rtol=0, atol=1e-12), f"{what}: wrong values")
        for v in ends:
            got = np.asarray(assignments.get_value(v))
            ctx.check(np.allclose(got, expected[v], rtol=0, atol=1e-12), lambda: f"{what}: reads {got.tolist()} instead of {expected[v].tolist()}")

    made = VA.make_from_dict(wide.x)
    verify(made, wide.x, "make_from_dict")
    other = Layout.make(vectors[1::2][::-1] + [wide.last] + vectors[::2])
    moved = made.update_storage_layout(other)
    verify(moved, wide.x, "update_storage_layout")
    verify(moved.update_storage_layout(made.storage_layout), wide.x, "update_storage_layout back")
    for v in ends:
        value = np.arange(len(wide.x[v])) + 0.5
        verify(moved.set_value(v, value), {**wide.x, v: value}, "set_value")
    for order in (wide.variables, wide.variables[::-1]):
        layout = Layout.make(order, local=True)
        deltas = {v: np.cos(1.0 + k + np.arange(len(wide.x[v]))) for k, v in enumerate(wide.variables)}
        storage = np.zeros(layout.dim)
        for v in order:
            storage[layout.index_from_variable[v] :][: len(deltas[v])] = deltas[v]
        result = made.manifold_retract(VA(storage=storage, storage_layout=layout))
        verify(result, {v: wide.x[v] + deltas[v] for v in wide.variables}, "manifold_retract")
    ctx.state(("wide", count))
    ctx.trace()
    ctx.outcome(("wide", count))
