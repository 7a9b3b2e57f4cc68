"""Classes that share module and name but not their meaning, as in notebooks and factories."""

import functools
from typing import Any, NamedTuple, Tuple

import numpy as np

# (factor version, variable version, noise version); variable versions from 10 on: one class for all problems
LETTERS = {" ".join(map(str, l)): l for l in ((0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 1), (4, 0, 0), (0, 1, 0), (2, 1, 1), (0, 2, 0), (1, 2, 1), (3, 3, 0), (1, 10, 0), (2, 10, 0), (3, 10, 1))}
DIM = (2, 3, 2, 2)
DEFAULT = (0.0, 1.0, -0.5, 0.25)
STRETCH = (1.0, 1.0, 2.0, 1.0)
GAIN = (1.0, 3.0)
DIAGONAL = (2.0, 2.0, 2.0, -1.5, 2.5)
OTHER = (0.5, 0.5, 0.5, 1.0, 0.3)


class Pair(NamedTuple):
    a: object
    b: object


class Swapped(NamedTuple):
    b: object
    a: object


def _own(function):
    function.__override__ = True
    return function


def variable_type(jaxfg, version):
    from jax import numpy as jnp

    if STRETCH[version] == 1.0:

        class PointVariable(jaxfg.core.VariableBase):
            @classmethod
            def get_default_value(cls):
                return jnp.full(DIM[version], DEFAULT[version])

            get_default_value.__func__.__override__ = True

    else:

        class PointVariable(jaxfg.core.VariableBase):
            @classmethod
            def get_default_value(cls):
                return jnp.full(DIM[version], DEFAULT[version])

            @classmethod
            def manifold_retract(cls, x, local_delta):
                return x + STRETCH[version] * local_delta

            get_default_value.__func__.__override__ = True
            manifold_retract.__func__.__override__ = True

    PointVariable.__qualname__ = "PointVariable"
    return PointVariable


def noise_type(jaxfg, version):
    import jax_dataclasses as jdc

    @jdc.pytree_dataclass
    class Weight(jaxfg.noises.NoiseModelBase):
        size: jdc.Static[int]
        gain: Any = 1.0

        @_own
        def get_residual_dim(self):
            return self.size

        @_own
        def whiten_residual_vector(self, residual_vector):
            return self.gain * GAIN[version] * residual_vector

        @_own
        def whiten_jacobian(self, jacobian, residual_vector):
            return self.gain * GAIN[version] * jacobian

    Weight.__qualname__ = "Weight"
    return Weight


@functools.lru_cache(maxsize=None)
def shared_variable_type(jaxfg, version):
    return variable_type(jaxfg, version)


def factor_type(jaxfg, version):
    import jax_dataclasses as jdc

    kind = (Tuple[object, object], Pair, Swapped, Tuple[object, object], Pair)[version]

    @jdc.pytree_dataclass
    class Pull(jaxfg.core.FactorBase):
        target: Any

        @_own
        def compute_residual_vector(self, variable_values: kind):
            if version in (0, 3):
                a, b = variable_values
            else:
                a, b = variable_values.a, variable_values.b
            return DIAGONAL[version] * a + OTHER[version] * b - self.target

    Pull.__qualname__ = "Pull"
    return Pull


class Problem:
    """Two variables that pull each other; linear, with a closed form."""

    def __init__(self, jaxfg, letter):
        f, v, n = LETTERS[letter]
        Point = (shared_variable_type if v >= 10 else variable_type)(jaxfg, v % 10)
        Weight, Pull = noise_type(jaxfg, n), factor_type(jaxfg, f)
        v = v % 10
        self.jaxfg, d = jaxfg, DIM[v]
        self.dim, self.stretch = d, STRETCH[v]
        self.variables = Point(), Point()
        x, y = self.variables
        targets = np.sin(1.0 + f + np.arange(d)), np.cos(v + np.arange(d))
        self.factors = [Pull(variables=vs, noise_model=Weight(size=d), target=t) for vs, t in zip(((x, y), (y, x)), targets)]
        first, second = (DIAGONAL[f], OTHER[f]) if f != 2 else (OTHER[f], DIAGONAL[f])
        eye = np.eye(d)
        self.A = GAIN[n] * np.block([[first * eye, second * eye], [second * eye, first * eye]])
        self.b = GAIN[n] * np.concatenate(targets)
        self.start = np.full(2 * d, DEFAULT[v])
        self.best = np.linalg.solve(self.A, self.b)

    def observe(self):
        """(name, obtained, expected), for a graph that is built anew."""
        graph = self.jaxfg.core.StackedFactorGraph.make(self.factors)
        given = self.jaxfg.core.VariableAssignments.make_from_defaults(self.variables)
        read = lambda a: np.concatenate([np.asarray(a.get_value(v)) for v in self.variables])
        yield "defaults", read(given), self.start
        cost, r = graph.compute_cost(given)
        error = self.A @ self.start - self.b
        yield "cost", np.asarray(cost), error @ error
        J = np.asarray(graph.compute_whitened_residual_jacobian(given, r).as_dense())
        at = [graph.local_storage_layout.index_from_variable[v] for v in self.variables]
        J = J[:, np.concatenate([np.arange(i, i + self.dim) for i in at])]
        H = self.stretch**2 * self.A.T @ self.A
        yield "normal matrix", J.T @ J, H
        solver = self.jaxfg.solvers.GaussNewtonSolver(max_iterations=8, verbose=False)
        yield "solution", read(graph.solve(given, solver)), self.best
