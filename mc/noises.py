"""User-defined noise models next to their numpy meaning.

Whitened residuals and whitened Jacobians are unrelated functions here: what a model
returns has to arrive in the graph, whatever it is."""

from typing import Any, Tuple

import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp

import jaxfg

from . import lab


def _own(function):
    function.__override__ = True
    return function


class _Base(jaxfg.noises.NoiseModelBase):
    """Models are written once, for any array module."""

    @_own
    def get_residual_dim(self) -> int:
        return self.size()

    @_own
    def whiten_residual_vector(self, residual_vector):
        return self.white(jnp, residual_vector)

    @_own
    def whiten_jacobian(self, jacobian, residual_vector):
        assert jacobian.shape[0] == residual_vector.shape[0] == self.size()
        return self.white_jacobian(jnp, jacobian, residual_vector)


@jdc.pytree_dataclass
class Scale(_Base):
    """A scalar, and the dimension as a static option."""

    factor: Any
    dim: jdc.Static[int]

    def size(self):
        return self.dim

    def white(self, xp, r):
        return self.factor * r

    def white_jacobian(self, xp, J, w):
        return self.factor * J


@jdc.pytree_dataclass
class Mix(_Base):
    """A square matrix without structure."""

    matrix: Any

    def size(self):
        return self.matrix.shape[-1]

    def white(self, xp, r):
        return self.matrix @ r

    def white_jacobian(self, xp, J, w):
        return self.matrix @ J


@jdc.pytree_dataclass
class Curve(_Base):
    """Not linear. The Jacobian depends on every entry of the whitened residual."""

    gain: Any
    power: jdc.Static[int]

    def size(self):
        return self.gain.shape[-1]

    def white(self, xp, r):
        return self.gain * xp.arctan(r) * self.power

    def white_jacobian(self, xp, J, w):
        return (1.0 / (1.0 + w**2) + xp.tanh(w[::-1]) ** self.power)[:, None] * J * xp.sum(self.gain)


@jdc.pytree_dataclass
class Then(_Base):
    """One model after another."""

    models: Tuple[Any, ...]

    def size(self):
        return self.models[0].size()

    def white(self, xp, r):
        for m in self.models:
            r = m.white(xp, r)
        return r

    def white_jacobian(self, xp, J, w):
        for m in self.models:
            J = m.white_jacobian(xp, J, w)
        return J


@jdc.pytree_dataclass
class Inflated(jaxfg.noises.DiagonalGaussian):
    """Extends a model of the library. The Jacobian is inherited."""

    @_own
    def whiten_residual_vector(self, residual_vector):
        return self.white(jnp, residual_vector)

    def size(self):
        return self.sqrt_precision_diagonal.shape[-1]

    def white(self, xp, r):
        return self.sqrt_precision_diagonal * r + 0.125

    def white_jacobian(self, xp, J, w):
        return self.sqrt_precision_diagonal[:, None] * J


@jdc.pytree_dataclass
class Robust(jaxfg.noises.HuberWrapper):
    """Extends the wrapper of the library. The residual is inherited."""

    @_own
    def whiten_jacobian(self, jacobian, residual_vector):
        return self.white_jacobian(jnp, jacobian, residual_vector)

    def size(self):
        return self.wrapped.size()

    def white(self, xp, r):
        return huber(self.wrapped, self.delta, r)

    def white_jacobian(self, xp, J, w):
        return self.wrapped.white_jacobian(xp, J, w) * (1.0 + self.delta)


def huber(wrapped, delta, r):
    w = wrapped.white(np, r)
    n = np.linalg.norm(w)
    return w if n < delta else w * np.sqrt(delta / n)


class UserNoise:
    """Same interface as mc.lab.Noise."""

    def __init__(self, kind, dim, variant):
        self.kind, self.dim = kind, dim
        v = 1.0 + 0.4 * variant / (1.0 + 0.1 * variant)
        gain = v * (0.6 + 0.3 * np.arange(dim))
        matrix = v * (np.eye(dim) + 0.7 * lab._coefficients(dim, dim, shift=variant + 0.5))
        self.model = {
            "scale": lambda: Scale(factor=np.asarray(v), dim=dim),
            "float": lambda: Scale(factor=float(v), dim=dim),
            "mix": lambda: Mix(matrix=matrix),
            "curve1": lambda: Curve(gain=gain, power=1),
            "curve2": lambda: Curve(gain=gain, power=2),
            "then": lambda: Then(models=(Scale(factor=np.asarray(v), dim=dim), Mix(matrix=matrix))),
            "neht": lambda: Then(models=(Mix(matrix=matrix), Curve(gain=gain, power=1))),
            "inflated": lambda: Inflated(gain),
            "huber": lambda: jaxfg.noises.HuberWrapper(wrapped=Mix(matrix=matrix), delta=0.7 * v),
            "robust": lambda: Robust(wrapped=Scale(factor=np.asarray(v), dim=dim), delta=0.5 * v),
        }[kind]()

    def whiten(self, r):
        if self.kind == "huber":
            return huber(self.model.wrapped, self.model.delta, r)
        return np.asarray(self.model.white(np, r))

    def whiten_jacobian(self, J, r):
        w = self.whiten(r)
        if self.kind == "huber":
            n = np.linalg.norm(w)
            J = self.model.wrapped.white_jacobian(np, J, w)
            return J if n < self.model.delta else J * (self.model.delta / n)
        return np.asarray(self.model.white_jacobian(np, J, w))
