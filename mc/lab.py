"""Alphabets: real jaxfg variables, factors and noise models next to their numpy meaning."""

import functools
import os
import sys
from typing import Any, NamedTuple, Tuple

import jax
import jax_dataclasses as jdc
import jaxlie
import numpy as np
from jax import numpy as jnp

import jaxfg

from . import ref

REPO = os.environ.get("MC_REPO", "/repo")
assert os.path.realpath(jaxfg.__file__).startswith(os.path.realpath(REPO) + "/"), jaxfg.__file__

X64 = bool(jax.config.jax_enable_x64)
# Comparison tolerance, relative to the scale of the numbers that enter a computation.
EPS = 1e-8 if X64 else 2e-4


def close(a, b, tol=None, scale=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(a, b, equal_nan=True))
    tol = EPS if tol is None else tol
    return bool(np.all(np.abs(a - b) <= tol * (1.0 + scale + np.maximum(np.abs(a), np.abs(b)))))


# Variables ------------------------------------------------------------------------------


class VType:
    """A variable type: the jaxfg class, and its meaning on flat float64 vectors."""

    def __init__(self, name, cls, dim, ldim, to_value, leaves, points, retract=None, same=None,
                 default=None, hint=Any):
        self.name, self.cls, self.dim, self.ldim = name, cls, dim, ldim
        self.to_value, self._leaves = to_value, leaves
        self.points = [np.asarray(p, float) for p in points]
        self.retract = retract or (lambda x, d: x + d)
        self.same = same or (lambda a, b: np.max(np.abs(a - b)))
        self.default = np.zeros(dim) if default is None else np.asarray(default, float)
        self.hint = hint

    def from_value(self, value):
        return np.concatenate([np.asarray(l, float).reshape(-1) for l in self._leaves(value)])

    def flat_jax(self, value):
        return jnp.concatenate([jnp.reshape(l, -1) for l in self._leaves(value)])


def _vector(n):
    """Points of real vector spaces; generic numbers, so that mixed-up entries show."""
    return [
        [0.31 + 0.17 * i for i in range(n)],
        [-0.72 + 0.41 * i for i in range(n)],
        [1.23 - 0.57 * i for i in range(n)],
        [-0.19 - 0.23 * i for i in range(n)],
        [0.87 + 0.05 * i for i in range(n)],
    ]


class ScalarVariable(jaxfg.core.VariableBase):
    @classmethod
    def get_default_value(cls):
        return 0.0

    get_default_value.__func__.__override__ = True


class BaseVariable(jaxfg.core.VariableBase):
    @classmethod
    def get_default_value(cls):
        return jnp.array([0.5, -0.5])

    get_default_value.__func__.__override__ = True


class DerivedVariable(BaseVariable):
    """A concrete type that extends another concrete type."""

    @classmethod
    def get_default_value(cls):
        return jnp.array([0.2, 0.3, 0.4])

    get_default_value.__func__.__override__ = True


class PointValue(NamedTuple):
    offset: Any
    scale: Any


class PairVariable(jaxfg.core.VariableBase):
    """Values are named tuples."""

    @classmethod
    def get_default_value(cls):
        return PointValue(offset=jnp.array([1.0, 2.0]), scale=jnp.array(3.0))

    get_default_value.__func__.__override__ = True


class DictVariable(jaxfg.core.VariableBase):
    """Values are dictionaries, whose leaves are sorted by key."""

    @classmethod
    def get_default_value(cls):
        return {"z": jnp.array(0.5), "a": jnp.zeros(2)}

    get_default_value.__func__.__override__ = True


class MatrixVariable(jaxfg.core.VariableBase):
    @classmethod
    def get_default_value(cls):
        return jnp.eye(2)

    get_default_value.__func__.__override__ = True


def _rotate(d, cos, sin, xp):
    return xp.stack([cos * d[0] - sin * d[1], sin * d[0] + cos * d[1]])


class CircleVariable(jaxfg.core.VariableBase):
    """Unit vectors: two parameters, one local parameter, Jacobian by autodiff."""

    @classmethod
    def get_default_value(cls):
        return jnp.array([1.0, 0.0])

    @classmethod
    def get_local_parameter_dim(cls):
        return 1

    @classmethod
    def manifold_retract(cls, x, local_delta):
        return _rotate(x, jnp.cos(local_delta[0]), jnp.sin(local_delta[0]), jnp)

    for _m in (get_default_value, get_local_parameter_dim, manifold_retract):
        _m.__func__.__override__ = True


@jdc.pytree_dataclass
class RayValue:
    direction: jax.Array
    origin: jax.Array


class RayVariable(jaxfg.core.VariableBase):
    """Two leaves, four parameters, three local parameters, in the opposite order."""

    @classmethod
    def get_default_value(cls):
        return RayValue(direction=jnp.array([0.0, 1.0]), origin=jnp.array([0.2, 0.1]))

    @classmethod
    def get_local_parameter_dim(cls):
        return 3

    @classmethod
    def manifold_retract(cls, x, local_delta):
        return RayValue(
            direction=_rotate(x.direction, jnp.cos(local_delta[2]), jnp.sin(local_delta[2]), jnp),
            origin=x.origin + local_delta[:2],
        )

    for _m in (get_default_value, get_local_parameter_dim, manifold_retract):
        _m.__func__.__override__ = True


class PositiveVariable(jaxfg.core.VariableBase):
    """Positive numbers with a multiplicative retraction and an analytical Jacobian."""

    @classmethod
    def get_default_value(cls):
        return jnp.array([1.0])

    @classmethod
    def manifold_retract(cls, x, local_delta):
        return x * jnp.exp(local_delta)

    @classmethod
    def manifold_retract_jacobian(cls, x):
        return (jnp.reshape(x, (1, 1)),)

    for _m in (get_default_value, manifold_retract, manifold_retract_jacobian):
        _m.__func__.__override__ = True


class GainValue(NamedTuple):
    gain: Any
    offset: Any


class GainVariable(jaxfg.core.VariableBase):
    """As many local parameters as parameters, but a retraction that is not an addition.
    Jacobian by autodiff."""

    @classmethod
    def get_default_value(cls):
        return GainValue(gain=jnp.ones(2), offset=jnp.array(0.0))

    @classmethod
    def manifold_retract(cls, x, local_delta):
        return GainValue(gain=x.gain * jnp.exp(local_delta[1:]), offset=x.offset + x.gain[0] * local_delta[0])

    for _m in (get_default_value, manifold_retract):
        _m.__func__.__override__ = True


def _gain_retract(x, d):
    return np.concatenate([x[:2] * np.exp(d[1:]), x[2:] + x[0] * d[:1]])


def _ray_retract(x, d):
    return np.concatenate([_rotate(x[:2], np.cos(d[2]), np.sin(d[2]), np), x[2:] + d[:2]])


def _group_points(g):
    deltas = [
        [0.3 + 0.1 * i for i in range(g.ldim)],
        [-0.5 + 0.2 * i for i in range(g.ldim)],
        [0.9 - 0.25 * i for i in range(g.ldim)],
        [-0.2 - 0.1 * i for i in range(g.ldim)],
        [0.05 * (i + 1) for i in range(g.ldim)],
    ]
    return [g.exp(np.array(d)) for d in deltas]


def _lie(name):
    g = ref.GROUPS[name]
    group = getattr(jaxlie, name)
    return VType(
        name,
        getattr(jaxfg.geometry, f"{name}Variable"),
        g.dim,
        g.ldim,
        lambda flat: group(np.asarray(flat)),
        lambda value: [value.parameters()],
        _group_points(g),
        retract=lambda x, d: g.mul(x, g.exp(d)),
        same=g.same,
        default=g.identity,
        hint=group,
    )


def _angle_points():
    return [[np.cos(t), np.sin(t)] for t in (0.4, -1.1, 2.0, 0.9, -2.3)]


VTYPES = {
    v.name: v
    for v in [
        VType("S", ScalarVariable, 1, 1, lambda f: np.asarray(f[0]), lambda v: [v], _vector(1)),
        *[
            VType(
                f"R{n}",
                jaxfg.core.RealVectorVariable[n],
                n,
                n,
                lambda f: np.asarray(f),
                lambda v: [v],
                _vector(n),
            )
            for n in (1, 2, 3)
        ],
        VType("B", BaseVariable, 2, 2, lambda f: np.asarray(f), lambda v: [v], _vector(2), default=[0.5, -0.5]),
        VType("E", DerivedVariable, 3, 3, lambda f: np.asarray(f), lambda v: [v], _vector(3), default=[0.2, 0.3, 0.4]),
        VType(
            "P",
            PairVariable,
            3,
            3,
            lambda f: PointValue(offset=np.asarray(f[:2]), scale=np.asarray(f[2])),
            lambda v: [v.offset, v.scale],
            _vector(3),
            default=[1.0, 2.0, 3.0],
            hint=PointValue,
        ),
        VType(
            "D",
            DictVariable,
            3,
            3,
            lambda f: {"z": np.asarray(f[2]), "a": np.asarray(f[:2])},
            lambda v: [v["a"], v["z"]],
            _vector(3),
            default=[0.0, 0.0, 0.5],
            hint=dict,
        ),
        VType(
            "M",
            MatrixVariable,
            4,
            4,
            lambda f: np.asarray(f).reshape(2, 2),
            lambda v: [v],
            _vector(4),
            default=[1.0, 0.0, 0.0, 1.0],
        ),
        VType(
            "C",
            CircleVariable,
            2,
            1,
            lambda f: np.asarray(f),
            lambda v: [v],
            _angle_points(),
            retract=lambda x, d: _rotate(x, np.cos(d[0]), np.sin(d[0]), np),
            default=[1.0, 0.0],
        ),
        VType(
            "Y",
            RayVariable,
            4,
            3,
            lambda f: RayValue(direction=np.asarray(f[:2]), origin=np.asarray(f[2:])),
            lambda v: [v.direction, v.origin],
            [a + [0.3 * i - 0.4, 0.2 + 0.1 * i] for i, a in enumerate(_angle_points())],
            retract=_ray_retract,
            default=[0.0, 1.0, 0.2, 0.1],
            hint=RayValue,
        ),
        VType(
            "X",
            PositiveVariable,
            1,
            1,
            lambda f: np.asarray(f),
            lambda v: [v],
            [[0.6], [1.4], [2.1], [0.9], [1.1]],
            retract=lambda x, d: x * np.exp(d),
            default=[1.0],
        ),
        VType(
            "G",
            GainVariable,
            3,
            3,
            lambda f: GainValue(gain=np.asarray(f[:2]), offset=np.asarray(f[2])),
            lambda v: [v.gain, v.offset],
            [[0.6, 1.3, -0.4], [1.4, 0.7, 0.3], [2.1, 0.5, 0.9], [0.9, 1.6, -1.2], [1.1, 0.8, 0.1]],
            retract=_gain_retract,
            default=[1.0, 1.0, 0.0],
            hint=GainValue,
        ),
        *[_lie(n) for n in ("SO2", "SE2", "SO3", "SE3")],
    ]
}


@functools.lru_cache(maxsize=None)
def var(type_name, index):
    """The index-th variable of a type. Always the same object within a process."""
    return VTYPES[type_name].cls()


@functools.lru_cache(maxsize=None)
def _type_of_cls():
    return {v.cls: v for v in VTYPES.values()}


def vtype_of(variable):
    return _type_of_cls()[type(variable)]


# Noise models ---------------------------------------------------------------------------


def _coefficients(*shape, shift=0.0):
    """A fixed array of unremarkable numbers in (-1, 1)."""
    n = int(np.prod(shape))
    return np.sin(1.0 + 2.399963 * np.arange(n) + shift).reshape(shape)


class Noise:
    """A noise model: jaxfg object, and its whitening as a numpy function."""

    def __init__(self, kind, dim, variant=0, delta=None):
        self.kind, self.dim, self.variant, self.delta = kind, dim, variant, delta
        v = 1.0 + 0.35 * variant
        if kind == "diag":
            d = v * (0.8 + 0.3 * np.arange(dim))
            self.L = np.diag(d)
            self.model = jaxfg.noises.DiagonalGaussian(d)
        elif kind == "diagcov":
            c = v * (0.5 + 0.4 * np.arange(dim))
            self.L = np.diag(1 / np.sqrt(c))
            self.model = jaxfg.noises.DiagonalGaussian.make_from_covariance(c)
        elif kind == "diagcovlist":
            c = v * (0.5 + 0.4 * np.arange(dim))
            self.L = np.diag(1 / np.sqrt(c))
            self.model = jaxfg.noises.DiagonalGaussian.make_from_covariance(list(c))
        elif kind in ("full", "upper"):
            m = np.eye(dim) * (1 + 0.2 * np.arange(dim)) + 0.4 * np.tril(
                _coefficients(dim, dim, shift=variant), -1
            )
            self.L = v * (m.T if kind == "upper" else m)
            self.model = jaxfg.noises.Gaussian(self.L)
        elif kind == "fullcov":
            m = np.eye(dim) + 0.4 * _coefficients(dim, dim, shift=variant)
            cov = v * (m @ m.T)
            self.cov = cov
            self.L = np.linalg.inv(np.linalg.cholesky(cov))
            self.model = jaxfg.noises.Gaussian.make_from_covariance(cov)
        elif kind.startswith("huber-"):
            self.inner = Noise(kind[6:], dim, variant)
            self.L = self.inner.L
            self.delta = 0.9 * v if delta is None else delta
            self.model = jaxfg.noises.HuberWrapper(wrapped=self.inner.model, delta=self.delta)
        else:
            raise ValueError(kind)

    def whiten(self, r):
        w = self.L @ r
        if self.kind.startswith("huber-"):
            n = np.linalg.norm(w)
            if n >= self.delta:
                w = w * np.sqrt(self.delta / n)
        return w

    def whiten_jacobian(self, J, r):
        w = self.L @ r
        out = self.L @ J
        if self.kind.startswith("huber-"):
            n = np.linalg.norm(w)
            if n >= self.delta:
                out = out * np.sqrt(self.delta / n)
        return out

    def log_det_cov(self):
        return -2 * np.linalg.slogdet(self.L)[1]


# Factors --------------------------------------------------------------------------------


def residual_formula(xp, res_dim, parts, b, s, extra, mode):
    """Generic smooth residual. Every input entry enters every output with its own weight,
    so that exchanged variables, entries or parameters change the result."""
    offset = {"plain": 0.0, "shifted": 0.25}[mode]
    r = b + offset
    for k, u in enumerate(parts):
        n = u.shape[0]
        G = 0.7 * _coefficients(res_dim, n, shift=0.9 * k + 0.1 * res_dim)
        if res_dim == n:
            G = G + np.eye(n)
        H = 0.5 * _coefficients(res_dim, n, shift=2.3 * k + 1.7)
        r = r + s * (G @ u) + 0.4 * xp.sin(H @ u)
    for k in range(1, len(parts)):
        r = r + 0.3 * xp.sum(parts[k - 1]) * xp.cos(xp.sum(parts[k])) * np.linspace(
            0.5, 1.0, res_dim
        )
    if extra is not None:
        r = r + 0.2 * xp.sum(xp.asarray(extra) * np.arange(1, extra.shape[0] + 1))
    return r


@functools.lru_cache(maxsize=None)
def generic_factor_class(signature, res_dim, style, analytic=False):
    """Builds a user-defined factor class over the given variable types."""
    vts = [VTYPES[n] for n in signature]
    hints = tuple(v.hint for v in vts)
    label = f"Factor_{'_'.join(signature)}_{res_dim}_{style}" + ("_analytic" if analytic else "")
    if style == "named":
        hint = NamedTuple(f"{label}Values", [(f"v{i}", h) for i, h in enumerate(hints)])
    elif style == "ellipsis":
        assert len(set(signature)) == 1
        hint = Tuple[hints[0], ...]
    else:
        hint = Tuple[hints]
    hint = _unany(hint, style, label, hints)

    def parts_of(variable_values):
        if style == "named":
            variable_values = tuple(getattr(variable_values, f"v{i}") for i in range(len(vts)))
        return [v.flat_jax(x) for v, x in zip(vts, variable_values)]

    def compute_residual_vector(self, variable_values):
        return residual_formula(
            jnp, res_dim, parts_of(variable_values), self.b, self.s, self.extra, self.mode
        )

    compute_residual_vector.__annotations__ = {"variable_values": hint, "return": Any}
    compute_residual_vector.__override__ = True
    namespace = dict(
        __annotations__={
            "b": Any,
            "s": Any,
            "extra": Any,
            "mode": jdc.Static[str],
        },
        compute_residual_vector=compute_residual_vector,
        __module__=__name__,
    )
    if analytic:

        def compute_residual_jacobians(self, variable_values):
            # Written out by hand, as a user would do it for Euclidean variables
            parts = parts_of(variable_values)
            out = []
            for k, u in enumerate(parts):
                n = u.shape[0]
                G = 0.7 * _coefficients(res_dim, n, shift=0.9 * k + 0.1 * res_dim)
                if res_dim == n:
                    G = G + np.eye(n)
                H = 0.5 * _coefficients(res_dim, n, shift=2.3 * k + 1.7)
                J = self.s * G + 0.4 * jnp.cos(H @ u)[:, None] * H
                w = np.linspace(0.5, 1.0, res_dim)
                if k + 1 < len(parts):
                    J = J + 0.3 * jnp.cos(jnp.sum(parts[k + 1])) * w[:, None]
                if k > 0:
                    J = J - 0.3 * jnp.sum(parts[k - 1]) * jnp.sin(jnp.sum(u)) * w[:, None]
                out.append(J)
            return tuple(out)

        compute_residual_jacobians.__override__ = True
        namespace["compute_residual_jacobians"] = compute_residual_jacobians

    import types

    cls = types.new_class(
        label, (jaxfg.core.FactorBase[hint],), {}, lambda ns: ns.update(namespace)
    )
    return jdc.pytree_dataclass(cls)


def _unany(hint, style, label, hints):
    """The library checks values with isinstance(), so `Any` hints become `object`."""
    concrete = tuple(object if h is Any else h for h in hints)
    if style == "named":
        return NamedTuple(f"{label}Values", [(f"v{i}", h) for i, h in enumerate(concrete)])
    if style == "ellipsis":
        return Tuple[concrete[0], ...]
    return Tuple[concrete]


class Factor:
    """One factor: the jaxfg object, and its numpy residual."""

    def __init__(self, variables, noise, make, residual):
        self.variables = variables
        self.noise = noise
        self.jaxfg = make(tuple(variables), noise.model)
        self._residual = residual

    def residual(self, values):
        return self._residual([values[v] for v in self.variables])

    def whitened(self, values):
        return self.noise.whiten(self.residual(values))

    def jacobian(self, values, columns, dim):
        """Whitened Jacobian with respect to the local coordinates. `columns` maps each
        variable to its first column."""
        J = np.zeros((self.noise.dim, dim))
        for v in dict.fromkeys(self.variables):
            vt = vtype_of(v)

            def f(d, v=v, vt=vt):
                moved = dict(values)
                moved[v] = vt.retract(values[v], d)
                return self.residual(moved)

            smooth = not any(vtype_of(u).name in ref.GROUPS for u in self.variables)
            diff = ref.complexdiff if smooth else ref.numdiff
            J[:, columns[v] : columns[v] + vt.ldim] += diff(f, vt.ldim)
        return self.noise.whiten_jacobian(J, self.residual(values))


def generic(signature, indices, res_dim=2, noise="diag", variant=0, style="tuple", mode="plain",
            extra=None, analytic=False, scalar="array", delta=None):
    """A user-defined factor. `variant` selects the parameter and noise values."""
    signature = tuple(signature)
    cls = generic_factor_class(signature, res_dim, style, analytic)
    b = 0.3 * _coefficients(res_dim, shift=3.1 * variant) + 0.1 * variant
    s = 0.9 + 0.15 * variant
    e = None if extra is None else 0.1 * _coefficients(extra, shift=1.3 * variant)
    vts = [VTYPES[n] for n in signature]
    return Factor(
        [var(n, i) for n, i in zip(signature, indices)],
        Noise(noise, res_dim, variant, delta),
        lambda variables, model: cls(
            variables=variables,
            noise_model=model,
            b=b,
            s=float(s) if scalar == "float" else np.asarray(s),
            extra=e,
            mode=mode,
        ),
        lambda xs: residual_formula(np, res_dim, xs, b, s, e, mode),
    )


def prior(group, index, noise="diag", variant=0, mu=None, delta=None):
    g = ref.GROUPS[group]
    mu = VTYPES[group].points[(variant + 2) % 5] if mu is None else np.asarray(mu, float)
    return Factor(
        [var(group, index)],
        Noise(noise, g.ldim, variant, delta),
        lambda variables, model: jaxfg.geometry.PriorFactor.make(
            variable=variables[0], mu=getattr(jaxlie, group)(mu), noise_model=model
        ),
        lambda xs: g.log(g.mul(g.inv(xs[0]), mu)),
    )


def between(group, a, b, noise="diag", variant=0, measured=None, delta=None):
    g = ref.GROUPS[group]
    z = VTYPES[group].points[(variant + 3) % 5] if measured is None else np.asarray(measured, float)
    return Factor(
        [var(group, a), var(group, b)],
        Noise(noise, g.ldim, variant, delta),
        lambda variables, model: jaxfg.geometry.BetweenFactor.make(
            variable_T_world_a=variables[0],
            variable_T_world_b=variables[1],
            T_a_b=getattr(jaxlie, group)(z),
            noise_model=model,
        ),
        lambda xs: g.log(g.mul(g.inv(g.mul(g.inv(xs[0]), xs[1])), z)),
    )


# Parameters of many forms ---------------------------------------------------------------


@jdc.pytree_dataclass
class _Parameters(jaxfg.core.FactorBase):
    p: Any
    q: Any

    def compute_residual_vector(self, variable_values: Tuple[object]):
        return _parameters_residual(jnp, variable_values[0], self.p, self.q)

    compute_residual_vector.__override__ = True


def _parameters_residual(xp, x, p, q):
    """Depends on every entry of the parameters and on their shapes."""
    r = 1.0 * x
    for k, leaf in enumerate(jax.tree_util.tree_leaves((p, q))):
        leaf = xp.asarray(leaf)
        weights = 0.5 + np.cos(k + np.arange(leaf.size)).reshape(leaf.shape)
        r = r + xp.sum(weights * leaf) * np.array([1.0, -0.5]) + 0.1 * leaf.ndim
    return r


_PARAMETERS = {
    "float": lambda: (0.5, 1.25),
    "int": lambda: (2, 3),
    "array0": lambda: (np.array(0.75), np.array(-0.25)),
    "array": lambda: (np.array([0.25, -0.5]), np.array([1.5, 0.5])),
    "ints": lambda: (np.array([1, -2]), np.array([3, 4])),
    "jax ints": lambda: (jnp.array([2, -1]), jnp.array([0, 5])),
    "single": lambda: (np.array([0.125, 0.375], np.float32), np.array([2.5, -1.5], np.float32)),
    "bools": lambda: (np.array([True, False]), np.array([False, True])),
    "2 3": lambda: (np.array([0.3, 0.6]), np.array([0.1, 0.7, -0.2])),
    "3 2": lambda: (np.array([0.1, 0.7, -0.2]), np.array([0.3, 0.6])),
    "2x3": lambda: (np.arange(6.0).reshape(2, 3) / 7, np.array(0.1)),
    "3x2": lambda: (np.arange(6.0).reshape(3, 2) / 5, np.array(0.2)),
    "1x2": lambda: (np.array([[0.25, -0.5]]), np.array([[1.5, 0.5]])),
    "2x1": lambda: (np.array([[0.25], [-0.5]]), np.array([[1.5], [0.5]])),
    "dict": lambda: ({"a": np.array([0.3, 0.6]), "b": np.array(0.4)}, None),
    "dict2": lambda: ({"b": np.array([0.3, 0.6]), "a": np.array(0.4)}, None),
    "tuple": lambda: ((np.array([0.3, 0.6]), np.array(0.4)), None),
    "none": lambda: (None, np.array([0.25, -0.5])),
}


def parameters(form, index=0):
    """A factor whose parameters have one of many forms."""
    p, q = _PARAMETERS[form]()
    return Factor(
        [var("R2", index)],
        Noise("diag", 2, index % 2),
        lambda vs, model: _Parameters(variables=vs, noise_model=model, p=p, q=q),
        lambda xs: _parameters_residual(np, xs[0], p, q),
    )


# Linear factors -------------------------------------------------------------------------


@jdc.pytree_dataclass
class _Linear(jaxfg.core.FactorBase):
    coefficients: Any  # one matrix per variable
    offset: Any

    def compute_residual_vector(self, variable_values: Tuple[object, ...]):
        r = -self.offset
        for c, x in zip(self.coefficients, variable_values):
            r = r + c @ x
        return r

    compute_residual_vector.__override__ = True


def linear(variables, coefficients, offset, noise):
    coefficients = tuple(np.asarray(c, float) for c in coefficients)
    offset = np.asarray(offset, float)
    return Factor(
        list(variables),
        noise,
        lambda vs, model: _Linear(
            variables=vs, noise_model=model, coefficients=coefficients, offset=offset
        ),
        lambda xs: sum(c @ x for c, x in zip(coefficients, xs)) - offset,
    )


# Graphs ---------------------------------------------------------------------------------


def variables_of(factors):
    return list(dict.fromkeys(v for f in factors for v in f.variables))


def make_graph(factors, **kwargs):
    return jaxfg.core.StackedFactorGraph.make([f.jaxfg for f in factors], **kwargs)


def make_values(variables, shift=0):
    """Distinct float64 values for the given variables."""
    seen = {}
    out = {}
    for v in variables:
        vt = vtype_of(v)
        k = seen[vt.name] = seen.get(vt.name, -1) + 1
        base = vt.points[(k + shift) % len(vt.points)]
        if k + shift >= len(vt.points):
            base = vt.retract(base, np.full(vt.ldim, 0.07 * ((k + shift) // len(vt.points))))
        out[v] = base
    return out


def make_assignments(values, order=None):
    """A jaxfg assignments object that holds `values`, listed in the given order."""
    order = list(values) if order is None else order
    return jaxfg.core.VariableAssignments.make_from_dict(
        {v: vtype_of(v).to_value(values[v]) for v in order}
    )


def read_assignments(assignments, variables):
    return {v: vtype_of(v).from_value(assignments.get_value(v)) for v in variables}


def same_values(a, b, tol=None):
    """Largest difference between two variable -> flat value maps."""
    return max((vtype_of(v).same(a[v], b[v]) for v in a), default=0.0)


def ref_cost(factors, values):
    return float(sum(np.sum(f.whitened(values) ** 2) for f in factors))


def ref_system(factors, values, columns=None):
    """Stacked whitened Jacobian and residual, in the order of `factors`."""
    variables = variables_of(factors)
    if columns is None:
        columns, dim = columns_of(variables)
    else:
        dim = sum(vtype_of(v).ldim for v in variables)
    J = np.concatenate([f.jacobian(values, columns, dim) for f in factors])
    r = np.concatenate([f.whitened(values) for f in factors])
    return J, r


def columns_of(variables):
    columns, at = {}, 0
    for v in variables:
        columns[v] = at
        at += vtype_of(v).ldim
    return columns, at


def ref_retract(values, delta, columns):
    return {
        v: vtype_of(v).retract(x, delta[columns[v] : columns[v] + vtype_of(v).ldim])
        for v, x in values.items()
    }


def match_blocks(vector, blocks, tol=None, accept=None):
    """Finds an assignment of blocks to consecutive slices of `vector`. Returns a list of
    (start, block index), or None. `accept(start, index)` may veto a placement."""
    vector = np.asarray(vector, float)
    n = len(blocks)
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 4 * n + 1000))

    def place(at, left, done):
        if at == len(vector) and not left:
            return done
        tried = []
        for i in left:
            size = len(blocks[i])
            piece = vector[at : at + size]
            if not close(piece, blocks[i], tol):
                continue
            if accept is not None and not accept(at, i):
                continue
            found = place(at + size, [j for j in left if j != i], done + [(at, i)])
            if found is not None:
                return found
        return None

    if sum(len(b) for b in blocks) != len(vector):
        return None
    return place(0, list(range(n)), [])
