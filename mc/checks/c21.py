"""C21: variable types define values by example."""

import itertools

from .. import graphs

LEAVES = ("float", "scalar", "v1", "v3", "m22", "np2", "t212", "empty")
CONTAINERS = ("tuple", "list", "dict", "named", "data")
BOUNDS = {
    "quick": "all values with containers of 1..2 leaves (5 containers, 8 leaf kinds), of one container and one leaf in both "
    "orders, and of two containers of the same leaf; jit and eager; a retraction of their own for each; types asked for again after all others; vector sizes 1..200",
    "thorough": "also all containers of 3 leaves, and containers of two containers of one leaf each",
}
ASSUMPTIONS = ["real-valued leaves"]


def shapes(tier):
    out = [l for l in LEAVES if l != "empty"]
    level1 = [(c, kids) for c in CONTAINERS for n in (1, 2) for kids in itertools.product(LEAVES, repeat=n)]
    if tier == "thorough":
        level1 += [(c, kids) for c in CONTAINERS for kids in itertools.product(LEAVES, repeat=3)]
    out += level1
    for c in CONTAINERS:
        for d in CONTAINERS:
            for a, b in itertools.product(("scalar", "v3", "m22"), repeat=2):
                out += [(c, (a, (d, (b,)))), (c, ((d, (a, b)), "v1"))]
        inner = [(d, (l,)) for d in CONTAINERS for l in (("np2",) if tier == "quick" else ("scalar", "v3", "np2"))]
        out += [(c, pair) for pair in itertools.product(inner, repeat=2)]
    out += [("none", ("v3",)), ("lie", ("SE2", "scalar")), ("lie", ("SO3", "v3")), ("tuple", (("none", ("v3",)), "scalar"))]
    return out


def tasks(tier):
    out = [dict(config=dict(x64=True), part="values", shapes=c) for c in graphs.chunks(shapes(tier), 90)]
    out.append(dict(config=dict(x64=False), part="values", shapes=shapes(tier)[::9]))
    out += [dict(config=dict(x64=True), part="identity", order=o) for o in range(4)]
    return out


def build(shape, fill, np, jnp, kit):
    """A value of the given shape. `fill` gives the next scalar."""
    if isinstance(shape, str):
        sizes = dict(float=(), scalar=(), v1=(1,), v3=(3,), m22=(2, 2), np2=(2,), t212=(2, 1, 2), empty=(0,))
        if shape == "float":
            return float(fill())
        s = sizes[shape]
        flat = np.array([fill() for _ in range(int(np.prod(s)))], float).reshape(s)
        return flat if shape == "np2" else jnp.asarray(flat)
    container, kids = shape
    if container == "lie":
        group = getattr(kit["jaxlie"], kids[0])
        flat = np.array([fill() for _ in range(group.parameters_dim)])
        return (group(jnp.asarray(flat)), build(kids[1], fill, np, jnp, kit))
    values = [build(k, fill, np, jnp, kit) for k in kids]
    if container == "none":
        return [None, values[0]]
    if container == "tuple":
        return tuple(values)
    if container == "list":
        return values
    if container == "dict":
        return dict(zip(("z", "b", "c"), values))
    if container == "named":
        return kit["named"][len(values)](*values)
    return kit["data"][len(values)](*values)


def kit():
    import collections

    import jax
    import jax_dataclasses as jdc
    import jaxlie

    @jdc.pytree_dataclass
    class One:
        only: jax.Array

    @jdc.pytree_dataclass
    class Two:
        second: jax.Array
        first: jax.Array

    @jdc.pytree_dataclass
    class Three:
        second: jax.Array
        first: jax.Array
        third: jax.Array

    return dict(
        jaxlie=jaxlie,
        named={n: collections.namedtuple(f"N{n}", ["q", "p", "a"][:n]) for n in (1, 2, 3)},
        data={1: One, 2: Two, 3: Three},
    )


def define(default, name="V"):
    import jaxfg

    class V(jaxfg.core.VariableBase):
        @classmethod
        def get_default_value(cls):
            return default

        get_default_value.__func__.__override__ = True

    return V


def run(task, ctx):
    if task["part"] == "identity":
        return identity(task, ctx)
    import jax
    import numpy as np
    from jax import numpy as jnp

    k = kit()
    for shape in task["shapes"]:
        if ctx.wanted(shape):
            with ctx.case(shape):
                check(ctx, shape, k, jax, np, jnp)


def counter(start, step):
    state = [start]

    def fill():
        state[0] += step
        return state[0]

    return fill


def check(ctx, shape, k, jax, np, jnp):
    import jaxfg

    leaves, structure = jax.tree_util.tree_leaves, jax.tree_util.tree_structure
    default = build(shape, counter(0.5, 0.25), np, jnp, k)
    V = define(default)
    count = sum(int(np.size(l)) for l in leaves(default))
    ctx.state(str(shape))
    ctx.check(V.get_parameter_dim() == count, f"{V.get_parameter_dim()} parameters, but the value has {count} scalars")
    ctx.check(V.get_local_parameter_dim() == count, f"{V.get_local_parameter_dim()} local parameters")

    def same(a, b, what):
        ctx.check(structure(a) == structure(b), lambda: f"{what}: structure {structure(a)} instead of {structure(b)}")
        for x, y in zip(leaves(a), leaves(b)):
            ctx.check(np.shape(x) == np.shape(y), lambda: f"{what}: leaf of shape {np.shape(x)} instead of {np.shape(y)}")
            ctx.check(np.allclose(x, y, rtol=1e-6, atol=1e-6), lambda: f"{what}: {x} instead of {y}")
        ctx.transition()

    first = build(shape, counter(10.0, 1.0), np, jnp, k)
    second = build(shape, counter(-3.0, 0.5), np, jnp, k)
    for value in (default, first, second):
        flat = V.flatten(value)
        ctx.check(np.shape(flat) == (count,), lambda: f"flattened value has shape {np.shape(flat)}")
        ctx.check(
            np.allclose(np.sort(np.asarray(flat)), np.sort(np.concatenate([np.ravel(l) for l in leaves(value)]))),
            "flattening lost scalars",
        )
        same(V.unflatten(flat), value, "unflatten(flatten(x))")
        same(jax.jit(V.unflatten)(jax.jit(V.flatten)(value)), value, "compiled round trip")
    given = np.linspace(-2.0, 3.0, count)
    again = np.asarray(V.flatten(V.unflatten(jnp.asarray(given))))
    ctx.check(np.allclose(again, given, rtol=1e-6), lambda: f"flatten(unflatten({given.tolist()})) is {again.tolist()}")

    # Retraction adds elementwise
    delta = 0.1 * np.arange(1, count + 1)
    change = V.unflatten(jnp.asarray(delta))
    moved = V.manifold_retract(first, jnp.asarray(delta))
    same(moved, jax.tree_util.tree_map(lambda a, b: a + b, first, change), "retraction")
    jacobians = V.manifold_retract_jacobian(first)
    ctx.check(len(jacobians) == len(leaves(first)), f"{len(jacobians)} Jacobians for {len(leaves(first))} leaves")
    at = 0
    for J, leaf in zip(jacobians, leaves(V.unflatten(jnp.arange(count, dtype=float)))):
        J = np.asarray(J, float)
        # Row of the identity for each scalar, in the position that flattening gives to it
        expected = np.eye(count)[np.asarray(leaf).astype(int).reshape(-1)].reshape(np.shape(leaf) + (count,))
        ctx.check(J.size == expected.size and np.allclose(J.reshape(expected.shape), expected), lambda: f"retraction Jacobian {J.tolist()}")

    # Through assignments
    if count:
        a, b = V(), V()
        assignments = jaxfg.core.VariableAssignments.make_from_dict({a: first, b: second})
        same(assignments.get_value(a), first, "get_value")
        same(assignments.get_value(b), second, "get_value")
        stacked = assignments.get_stacked_value(V)
        same(stacked, jax.tree_util.tree_map(lambda x, y: jnp.stack([jnp.asarray(x), jnp.asarray(y)]), first, second), "get_stacked_value")
        same(assignments.set_value(b, default).get_value(b), default, "set_value")
        same(jaxfg.core.VariableAssignments.make_from_defaults([a]).get_value(a), default, "default")
    # A type of the same values with a retraction of its own
    class W(V):
        @classmethod
        def manifold_retract(cls, x, local_delta):
            return cls.unflatten(cls.flatten(x) * jnp.exp(local_delta[::-1]))

        manifold_retract.__func__.__override__ = True

    ctx.check(W.get_local_parameter_dim() == count, f"{W.get_local_parameter_dim()} local parameters of the derived type")
    flat = np.asarray(W.flatten(first))
    if count:
        same(W.manifold_retract(first, jnp.asarray(delta)), V.unflatten(jnp.asarray(flat * np.exp(delta[::-1]))), "custom retraction")
    where = [np.asarray(l).astype(int) for l in leaves(V.unflatten(jnp.arange(count, dtype=float)))]
    jacobians = W.manifold_retract_jacobian(first)
    ctx.check(len(jacobians) == len(where), f"{len(jacobians)} Jacobians for {len(where)} leaves")
    for J, at in zip(jacobians, where):
        expected = (np.diag(flat)[:, ::-1])[at.reshape(-1)]
        ctx.check(np.size(J) == expected.size and np.allclose(np.reshape(J, expected.shape), expected, rtol=1e-6),
                  lambda: f"Jacobian {np.asarray(J).tolist()} of a custom retraction, instead of {expected.tolist()}")
    ctx.transition()
    ctx.check(V.canonical_instance() is V.canonical_instance(), "two canonical instances")
    ctx.check(type(V.canonical_instance()) is V, "canonical instance of another type")
    ctx.trace()
    ctx.outcome(str(structure(default)))
    ctx.sample(dict(value=str(shape), parameters=count))


def identity(task, ctx):
    """Types and canonical instances stay the same, in any order and number."""
    import numpy as np

    import jaxfg

    R = jaxfg.core.RealVectorVariable
    sizes = list(range(1, 201))
    order = [sizes, sizes[::-1], sizes[::2] + sizes[1::2], [((7 * s) % 211) % 200 + 1 for s in sizes]][task["order"]]
    with ctx.case(dict(part="sizes", order=task["order"])):
        seen = {}
        for rounds in range(2):
            for n in order:
                T = R[n]
                ctx.check(seen.setdefault(n, T) is T, f"two types for vectors of size {n}")
                ctx.check(T.get_parameter_dim() == n == T.get_local_parameter_dim(), f"vector type of size {n} has dimension {T.get_parameter_dim()}")
                ctx.check(np.array_equal(np.asarray(T.get_default_value()), np.zeros(n)), f"default of size {n}")
                ctx.check(T.canonical_instance() is T.canonical_instance(), f"canonical instance of size {n}")
                ctx.transition()
                ctx.state(("size", n))
        ctx.check(len(set(seen.values())) == len(seen), "two sizes share a type")
        ctx.trace()
    with ctx.case(dict(part="instances", order=task["order"])):
        types = [define(np.zeros(1 + i % 3)) for i in range(300)]
        canonical = {}
        for rounds in range(3):
            for T in (types, types[::-1], types[::3] + types[1::3] + types[2::3], types[150:] + types[:150])[task["order"]]:
                c = T.canonical_instance()
                ctx.check(canonical.setdefault(T, c) is c, "canonical instance changed")
                ctx.check(type(c) is T and T() is not c and T() is not T(), "instances are not distinct")
                ctx.transition()
        ctx.check(len(set(map(id, canonical.values()))) == len(types), "types share a canonical instance")
        ctx.trace()
    with ctx.case(dict(part="subclasses", order=task["order"])):
        # A type derived from another has its own example, dimension and canonical instance
        Base = define(np.zeros(2))
        if task["order"] % 2:
            Base.canonical_instance()

        class Derived(Base):
            @classmethod
            def get_default_value(cls):
                return (np.ones(2), np.zeros((2, 2)))

            get_default_value.__func__.__override__ = True

        class Same(Base):
            pass

        for T, n in ((Derived, 6), (Base, 2), (Same, 2)):
            ctx.check(T.get_parameter_dim() == n and np.shape(T.flatten(T.get_default_value())) == (n,), f"{T.__name__}: dimension {T.get_parameter_dim()}")
            ctx.check(type(T.canonical_instance()) is T, f"{T.__name__}: canonical instance of type {type(T.canonical_instance())}")
        ctx.check(np.shape(Base.unflatten(np.zeros(2))) == (2,), "base type unflattens like the derived type")
        ctx.check(isinstance(Derived.unflatten(np.zeros(6)), tuple), "derived type unflattens like its base")
        ctx.transition(3)
        ctx.trace()
