"""C15: sparse matrix operations agree on one linear operator."""

import itertools

from .. import graphs

SHAPES = {
    "quick": {(1, 1): 4, (1, 2): 4, (2, 1): 4, (2, 2): 4, (2, 3): 3, (3, 2): 3, (3, 3): 3, (1, 4): 3, (4, 1): 3},
    "thorough": {(1, 1): 6, (1, 2): 6, (2, 1): 6, (2, 2): 5, (2, 3): 4, (3, 2): 4, (3, 3): 4, (1, 4): 5, (4, 1): 5, (4, 4): 3},
}
LARGE = {
    "quick": [(5, 7), (16, 16), (17, 33), (64, 65), (100, 30), (129, 128), (300, 257), (2, 70000), (40000, 3)],
    "thorough": [(5, 7), (16, 16), (17, 33), (64, 65), (100, 30), (129, 128), (300, 257), (2, 70000), (40000, 3), (1, 1000), (1000, 1), (1025, 600), (70000, 1), (3, 33000)],
}
BOUNDS = {
    "quick": "all coordinate lists of length <= 3 (4 for at most four positions) for nine shapes up to 3x3 and 1x4, "
    "with zero, negative and repeated values; products with all unit vectors and two dense vectors; integer and single-precision values, values of 1e-12 and 1e9; nine shapes up to 300x257, 2x70000 and 40000x3 "
    "with three patterns in four orders, with and without repeated positions",
    "thorough": "all coordinate lists of length 3..6, depending on the shape, for ten shapes up to 4x4; fourteen large shapes up to 1025x600 and 70000x1",
}
ASSUMPTIONS = ["coordinates inside the shape; real values"]
VALUES = (1.5, -2.25, 0.0, 4.0, 0.375, -1.0)


def tasks(tier):
    out = []
    for shape, length in SHAPES[tier].items():
        positions = list(itertools.product(range(shape[0]), range(shape[1])))
        lists = [l for n in range(length + 1) for l in itertools.product(positions, repeat=n)]
        for c in graphs.chunks(lists, 150):
            out.append(dict(config=dict(x64=True), shape=shape, lists=c))
    lists = [l for n in range(4) for l in itertools.product(itertools.product(range(2), range(2)), repeat=n)]
    out.append(dict(config=dict(x64=False), shape=(2, 2), lists=lists))
    # Large matrices: bands and scattered entries, in four orders, with and without repeated positions
    for shape in LARGE[tier]:
        lists = []
        for kind, order, repeat in itertools.product(("band", "scatter", "corner"), range(4), (False, True)):
            coords = large(shape, kind)
            coords = coords + coords[:: max(1, len(coords) // 7)] if repeat else coords
            n = len(coords)
            lists.append([coords, coords[::-1], coords[1::2] + coords[::2], [coords[(7 * i + 3) % n] for i in range(n)] if n % 7 else coords[n // 2 :] + coords[: n // 2]][order])
        out.append(dict(config=dict(x64=True), shape=shape, lists=lists))
    return out


def large(shape, kind):
    m, n = shape
    if kind == "band":
        return [(i, j) for i in range(m) for j in range(max(0, i - 1), min(n, i + 2))] or [(0, 0)]
    if kind == "scatter":
        return list(dict.fromkeys(((5 * i * i + i) % m, (3 * i + i // 7) % n) for i in range(2 * max(m, n))))
    return [(0, 0), (m - 1, n - 1), (m - 1, 0), (0, n - 1), (m // 2, n // 2)]


def shown(x):
    return x.tolist() if x.size < 500 else f"{x.shape} {x}"


def run(task, ctx):
    import jax
    import numpy as np
    import scipy.sparse
    from jax import numpy as jnp

    import jaxfg

    Matrix, Coordinates = jaxfg.sparse.SparseCooMatrix, jaxfg.sparse.SparseCooCoordinates
    shape = tuple(task["shape"])
    for coords in task["lists"]:
        case = dict(shape=shape, coordinates=coords)
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            n = len(coords)
            rows = np.array([c[0] for c in coords], np.int32)
            cols = np.array([c[1] for c in coords], np.int32)
            values = np.array([VALUES[k % 6] + k // 6 for k in range(n)], float)
            original = values.copy()
            dense = np.zeros(shape)
            np.add.at(dense, (rows, cols), values)
            ctx.state((shape, tuple(map(tuple, coords))))
            variants = [("numpy", Matrix(values=values, coords=Coordinates(rows=rows, cols=cols), shape=shape), dense)]
            if n <= 2:
                variants.append(
                    ("jax", Matrix(values=jnp.asarray(values),
                                   coords=Coordinates(rows=jnp.asarray(rows), cols=jnp.asarray(cols)), shape=shape), dense)
                )
                for kind in (np.float32, np.int32):
                    typed = (4 * values).astype(kind)
                    meant = np.zeros(shape)
                    np.add.at(meant, (rows, cols), typed)
                    variants.append((kind.__name__, Matrix(values=typed, coords=Coordinates(rows=rows, cols=cols), shape=shape), meant))
                for scale in (1e-12, 1e9):
                    variants.append((f"times {scale}", Matrix(values=scale * values, coords=Coordinates(rows=rows, cols=cols), shape=shape), scale * dense))
            back = Matrix.from_scipy_coo_matrix(scipy.sparse.coo_matrix((values, (rows, cols)), shape=shape))
            variants.append(("from scipy", back, dense))
            variants.append(("transposed", variants[0][1].T, dense.T))
            variants.append(("transposed twice", variants[0][1].T.T, dense))
            for name, A, expected in variants:
                atol = 1e-6 * max(np.max(np.abs(expected)), 1e-300) if name.startswith("times") else 1e-6
                ctx.check(tuple(A.shape) == expected.shape, f"{name}: shape is {A.shape}")
                width = expected.shape[1]
                units = range(width) if expected.size < 50 else dict.fromkeys((0, 1 % width, width - 2 if width > 1 else 0, width - 1))
                vectors = [np.where(np.arange(width) == i, 1.0, 0.0) for i in units]
                vectors.append(np.linspace(-1.0, 2.0, width))
                vectors.append(np.arange(1, width + 1))  # integers
                for x in vectors if name in ("numpy", "transposed") else vectors[-2:]:
                    got = np.asarray(A @ jnp.asarray(x))
                    ctx.transition()
                    ctx.check(
                        np.allclose(got, expected @ x, rtol=1e-6, atol=atol),
                        lambda: f"{name}: product with {shown(x)} is {shown(got)}, expected {shown(expected @ x)}",
                    )
                got = np.asarray(A.as_dense())
                ctx.check(got.shape == expected.shape and np.allclose(got, expected, rtol=1e-6, atol=atol),
                          lambda: f"{name}: as_dense is {shown(got)}, expected {shown(expected)}")
                got = np.asarray(A.as_scipy_coo_matrix().toarray())
                ctx.check(got.shape == expected.shape and np.allclose(got, expected, rtol=1e-6, atol=atol),
                          lambda: f"{name}: scipy matrix is {shown(got)}, expected {shown(expected)}")
                ctx.transition(2)
            # Nothing is changed in place
            ctx.check(np.array_equal(values, original), "values were changed in place")
            ctx.trace()
            ctx.outcome(dense.tolist() if dense.size < 1e5 else (shape, dense[rows[:50], cols[:50]].tolist()))
    ctx.sample(dict(shape=shape, coordinates=coords[:50]))
