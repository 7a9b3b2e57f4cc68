"""C12: linear solvers solve the damped normal equations."""

import itertools

from .. import graphs

BOUNDS = {
    "quick": "every sparsity pattern of structural full column rank of all shapes up to 3x3, and of 4x3 with at most 7 "
    "nonzeros; 2 value sets; right-hand sides of norms 1e-7 to 1e6; 2-24 nonzero orders; explicit zeros; split entries; columns scaled by 1e-4, 1 and 1e3 in all combinations; dampings 0, 0.02, 2.5, and 1e-7 to 1e10; iteration numbers up to 4999; three solvers; "
    "bands, arrows, grids and weakly anchored chains with 8..400 columns",
    "thorough": "every pattern of all shapes up to 4x3 and 5x2, 2x2..3x2 with all orders; bands, arrows, grids and weakly anchored chains with up "
    "to 1025 columns",
}
ASSUMPTIONS = [
    "condition number of A below 100 (patterns whose value sets exceed it use the other value set)",
    "CG residual bound: 1.01 x tolerance x |b|, float64",
]


def full_rank(m, n, pattern):
    """Whether rows can be matched to all columns."""
    cols = [[r for r in range(m) if pattern >> (r * n + c) & 1] for c in range(n)]
    return any(len(set(p)) == n for p in itertools.product(*cols))


def tasks(tier):
    out = []
    shapes = [(m, n) for n in (1, 2, 3) for m in range(n, 4)] + [(4, 2), (4, 3)]
    if tier == "thorough":
        shapes += [(5, 2)]
    for m, n in shapes:
        patterns = [p for p in range(1 << (m * n)) if full_rank(m, n, p)]
        if (m, n) == (4, 3) and tier == "quick":
            patterns = [p for p in patterns if bin(p).count("1") <= 7]
        # One work item per number of nonzeros keeps compiled functions together
        by_count = {}
        for p in patterns:
            by_count.setdefault(bin(p).count("1"), []).append(p)
        for count, group in by_count.items():
            for c in graphs.chunks(group, 200):
                for solver in ("cholmod", "cg", "inexact"):
                    out.append(dict(config=dict(x64=True), solver=solver, m=m, n=n, patterns=c))
    for solver in ("cholmod", "cg", "inexact"):
        group = [p for p in range(1 << 6) if full_rank(3, 2, p)]
        out.append(dict(config=dict(x64=False), solver=solver, m=3, n=2, patterns=group))
        for n in (150, 400):
            out.append(dict(config=dict(x64=True), solver=solver, structured="chain", n=n))
        for kind in ("band", "arrow", "grid", "weak"):
            for n in (8, 20, 60, 150, 400) if tier == "quick" else (8, 20, 60, 150, 257, 400, 1025):
                out.append(dict(config=dict(x64=True), solver=solver, structured=kind, n=n))
    return out


def value_sets(count):
    import numpy as np

    k = np.arange(count)
    yield 1.0 + 0.8 * np.sin(1.0 + 2.1 * k)
    yield (-1.0) ** k * (0.6 + 0.5 * np.abs(np.cos(0.7 + 1.3 * k)))


def structured(kind, n):
    """(rows, cols, values, shape) of typical sparse systems with well-conditioned columns."""
    import numpy as np

    if kind == "chain":  # Conjugate gradients need more than 100 iterations
        entries = [(i, i, 0.06 + 0.018 * np.sin(i)) for i in range(n)]
        entries += [(n + i, i + k, 2.0 * k - 1.0) for i in range(n - 1) for k in (0, 1)]
        r, c, v = zip(*entries)
        return np.array(r), np.array(c), np.array(v), (2 * n - 1, n)
    entries = [(i, i, ((0.06 if n < 100 else 0.03) if kind == "weak" else 1.5) + 0.04 * np.sin(i)) for i in range(n)]
    row = n
    if kind == "weak":  # Conjugate gradients need nearly all of their iterations
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif kind == "band":
        pairs = [(i, i + 1) for i in range(n - 1)] + [(i, i + 3) for i in range(n - 3)]
    elif kind == "arrow":
        pairs = [(0, i) for i in range(1, n)] + [(i, n - 1) for i in range(0, n - 1, 3)]
    else:
        w = max(2, int(np.sqrt(n)))
        pairs = [(i, i + 1) for i in range(n - 1) if (i + 1) % w] + [(i, i + w) for i in range(n - w)]
    for k, (a, b) in enumerate(pairs):
        entries += [(row, a, -0.5 - 0.1 * np.cos(k)), (row, b, 0.6 + 0.1 * np.sin(k))]
        row += 1
    r, c, v = zip(*entries)
    return np.array(r), np.array(c), np.array(v), (row, n)


def run(task, ctx):
    import jax
    import numpy as np

    import jaxfg

    if task["solver"] == "cholmod":
        solvers = [("cholmod", jaxfg.sparse.CholmodSolver(), None)]
    elif task["solver"] == "cg":
        solvers = [(f"cg {t}", jaxfg.sparse.ConjugateGradientSolver(tolerance=t), t) for t in (1e-5, 1e-2)]
    else:
        solvers = [
            (f"inexact {e}", jaxfg.sparse.InexactStepConjugateGradientSolver(inexact_step_eta=e), e)
            for e in (1e-2, 0.5)
        ]

    @jax.jit
    def solve(solver, A, b, lambd, iteration):
        return solver.solve_subproblem(A=A, ATb=b, lambd=lambd, iteration=iteration)

    if "structured" in task:
        r, c, v, shape = structured(task["structured"], task["n"])
        k = len(v)
        orders = [np.arange(k), np.arange(k)[::-1], np.argsort(np.sin(1.0 + np.arange(k)))]
        case = dict(structured=task["structured"], n=task["n"])
        with ctx.case(case):
            check_matrix(ctx, case, solvers, solve, r, c, v, shape, orders, full=False)
        return

    m, n = task["m"], task["n"]
    for pattern in task["patterns"]:
        r, c = np.array([(i // n, i % n) for i in range(m * n) if pattern >> i & 1]).T
        k = len(r)
        for which, values in enumerate(value_sets(k)):
            dense = np.zeros((m, n))
            dense[r, c] = values
            singular = np.linalg.svd(dense, compute_uv=False)
            if singular[-1] < 1e-2 * singular[0]:
                ctx.count("skipped_ill_conditioned")
                continue
            if k <= 4 and (m, n) != (4, 3):
                orders = [np.array(p) for p in itertools.permutations(range(k))]
                orders = orders if which == 0 else orders[::7]
            else:
                orders = [np.arange(k), np.argsort(np.sin(1.0 + np.arange(k)))]
            case = dict(shape=[m, n], pattern=pattern, values=which)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                check_matrix(ctx, case, solvers, solve, r, c, values, (m, n), orders)
            if task["config"]["x64"] and (which == 0 and m <= 3 and n <= 2 or (which == 1 and n == 3 == k)):
                # Columns of very different length
                for p, powers in enumerate(itertools.product((-4, 0, 3), repeat=n)):
                    if len(set(powers)) == 1 and powers[0] == 0:
                        continue
                    case = dict(shape=[m, n], pattern=pattern, values=which, column_powers=powers)
                    if not ctx.wanted(case):
                        continue
                    with ctx.case(case):
                        scaled = values * np.power(10.0, powers)[c]
                        check_matrix(ctx, case, solvers, solve, r, c, scaled, (m, n), orders[:1], rich=False)
    ctx.sample(dict(shape=[m, n], rows=r.tolist(), cols=c.tolist(), values=values.tolist()))


def check_matrix(ctx, case, solvers, solve, r, c, v, shape, orders, full=True, rich=True):
    import numpy as np

    import jaxfg

    from .. import lab

    m, n = shape
    # Weak chains need more iterations than there are for tighter tolerances
    late = (24, 99, 999, 4999) if lab.X64 and case.get("structured") not in ("weak", "chain") else (24,)
    dense = np.zeros(shape)
    np.add.at(dense, (r, c), v)
    ctx.state((shape, dense.round(9).tolist() if m * n < 100 else (str(case))))

    def matrix(rows, cols, values):
        return jaxfg.sparse.SparseCooMatrix(
            values=values, coords=jaxfg.sparse.SparseCooCoordinates(rows=rows, cols=cols), shape=shape
        )

    variants = [("order", o, matrix(r[o], c[o], v[o])) for o in orders]
    if full:
        # Explicit zeros at every other position
        zeros = [(i, j) for i in range(m) for j in range(n) if dense[i, j] == 0]
        if zeros:
            zr, zc = np.array(zeros).T
            variants.append(
                ("explicit zeros", None,
                 matrix(np.concatenate([zr, r]), np.concatenate([zc, c]), np.concatenate([np.zeros(len(zr)), v])))
            )
        # The first entry split in two: entries at one position add up
        variants.append(
            ("split entry", None,
             matrix(np.append(r, r[0]), np.append(c, c[0]), np.append(np.where(np.arange(len(v)) == 0, 0.25 * v, v), 0.75 * v[0])))
        )
    rhs = [np.cos(1.0 + np.arange(n)), dense.T @ np.sin(2.0 + np.arange(m))]
    if full and rich:
        rhs += [1e-7 * rhs[0], 1e6 * rhs[0]]
    for index, (what, order, A) in enumerate(variants):
        first = index == 0 or order is None
        for name, solver, setting in solvers:
            iterations = (0, 1, 9) if name.startswith("inexact") else (0, 3) if first else (0,)
            dampings = (0.0, 0.02, 2.5) if first else (0.0, 0.02)
            work = [(l, b, i) for l in dampings for b in (rhs if first else rhs[:1]) for i in iterations]
            if index == 0 and rich:
                # Very small and very large dampings, late iterations
                work += [(l, rhs[0], 0) for l in ((1e-7, 40.0, 1e3, 1e7, 1e10) if lab.X64 else (40.0, 1e4))]
                work += [(0.0, rhs[0], i) for i in late] if name.startswith("inexact") else [(0.0, rhs[0], 99)]
            for lambd, b, iteration in work:
                x = np.asarray(solve(solver, A, b, lambd, iteration), float)
                ctx.transition()
                judge(ctx, dense, b, x, lambd, iteration, name, setting, what, A)
    ctx.trace()


def judge(ctx, dense, b, x, lambd, iteration, name, setting, what, A):
    import numpy as np

    from .. import lab

    n = dense.shape[1]
    ctx.check(x.shape == (n,) and np.all(np.isfinite(x)), f"{name}, {what}: answer {x.tolist()}")
    H = dense.T @ dense
    if name == "cholmod":
        D = (lambd + 1e-5) * np.eye(n)
        bound = 1e-9 if lab.X64 else 1e-3
    else:
        D = lambd * np.diag(np.diag(H))
        bound = 1.01 * (setting if name.startswith("cg") else setting / (iteration + 1))
        bound = bound + (1e-9 if lab.X64 else 1e-4)
    residual = np.linalg.norm((H + D) @ x - b) / np.linalg.norm(b)
    ctx.outcome((name, np.round(x, 3).tolist()))
    if residual <= bound:
        return
    if name != "cholmod" and what == "split entry" and lambd > 0:
        # Known: damping uses the sum of squares of the listed values as the diagonal of A'A
        listed = np.zeros(n)
        np.add.at(listed, np.asarray(A.coords.cols), np.asarray(A.values) ** 2)
        other = np.linalg.norm((H + lambd * np.diag(listed)) @ x - b) / np.linalg.norm(b)
        if other <= bound:
            ctx.finding("cg-duplicate-diagonal", f"{name}, lambda={lambd}, {dense.tolist()}")
            return
    ctx.fail(
        f"{name}, {what}, lambda={lambd}, iteration={iteration}: relative residual {residual:.3g} exceeds {bound:.3g} "
        f"for b={b.tolist()}, answer {x.tolist()}"
    )
