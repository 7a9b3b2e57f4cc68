"""C16: Gaussian noise models define the right density."""

import itertools

from .. import graphs

KINDS = ("diag", "diagcov", "diagcovlist", "full", "upper", "fullcov")
# Noise models that graphs are made of: kind, dimension, scale of the square-root precision
MIX = (
    ("diag", 1, 1.0), ("diag", 2, 3.0), ("diagcov", 2, 0.2), ("full", 2, 1.0), ("upper", 3, 0.5),
    ("fullcov", 2, 2.0), ("fullcov", 3, 1.0), ("diag", 4, 1e80), ("full", 4, 1e-80), ("diag", 2, -1.5), ("full", 2, -0.7),
)
BOUNDS = {
    "quick": "6 constructions x dimensions 1..5 x 3 parameter sets x 7 scales from 1e-120 to 1e120 x 6 residuals; "
    "likelihoods of all graphs of up to 3 factors (4 for four kinds) over 11 noise models",
    "thorough": "dimensions up to 8; likelihoods of all graphs of up to 4 factors over 11 noise models",
}
ASSUMPTIONS = ["covariances and square-root precisions with condition number below 1e3; float64"]
SCALES = (1e-120, 1e-60, 1e-3, 1.0, 1e3, 1e60, 1e120)


def tasks(tier):
    dims = range(1, 6 if tier == "quick" else 9)
    out = [dict(config=dict(x64=True), part="models", kind=k, dims=list(dims)) for k in KINDS]
    out += [dict(config=dict(x64=False), part="models", kind=k, dims=[1, 2, 3]) for k in KINDS]
    letters = range(len(MIX))
    words = list(graphs.words(letters, (1, 2)))
    words += [w for w in graphs.words(letters, (3,)) if tier == "thorough" or w == tuple(sorted(w))]
    words += list(graphs.words((1, 2, 3, 5), (3,))) + list(graphs.words((1, 3, 5, 7), (4,)))
    if tier == "thorough":
        words += list(graphs.words(letters, (4,)))
    words = list(dict.fromkeys(words))
    out += [dict(config=dict(x64=True), part="nll", words=c) for c in graphs.chunks(words, 60)]
    return out


def models(kind, dim, variant, scale):
    """(model, square-root precision or None, covariance) with independent numpy covariance.

    `scale` multiplies the square-root precision."""
    import numpy as np

    import jaxfg

    k = np.arange(dim)
    d = 0.7 + 0.25 * k + 0.1 * variant
    B = np.sin(1.0 + 2.4 * np.arange(dim * dim) + variant).reshape(dim, dim)
    M = np.eye(dim) * (1.5 + 0.2 * k) + 0.35 * B
    if kind == "diag":
        s = scale * d * (-1.0) ** (k * (variant == 2))
        return jaxfg.noises.DiagonalGaussian(s), np.diag(s)
    if kind.startswith("diagcov"):
        c = 1.0 / (scale * d) ** 2
        c = list(c) if kind == "diagcovlist" else c
        return jaxfg.noises.DiagonalGaussian.make_from_covariance(c), np.diag(scale * d)
    if kind in ("full", "upper"):
        S = scale * (np.tril(M) if kind == "full" else np.triu(M) if variant else M)
        return jaxfg.noises.Gaussian(S), S
    cov = (M @ M.T) / scale**2
    return jaxfg.noises.Gaussian.make_from_covariance(cov), scale * np.linalg.inv(M)


def run(task, ctx):
    import jax

    if task["part"] == "models":
        for dim in task["dims"]:
            for variant, scale in itertools.product(range(3), SCALES):
                case = dict(kind=task["kind"], dim=dim, variant=variant, scale=scale)
                if ctx.wanted(case):
                    with ctx.case(case):
                        check_model(ctx, **case)
    else:
        with jax.disable_jit():
            for word in task["words"]:
                if ctx.wanted(word):
                    with ctx.case(word):
                        check_nll(ctx, word)


def check_model(ctx, kind, dim, variant, scale):
    import numpy as np

    from .. import lab

    if not lab.X64 and not 1e-4 < scale < 1e4:
        return
    model, S = models(kind, dim, variant, scale)
    ctx.state((kind, dim, variant, scale))
    ctx.check(model.get_residual_dim() == dim, f"residual dimension {model.get_residual_dim()}")
    tol = 1e-8 if lab.X64 else 1e-3
    for i in range(6):
        r = np.cos(0.3 + 1.7 * np.arange(dim) + i) * (0.0 if i == 0 else 1.0) + (i == 1) * np.eye(dim)[0]
        J = np.sin(0.5 + np.arange(3 * dim) + i).reshape(dim, 3)
        w = np.asarray(model.whiten_residual_vector(r), float)
        distance = np.sum((S @ r / scale) ** 2)
        ctx.transition()
        ctx.check(
            w.shape == (dim,) and lab.close(np.sum((w / scale) ** 2), distance, tol),
            lambda: f"whitened residual {w.tolist()} of {r.tolist()}: squared norm is not {distance} x {scale}^2",
        )
        # A Jacobian is whitened by the map that whitens residuals, column by column
        got = np.asarray(model.whiten_jacobian(J, residual_vector=np.asarray(w)), float)
        columns = np.stack([np.asarray(model.whiten_residual_vector(J[:, c]), float) for c in range(3)], axis=1)
        ctx.check(
            got.shape == columns.shape and lab.close(got / scale, columns / scale, tol),
            lambda: f"Jacobian is whitened to {got.tolist()}, its columns to {columns.tolist()}",
        )
        G = columns / scale
        ctx.check(
            lab.close(G.T @ G, (S @ J / scale).T @ (S @ J / scale), tol),
            lambda: "inner products of whitened columns are not those of the density",
        )
        ctx.outcome(np.round(w / scale, 4).tolist())
    ctx.trace()
    ctx.sample(dict(kind=kind, dim=dim, residual=r.tolist(), whitened=w.tolist()))


def check_nll(ctx, word):
    import numpy as np

    from .. import lab

    variables, factors, expected, scale = [], [], 0.0, 1.0
    values = {}
    for position, letter in enumerate(word):
        kind, dim, s = MIX[letter]
        model, S = models(kind, dim, position % 2, s)
        v = lab.var(f"R{min(dim, 3)}", 10 + position % 2)
        vt = lab.vtype_of(v)
        n = vt.dim
        C = np.cos(1.0 + position + np.arange(dim * n)).reshape(dim, n)
        offset = np.sin(2.0 * position + np.arange(dim))
        values[v] = vt.points[position % 2]
        if s > 1e6:  # Keep distances representable
            C, offset = 0 * C, 0 * offset
        r = C @ values[v] - offset

        class N:  # noise of mc.lab.Factor
            pass

        N.model, N.dim = model, dim
        factors.append(lab.linear([v], [C], offset, N))
        expected += np.sum((S @ r) ** 2) - 2 * (np.linalg.slogdet(S / s)[1] + dim * np.log(abs(s)))
        scale += abs(np.sum((S @ r) ** 2)) + abs(2 * dim * np.log(abs(s)))
    graph = lab.make_graph(factors)
    assignments = lab.make_assignments(values)
    nll = float(graph.compute_joint_nll(assignments))
    ctx.state(tuple(word))
    ctx.transition()
    ctx.trace(len(word))
    ctx.check(
        lab.close(nll, expected, 1e-8, scale),
        f"negative log-likelihood {nll}, expected {expected}",
    )
    ctx.outcome(round(nll, 5))

