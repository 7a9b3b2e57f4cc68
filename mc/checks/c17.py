"""C17: Huber noise optimizes the Huber loss."""

import itertools

from .. import graphs

WRAPPED = ("diag", "diagcov", "full", "upper", "fullcov")
# Factors on one point: direction of the measurement, its distance, threshold (None: not robust)
OFFSETS = ((0.0, 0.1), (1.1, 0.8), (2.6, 3.0), (4.0, 30.0))
DELTAS = (None, 0.3, 1.0, 5.0)
BOUNDS = {
    "quick": "5 wrapped models x dimensions 1..4 x 7 thresholds from 1e-6 to 1e7 x 11 norms around the threshold; gradients of all graphs "
    "of up to 2 factors from 16 (offset, threshold) letters, and of chains; minimizers for all sorted triples of 10 letters",
    "thorough": "dimensions up to 6; gradients of all graphs of up to 3 factors; minimizers for all sorted tuples of up to 4 of 16 letters",
}
ASSUMPTIONS = [
    "Gaussian wrapped models; minimizers are compared where the Huber loss is strictly convex (curvature above 0.02)",
    "Gauss-Newton iterations on the robust problem converge linearly; 400 iterations without tolerances",
]
LETTERS = list(itertools.product(range(len(OFFSETS)), range(len(DELTAS))))
SHORT = [LETTERS[i] for i in (0, 2, 3, 5, 6, 9, 10, 11, 13, 14)]


def tasks(tier):
    top = 5 if tier == "quick" else 7
    out = [dict(config=dict(x64=x), part="models", wrapped=w, dims=list(range(1, top if x else 3))) for w in WRAPPED for x in (True, False)]
    words = list(graphs.words(LETTERS, (1, 2) if tier == "quick" else (1, 2, 3)))
    out += [dict(config=dict(x64=True), part="gradient", words=c) for c in graphs.chunks(words, 40)]
    if tier == "quick":
        triples = list(itertools.combinations_with_replacement(SHORT, 3))
    else:
        triples = [w for n in (2, 3, 4) for w in itertools.combinations_with_replacement(LETTERS, n)]
    # Graphs with equally many factors of each kind share compiled code
    triples.sort(key=lambda w: pattern(w))
    for _, group in itertools.groupby(triples, key=pattern):
        for solver in ("gn", "fixed"):
            out += [dict(config=dict(x64=True), part="minimizer", solver=solver, words=c) for c in graphs.chunks(group, 120)]
    return out


def pattern(word):
    """Which positions hold robust factors; decides what needs to be compiled."""
    return "".join("n" if DELTAS[d] is None else "h" for _, d in word)


def run(task, ctx):
    import jax

    if task["part"] == "models":
        for dim, delta in itertools.product(task["dims"], (1e-6, 1e-3, 0.05, 0.7, 2.0, 1e3, 1e7)):
            case = dict(wrapped=task["wrapped"], dim=dim, delta=delta)
            if ctx.wanted(case):
                with ctx.case(case):
                    check_model(ctx, **case)
        return
    check = check_gradient if task["part"] == "gradient" else check_minimizer
    with jax.disable_jit(task["part"] == "gradient"):
        for word in task["words"]:
            if ctx.wanted(word):
                with ctx.case(word):
                    check(ctx, word, task)


def check_model(ctx, wrapped, dim, delta):
    import numpy as np

    from .. import lab

    noise = lab.Noise(f"huber-{wrapped}", dim, 1, delta)
    inner = noise.inner
    tol = 1e-9 if lab.X64 else 1e-4
    same = 1e-13 if lab.X64 else 1e-6
    ctx.check(noise.model.get_residual_dim() == dim, "wrong residual dimension")
    # On, next to, and far from both sides of the threshold
    for k, factor in enumerate((0.0, 1e-6, 0.3, 0.999, 1 - 1e-7, 1.0, 1 + 1e-7, 1.001, 3.0, 1e3, 1e6)):
        direction = np.cos(0.4 + k + 1.9 * np.arange(dim))
        r = direction * (factor * delta / np.linalg.norm(inner.L @ direction))
        plain = np.asarray(inner.model.whiten_residual_vector(r), float)
        got = np.asarray(noise.model.whiten_residual_vector(r), float)
        J = np.sin(0.5 + np.arange(2 * dim) + k).reshape(dim, 2)
        got_J = np.asarray(noise.model.whiten_jacobian(J, residual_vector=np.asarray(got)), float)
        plain_J = np.asarray(inner.model.whiten_jacobian(J, residual_vector=np.asarray(plain)), float)
        ctx.transition()
        ctx.state((wrapped, dim, delta, factor))
        norm = np.linalg.norm(plain)
        weight = 1.0 if factor <= 1 else np.sqrt(delta / norm)
        if factor < 0.9999:
            ctx.check(
                lab.close(got / delta, plain / delta, same) and lab.close(got_J, plain_J, same),
                f"norm {factor} x threshold {delta}: residual {got.tolist()} is not {plain.tolist()}, or Jacobian "
                f"{got_J.tolist()} is not {plain_J.tolist()}",
            )
        else:
            loose = max(tol, 1e-6) if abs(factor - 1) < 1e-5 else tol
            ctx.check(lab.close(got / delta, weight * plain / delta, loose), lambda: f"norm {factor} x threshold {delta}: residual {got.tolist()} is not {weight} x {plain.tolist()}")
            # The gradient of the Huber loss is J' w (weight squared)
            gradient = got_J.T @ got / delta
            expected = plain_J.T @ (plain * weight**2) / delta
            ctx.check(lab.close(gradient, expected, loose, scale=1.0), lambda: f"norm {factor} x threshold {delta}: gradient {gradient.tolist()} is not {expected.tolist()}")
        ctx.outcome((factor < 1, np.round(got / delta, 4).tolist()))
    ctx.trace()


def point_factors(word, wrapped="full"):
    """Factors that pull one 2D point, by `word`; and their (L, target, threshold)."""
    import numpy as np

    from .. import lab

    factors = []
    x = lab.var("R2", 20)
    for i, (o, d) in enumerate(word):
        angle, distance = OFFSETS[o]
        target = distance * np.array([np.cos(angle + 0.3 * i), np.sin(angle + 0.3 * i)])
        kind = wrapped if DELTAS[d] is None else f"huber-{wrapped}"
        noise = lab.Noise(kind, 2, i, DELTAS[d])
        C = np.eye(2) + 0.2 * np.cos(i + np.arange(4)).reshape(2, 2)
        factors.append(lab.linear([x], [C], C @ target, noise))
        factors[-1].C, factors[-1].target = C, target
    return x, factors


def huber(factors, x):
    """Huber loss (scaled like a cost), gradient and the weighted normal matrix."""
    import numpy as np

    loss, gradient, H = 0.0, np.zeros(2), np.zeros((2, 2))
    for f in factors:
        A = f.noise.L @ f.C
        w = A @ (x - f.target)
        n = np.linalg.norm(w)
        delta = f.noise.delta
        robust = delta is not None and n >= delta
        weight = delta / n if robust else 1.0
        loss += 2 * delta * n - delta**2 if robust else n**2
        gradient += weight * A.T @ w
        H += weight * A.T @ A
    return loss, gradient, H


def check_gradient(ctx, word, task):
    import numpy as np

    from .. import lab
    from .c02 import dense

    v, factors = point_factors(word, ("full", "diag", "fullcov")[sum(o for o, _ in word) % 3])
    graph = lab.make_graph(factors)
    for x in ([0.0, 0.0], [0.4, -0.9], [5.0, 2.0]):
        x = np.array(x)
        assignments = lab.make_assignments({v: x})
        cost, residual = graph.compute_cost(assignments)
        J = dense(graph.compute_whitened_residual_jacobian(assignments, residual))
        gradient = J.T @ np.asarray(residual)
        _, expected, H = huber(factors, x)
        # The gradient is that of the loss: compare with its differences too
        h = 1e-5
        slope = [(huber(factors, x + h * e)[0] - huber(factors, x - h * e)[0]) / (4 * h) for e in np.eye(2)]
        ctx.check(lab.close(expected, slope, 1e-4), f"reference is inconsistent: {expected.tolist()} {slope}")
        ctx.transition()
        ctx.check(lab.close(gradient, expected, 1e-8), f"gradient {gradient.tolist()} instead of {expected.tolist()} at {x.tolist()}")
        ctx.check(lab.close(J.T @ J, H, 1e-8), lambda: f"normal matrix {(J.T @ J).tolist()} instead of {H.tolist()} at {x.tolist()}")
        ctx.outcome(np.round(gradient, 4).tolist())
    ctx.state(tuple(map(tuple, word)))
    ctx.trace()


def check_minimizer(ctx, word, task):
    import numpy as np

    import jaxfg

    from .. import lab

    v, factors = point_factors(word)
    # Reference: iteratively reweighted least squares to full convergence
    x = np.zeros(2)
    for k in range(2000):
        _, g, H = huber(factors, x)
        step = np.linalg.solve(H, g)
        x = x - step
        if np.linalg.norm(step) < 1e-13:
            break
    h = 1e-4
    curvature = np.array([(huber(factors, x + h * e)[1] - huber(factors, x - h * e)[1]) / (2 * h) for e in np.eye(2)])
    if k > 300 or np.min(np.linalg.eigvalsh((curvature + curvature.T) / 2)) < 0.02:
        ctx.count("skipped_not_strictly_convex")
        return
    settings = dict(linear_solver=jaxfg.sparse.CholmodSolver(), verbose=False)
    if task["solver"] == "gn":
        solver = jaxfg.solvers.GaussNewtonSolver(
            max_iterations=400, cost_tolerance=0.0, gradient_tolerance=1e-12, parameter_tolerance=0.0, **settings
        )
    else:
        solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(
            iterations=400, linear_solver=jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-12), unroll=False
        )
    graph = lab.make_graph(factors)
    ctx.state(tuple(map(tuple, word)))
    for start in ([0.0, 0.0], [-3.0, 8.0]):
        found = graph.solve(lab.make_assignments({v: np.array(start)}), solver=solver)
        got = lab.read_assignments(found, [v])[v]
        ctx.transition()
        ctx.check(
            np.linalg.norm(got - x) < 1e-5,
            f"{task['solver']} from {start} ends at {got.tolist()}; the Huber loss has its minimum at {x.tolist()}",
        )
        ctx.outcome(np.round(got, 4).tolist())
    ctx.trace()
    ctx.sample(dict(word=word, minimizer=x.tolist()))
