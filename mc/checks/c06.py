"""C06: solvers converge to the MAP estimate."""

import itertools

from .. import graphs

NONLINEAR = ("gn", "lm", "dl", "fixed")
LINEAR = ("cholmod", "cg", "inexact")
TYPES = {"ab": ("R1", "R2", "R2", "R3"), "ba": ("R2", "R2", "R1", "R1")}
CURVED = {
    # name -> (factors, scale of the initial offsets)
    "loop-SO2": dict(group="SO2", poses=3), "loop-SE2": dict(group="SE2", poses=3),
    "loop-SO3": dict(group="SO3", poses=3), "loop-SE3": dict(group="SE3", poses=2),
    "square-SE2": dict(group="SE2", poses=4), "generic": dict(generic=True),
}
BOUNDS = {
    "quick": "all 6 connected topologies on up to 3 variables with two dimension assignments, 4 topologies on 4, x 4 nonlinear "
    "x 3 linear solvers x 4 weights x 4 initial values (6, up to 1e6 away, with tight tolerances), tight and default tolerances; chains of 12 and 20 variables with a loop; 6 nonlinear graphs with "
    "conflicting measurements x 4 x 2 solvers x 3 starts; 4 of them with default tolerances, small conflicts and all precisions "
    "scaled by 0.03, 1 and 30, x 4 solvers x 3 starts; default tolerances in single precision for 2 topologies x 12 pairs of solvers and 2 nonlinear graphs",
    "thorough": "all 44 connected topologies on up to 4 variables, 8 weights; nonlinear graphs with all 12 pairs of solvers and 8 starts, and with default tolerances x 5 scales x 8 starts",
}
ASSUMPTIONS = [
    "condition number of the whitened system below 100; conflicts small enough for Gauss-Newton to contract",
    "tight tolerances: solution to 1e-5; default tolerances: cost within 1e-3 of the optimum's (relative, plus 1e-6 of the initial cost)",
]


def connected(n):
    pairs = list(itertools.combinations(range(n), 2))
    for k in range(1 << len(pairs)):
        edges = [p for i, p in enumerate(pairs) if k >> i & 1]
        reach, grew = {0}, True
        while grew:
            new = {b for e in edges for a, b in (e, e[::-1]) if a in reach} | reach
            grew, reach = len(new) > len(reach), new
        if len(reach) == n:
            yield edges


def tasks(tier):
    out = []
    topologies = [(n, e) for n in (1, 2, 3) for e in connected(n)]
    if tier == "thorough":
        topologies += [(4, e) for e in connected(4)]
    for (n, edges), types in itertools.product(topologies, TYPES):
        for nl in NONLINEAR:
            out.append(dict(config=dict(x64=True), part="linear", n=n, edges=edges, types=types, pairs=[(nl, l) for l in LINEAR], weights=4 if tier == "quick" else 8))
    if tier == "quick":
        four = [[(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (2, 3), (3, 0)], list(itertools.combinations(range(4), 2))]
        for k, edges in enumerate(four):
            out.append(dict(config=dict(x64=True), part="linear", n=4, edges=edges, types="ab", weights=4,
                            pairs=[(nl, LINEAR[(i + k) % 3]) for i, nl in enumerate(NONLINEAR)]))
    for n in (12, 20) if tier == "quick" else (12, 20, 40):
        chain = [(i, i + 1) for i in range(n - 1)] + [(0, n // 2)]
        for nl in NONLINEAR:
            for l in LINEAR:
                out.append(dict(config=dict(x64=True), part="linear", n=n, edges=chain, types="ba", pairs=[(nl, l)], weights=2))
    for nl, l in itertools.product(NONLINEAR, LINEAR):
        for edges in ([(0, 1), (1, 2)], [(0, 1), (1, 2), (0, 2)]):
            out.append(dict(config=dict(x64=False), part="linear", n=3, edges=edges, types="ab", pairs=[(nl, l)], weights=4))
    for name in ("loop-SE2", "loop-SO3"):
        for nl in NONLINEAR:
            out.append(dict(config=dict(x64=False), part="defaults", problem=name, pair=(nl, "cholmod"), scale=1.0, starts=3))
    for name in CURVED:
        for nl in NONLINEAR:
            linear = LINEAR if tier == "thorough" else ("cholmod", ("cg", "inexact")[len(name) % 2])
            for l in linear:
                out.append(dict(config=dict(x64=True), part="curved", problem=name, pair=(nl, l), starts=3 if tier == "quick" else 8))
            if name in ("loop-SO2", "loop-SE2", "loop-SO3", "square-SE2"):
                for scale in (0.03, 1.0, 30.0) if tier == "quick" else (0.03, 0.1, 1.0, 30.0, 300.0):
                    out.append(dict(config=dict(x64=True), part="defaults", problem=name, pair=(nl, "cholmod"), scale=scale, starts=3 if tier == "quick" else 8))
    return out


def make_solver(nonlinear, linear, tight):
    import jaxfg

    from .. import machines

    linear = dict(
        cholmod=jaxfg.sparse.CholmodSolver(),
        cg=jaxfg.sparse.ConjugateGradientSolver(),
        inexact=jaxfg.sparse.InexactStepConjugateGradientSolver(),
    )[linear]
    settings = dict(machines.NO_TOLERANCE, max_iterations=100) if tight else {}
    if nonlinear == "fixed":
        return jaxfg.solvers.FixedIterationGaussNewtonSolver(linear_solver=linear, iterations=60 if tight else 10, unroll=False, verbose=False)
    cls = dict(gn=jaxfg.solvers.GaussNewtonSolver, lm=jaxfg.solvers.LevenbergMarquardtSolver, dl=jaxfg.solvers.DoglegSolver)[nonlinear]
    return cls(linear_solver=linear, verbose=False, **settings)


def run(task, ctx):
    dict(linear=linear_part, curved=curved_part, defaults=defaults_part)[task["part"]](task, ctx)


def linear_factors(n, edges, types, weight):
    """Anchor on the first variable, and one factor per edge; `weight` selects numbers only."""
    import numpy as np

    from .. import lab

    seen, nodes = {}, []
    for t in itertools.islice(itertools.cycle(TYPES[types]), n):
        seen[t] = seen.get(t, -1) + 1
        nodes.append(lab.var(t, 50 + seen[t]))
    dims = [lab.vtype_of(v).dim for v in nodes]
    scale = (1.0, 0.3, 4.0, 0.05, 9.0, 0.7, 2.0, 1.5)[weight]
    scale = 1.0 + (scale - 1.0) * 0.5  # Keep the systems well-conditioned

    class Weighted(lab.Noise):
        def __init__(self, kind, dim, variant, factor):
            import jaxfg

            super().__init__(kind, dim, variant)
            self.L = self.L * factor
            self.model = jaxfg.noises.DiagonalGaussian(np.diag(self.L)) if kind == "diag" else jaxfg.noises.Gaussian(self.L)

    factors = []
    for i, d in enumerate(dims):
        # The first variable is anchored, the others only weakly
        C = np.eye(d) + 0.2 * np.sin(i + weight + np.arange(d * d)).reshape(d, d)
        factors.append(lab.linear([nodes[i]], [C], np.cos(weight + i + np.arange(d)), Weighted("diag", d, i % 2, 1.0 if i == 0 else 0.2)))
    for e, (a, b) in enumerate(edges):
        k = max(dims[a], dims[b])
        A = np.eye(k, dims[a]) + 0.2 * np.sin(e + np.arange(k * dims[a])).reshape(k, -1)
        B = -np.eye(k, dims[b]) + 0.2 * np.cos(weight + e + np.arange(k * dims[b])).reshape(k, -1)
        factors.append(lab.linear([nodes[a], nodes[b]], [A, B], 2.0 * np.sin(3.0 * e + weight + np.arange(k)), Weighted("full", k, e % 2, scale)))
    return nodes, factors


def linear_part(task, ctx):
    import numpy as np

    from .. import lab

    n, edges = task["n"], task["edges"]
    for nonlinear, linear in task["pairs"]:
        for tight in (True, False) if lab.X64 else (False,):
            solver = make_solver(nonlinear, linear, tight)
            for weight in range(task["weights"]):
                case = dict(n=n, edges=edges, types=task["types"], solver=[nonlinear, linear], tight=tight, weight=weight)
                if not ctx.wanted(case):
                    continue
                with ctx.case(case):
                    nodes, factors = linear_factors(n, edges, task["types"], weight)
                    variables = lab.variables_of(factors)
                    columns, dim = lab.columns_of(variables)
                    zero = {v: np.zeros(lab.vtype_of(v).dim) for v in variables}
                    J, r = lab.ref_system(factors, zero)
                    if np.linalg.cond(J) > 100:
                        ctx.count("skipped_ill_conditioned")
                        continue
                    x = np.linalg.lstsq(J, -r, rcond=None)[0]
                    best = {v: x[columns[v] : columns[v] + lab.vtype_of(v).dim] for v in variables}
                    optimum = lab.ref_cost(factors, best)
                    graph = lab.make_graph(factors)
                    ctx.state((n, str(edges), task["types"], weight))
                    for start in range(6 if tight else 4):
                        initial = {v: (0.0, 1.0, -7.0, 100.0, 2e4, -1e6)[start] * np.cos(start + i + np.arange(lab.vtype_of(v).dim)) for i, v in enumerate(variables)}
                        found = lab.read_assignments(graph.solve(lab.make_assignments(initial, variables[::-1]), solver=solver), variables)
                        ctx.transition()
                        if tight:
                            error = lab.same_values(found, best)
                            ctx.check(error < 1e-5, lambda: f"{nonlinear}+{linear} from start {start}: {[v.tolist() for v in found.values()]} instead of {[v.tolist() for v in best.values()]}")
                        else:
                            cost, begin = lab.ref_cost(factors, found), lab.ref_cost(factors, initial)
                            ctx.check(
                                cost <= optimum * (1 + (1e-3 if lab.X64 else 1e-2)) + 1e-6 * begin + (1e-9 if lab.X64 else 1e-5),
                                f"{nonlinear}+{linear} from start {start} with default tolerances: cost {cost}, optimum {optimum}, initially {begin}",
                            )
                    ctx.outcome(np.round(x, 4).tolist())
            ctx.trace()
    ctx.sample(dict(n=n, edges=edges, pairs=task["pairs"]))


def curved_factors(name, conflict=0.25):
    """A loop of poses whose measurements do not add up, or generic nonlinear factors."""
    import numpy as np

    from .. import lab, ref

    spec = CURVED[name]
    if "generic" in spec:
        return [
            lab.generic(("C",), (50,), res_dim=2),
            lab.generic(("Y", "R1"), (50, 50), res_dim=4, noise="full", variant=1),
            lab.generic(("C", "Y"), (51, 50), res_dim=3, variant=2),
            lab.generic(("R1", "C"), (50, 50), res_dim=2, variant=1),
        ]
    group, n = spec["group"], spec["poses"]
    g, vt = ref.GROUPS[group], lab.VTYPES[group]
    truth = [vt.points[i % 5] for i in range(n)]
    factors = [lab.prior(group, 50, mu=truth[0], noise="full"), lab.prior(group, 50, mu=g.mul(truth[0], g.exp(0.4 * conflict * np.ones(g.ldim))), variant=1)]
    for i in range(n):
        a, b = i, (i + 1) % n
        off = conflict * np.sin(1.0 + 2 * i + np.arange(g.ldim))
        z = g.mul(g.mul(g.inv(truth[a]), truth[b]), g.exp(off))
        factors.append(lab.between(group, 50 + a, 50 + b, noise=("full", "diag", "fullcov")[i % 3], variant=i % 3, measured=z))
    return factors


def curved_part(task, ctx):
    import numpy as np

    from .. import lab
    from .c05 import reference

    factors = curved_factors(task["problem"])
    variables = lab.variables_of(factors)
    best = reference(factors, lab.make_values(variables))
    graph = lab.make_graph(factors)
    solver = make_solver(*task["pair"], tight=True)
    columns, dim = lab.columns_of(variables)
    for start in range(task["starts"]):
        case = dict(problem=task["problem"], pair=task["pair"], start=start)
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            initial = lab.ref_retract(best, 0.15 * (1 + start) * np.sin(start + 1.3 * np.arange(dim)), columns)
            found = lab.read_assignments(graph.solve(lab.make_assignments(initial), solver=solver), variables)
            ctx.transition()
            J, r = lab.ref_system(factors, found)
            gradient = np.linalg.norm(J.T @ r)
            cost = lab.ref_cost(factors, found)
            ctx.check(
                np.isfinite(cost) and gradient < 1e-5 * (1 + np.linalg.norm(J) * np.linalg.norm(r)),
                f"{task['pair']} from start {start} stops where the gradient is {gradient}, cost {cost} (optimum {lab.ref_cost(factors, best)})",
            )
            ctx.check(cost <= lab.ref_cost(factors, initial), "cost went up")
            ctx.outcome(np.round(cost, 5))
            ctx.state((task["problem"], start))
    ctx.trace()
    ctx.sample(dict(problem=task["problem"], cost=cost))


def defaults_part(task, ctx):
    """Default tolerances, on problems whose costs are of different magnitudes."""
    import jax_dataclasses as jdc
    import numpy as np

    import jaxfg

    from .. import lab
    from .c05 import reference

    factors = curved_factors(task["problem"], conflict=0.02)
    variables = lab.variables_of(factors)
    best = reference(factors, lab.make_values(variables))  # Does not depend on the scale
    for f in factors:
        f.noise.L = f.noise.L * task["scale"]
        model = jaxfg.noises.DiagonalGaussian(np.diag(f.noise.L)) if f.noise.kind == "diag" else jaxfg.noises.Gaussian(f.noise.L)
        f.jaxfg = jdc.replace(f.jaxfg, noise_model=model)
    graph = lab.make_graph(factors)
    solver = make_solver(*task["pair"], tight=False)
    columns, dim = lab.columns_of(variables)
    for start in range(task["starts"]):
        case = dict(problem=task["problem"], pair=task["pair"], scale=task["scale"], start=start)
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            initial = lab.ref_retract(best, 0.15 * (1 + start) * np.sin(start + 1.3 * np.arange(dim)), columns)
            found = lab.read_assignments(graph.solve(lab.make_assignments(initial), solver=solver), variables)
            ctx.transition()
            cost, optimum, begin = (lab.ref_cost(factors, v) for v in (found, best, initial))
            ctx.check(
                cost <= optimum * (1 + 1e-2) + 1e-6 * begin + (0 if lab.X64 else 1e-5),
                f"{task['pair']} from start {start}, precisions x {task['scale']}, default tolerances: cost {cost}, optimum {optimum}, initially {begin}",
            )
            ctx.outcome(np.round(cost / begin, 7))
            ctx.state((task["problem"], task["scale"], start))
    ctx.trace()
    ctx.sample(dict(problem=task["problem"], scale=task["scale"], cost=cost, optimum=optimum, initially=begin))
