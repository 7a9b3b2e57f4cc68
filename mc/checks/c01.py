"""C01: stacking keeps every factor's residual intact."""

import itertools

from .. import graphs

BOUNDS = {
    "quick": "all factor sequences of length <= 2 over 44 letters (and pairs of 9 geometry letters with 4 others), <= 3 over 10, <= 4 over 5; "
    "groups of 1..6 factors and of 28 sizes up to 513 (around powers of two), crowds of all letters; 35000 and 70000 parameters and residuals; all pairs of 17 special numbers (zeros, tiny, huge, infinite, NaN) as values; seven kinds of iterables; parameters of all pairs of 18 forms (shapes, dtypes, scalars, containers); each with two value sets and two assignment orders; "
    "compiled evaluation for all sequences of length <= 2 over 12 letters",
    "thorough": "all factor sequences of length <= 3 over 53 letters, <= 4 over 8, "
    "<= 5 over 5; groups of 1..16 factors and of 32 sizes up to 1025; each with two value sets and two assignment orders",
}
ASSUMPTIONS = [
    "residual functions, retractions and noise models of the alphabet; float64 comparison to 1e-8",
]


def tasks(tier):
    words = [(l,) for l in graphs.LETTERS]
    if tier == "quick":
        simple = [l for l in graphs.LETTERS if l not in graphs.GEOMETRY]
        words += list(graphs.words(simple, (2,)))
        for a in graphs.GEOMETRY:
            words += [w for b in ("u2b", "b01", "pse2", "bwse2") for w in ((a, b), (b, a))]
    else:
        words += list(graphs.words(graphs.LETTERS, (2,)))
    words += list(graphs.words(graphs.CORE[:10] if tier == "quick" else graphs.CORE, (3,)))
    words += list(graphs.words(graphs.INNER, (4,)))
    words += list(graphs.sweeps(range(1, 7)))
    if tier == "thorough":
        words += list(graphs.words(graphs.LETTERS, (3,)))
        words += list(graphs.words(graphs.CORE[:8], (4,)))
        words += list(graphs.words(graphs.INNER, (5,)))
        words += list(graphs.sweeps(range(7, 17)))
    words += [(f"{a}/0", f"{b}/1") for a, b in itertools.product(graphs.FORMS, repeat=2)]
    same_shape = ("array", "ints", "jax ints", "single", "bools")
    words += [(f"{a}/0", f"{b}/1", f"{c}/0") for a, b, c in itertools.product(same_shape, repeat=3)]
    words += [(f"{a}/0", f"{b}/1", f"{c}/0") for a, b, c in itertools.product(("float", "int", "array0"), repeat=3)]
    words = list(dict.fromkeys(words))
    many = list(graphs.crowds()) + list(graphs.large(graphs.LARGE_SWEEP, 520 if tier == "quick" else 1025))
    out = [dict(config=dict(x64=True), mode="eager", words=many[i::12]) for i in range(12)]
    out += [
        dict(config=dict(x64=True), mode="eager", words=c)
        for c in graphs.chunks(words, 60 if tier == "quick" else 200)
    ]
    jit = list(graphs.words(graphs.CORE, (1, 2)))
    jit += [(l,) for l in graphs.LETTERS]
    out += [dict(config=dict(x64=True), mode="jit", words=c) for c in graphs.chunks(dict.fromkeys(jit), 12)]
    single = [(l,) for l in graphs.LETTERS] + list(graphs.words(graphs.INNER, (2,)))
    out += [dict(config=dict(x64=False), mode="eager", words=c) for c in graphs.chunks(single, 40)]
    out += [dict(config=dict(x64=True), mode="wide", count=n) for n in (3, 700, 1400)]
    out += [dict(config=dict(x64=True), mode="special", part=i) for i in range(4)]
    out += [dict(config=dict(x64=True), mode="iterables")]
    return out


def run(task, ctx):
    import jax

    if task["mode"] == "wide":
        from .. import wide

        for reverse in (False, True):
            with ctx.case(dict(variables=task["count"], width=wide.WIDTH, reverse=reverse)):
                wide.graph_part(ctx, task["count"], reverse, jacobian=False)
        return
    if task["mode"] == "special":
        from .. import extremes

        with jax.disable_jit():
            pairs = [(a, b) for a in extremes.SPECIAL for b in extremes.SPECIAL]
            extremes.residual_part(ctx, pairs[task["part"] :: 4])
        return
    if task["mode"] == "iterables":
        with jax.disable_jit():
            iterables(ctx)
        return
    with jax.disable_jit(task["mode"] == "eager"):
        for word in task["words"]:
            if ctx.wanted(word):
                with ctx.case(word):
                    check_word(word, task, ctx)


def iterables(ctx):
    """Any iterable of factors will do, including ones that can be read only once."""
    import numpy as np

    import jaxfg

    from .. import lab

    kinds = {
        "list": list,
        "tuple": tuple,
        "generator": lambda fs: (f for f in fs),
        "iterator": iter,
        "map": lambda fs: map(lambda f: f, fs),
        "dict values": lambda fs: dict(enumerate(fs)).values(),
        "reversed": lambda fs: reversed(fs[::-1]),
    }
    for kind, use_onp, word in itertools.product(kinds, (True, False), graphs.words(("u2b", "u2full", "b01", "c"), (1, 2))):
        if not ctx.wanted(dict(kind=kind, use_onp=use_onp, word=word)):
            continue
        with ctx.case(dict(kind=kind, use_onp=use_onp, word=word)):
            factors = graphs.factors(word)
            values = lab.make_values(lab.variables_of(factors))
            graph = jaxfg.core.StackedFactorGraph.make(kinds[kind]([f.jaxfg for f in factors]), use_onp=use_onp)
            residual = np.asarray(graph.compute_whitened_residual_vector(lab.make_assignments(values)))
            expected = [f.whitened(values) for f in factors]
            ctx.transition()
            ctx.check(lab.match_blocks(residual, expected) is not None, lambda: f"residual vector {residual.tolist()} is not made of {[e.tolist() for e in expected]}")
            ctx.state((kind, use_onp, word))
            ctx.trace()
            ctx.outcome(np.round(residual, 6).tolist())


def check_word(word, task, ctx):
    import numpy as np

    from .. import lab

    factors = graphs.factors(word)
    variables = lab.variables_of(factors)
    ctx.state(tuple(word))
    ctx.transition()
    # Graphs may be built from any iterable of factors, with numpy or JAX arrays
    graph = lab.make_graph(factors, use_onp=len(word) != 1)
    ctx.check(set(graph.get_variables()) == set(variables), "graph lists the wrong variables")
    total = sum(f.noise.dim for f in factors)
    ctx.check(graph.residual_dim == total, f"residual_dim {graph.residual_dim} != {total}")

    for shift, order in ((0, variables), (1, variables[::-1])):
        values = lab.make_values(variables, shift)
        assignments = lab.make_assignments(values, order)
        cost, residual = graph.compute_cost(assignments)
        residual = np.asarray(residual)
        expected = [f.whitened(values) for f in factors]
        ctx.check(
            lab.match_blocks(residual, expected) is not None,
            lambda: f"residual vector {residual.tolist()} is not made of {[e.tolist() for e in expected]}",
        )
        ctx.check(
            lab.close(cost, np.sum(residual**2)) and lab.close(cost, sum(np.sum(e**2) for e in expected)),
            lambda: f"cost {float(cost)} is not the sum of squares of {residual.tolist()}",
        )
        if len(word) <= 2 or task["mode"] == "jit":
            alone = np.asarray(graph.compute_whitened_residual_vector(assignments))
            ctx.check(np.array_equal(alone, residual) or lab.close(alone, residual),
                      "compute_cost and compute_whitened_residual_vector disagree")
        ctx.trace()
        ctx.outcome(np.round(residual, 6).tolist())
    if len(word) < 9:
        ctx.sample(dict(word=list(word), residual=residual.tolist()))
