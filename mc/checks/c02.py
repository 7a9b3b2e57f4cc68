"""C02: the graph Jacobian is the derivative of the graph residual."""

import itertools

from .. import graphs

BOUNDS = {
    "quick": "all single factors of 47 letters at four points; all ordered pairs with one of 10 core "
    "letters; all sequences of length 3 over 4 letters; groups of 1..4 factors and of 24 sizes up to 257 (around powers of two), crowds of all letters; 35000 and 70000 parameters and residuals; 5 precisions x 9 x 5 coefficients from 1e-12 to 1e12 with four noise models, compared to relative 1e-9; groups of 1..3 factors that supply their own derivatives, at points where automatic differentiation fails; "
    "single factors and pairs of 4 letters in single precision",
    "thorough": "all single factors at five points; all ordered pairs of 47 letters; all sequences "
    "of length 3 over 10 letters; groups of 1..10 factors and of 32 sizes up to 1025",
}
ASSUMPTIONS = [
    "Gaussian noise; points where the residuals are smooth",
    "five-point finite differences of the reference residual, error below 1e-9; compared to 1e-7 (single precision: 2e-3)",
]
TOL = 1e-7
SINGLE_TOL = 2e-3


def tasks(tier):
    letters = [l for l in graphs.LETTERS if "huber" not in l]
    core = [l for l in graphs.CORE if "huber" not in l][:10]
    simple = [l for l in letters if l not in graphs.GEOMETRY]
    pairs = [(a, b) for a in simple for b in core] + [(b, a) for a in simple for b in core]
    if tier == "quick":
        pairs += [(a, "u2b") for a in graphs.GEOMETRY] + [("b01", a) for a in graphs.GEOMETRY]
        triples = graphs.words(("u2b", "u2full", "b12", "y"), (3,))
        sweeps = [w for w in graphs.sweeps(range(1, 5)) if "huber" not in str(w)]
        sweeps = [w for w in sweeps if not ("se3" in str(w) and len(w) > 4)]
    else:
        pairs += [(a, b) for a in letters for b in letters]
        triples = graphs.words(core, (3,))
        sweeps = [w for w in graphs.sweeps(range(1, 11)) if "huber" not in str(w)]
    words = list(dict.fromkeys([(l,) for l in letters] + pairs + list(triples) + sweeps))
    many = [tuple(l for l in w if "huber" not in l) for w in graphs.crowds()]
    many += graphs.large(("far", "long", "turn"), 260 if tier == "quick" else 1025)
    out = [dict(config=dict(x64=True), mode="eager", words=many[i::12]) for i in range(12)]
    out += [
        dict(config=dict(x64=True), mode="eager", words=c) for c in graphs.chunks(words, 24)
    ]
    single = [(l,) for l in letters] + list(graphs.words(("u2b", "b12", "y", "bwse2"), (2,)))
    out += [dict(config=dict(x64=False), mode="eager", words=c) for c in graphs.chunks(single, 24)]
    jit = [(l,) for l in letters] + list(graphs.words(("u2b", "b12", "y"), (2,)))
    out += [dict(config=dict(x64=True), mode="jit", words=c) for c in graphs.chunks(jit, 10)]
    out += [dict(config=dict(x64=True), mode="wide", count=n) for n in (3, 700, 1400)]
    out += [dict(config=dict(x64=True), mode="scaled", noise=n) for n in ("diag", "full", "diagcov", "fullcov")]
    out.append(dict(config=dict(x64=True), mode="own", counts=[1, 2, 3] if tier == "quick" else [1, 2, 3, 4, 5]))
    return out


def run(task, ctx):
    import jax

    if task["mode"] == "wide":
        from .. import wide

        for reverse in (False, True):
            with ctx.case(dict(variables=task["count"], width=wide.WIDTH, reverse=reverse)):
                wide.graph_part(ctx, task["count"], reverse, jacobian=True)
        return
    if task["mode"] == "scaled":
        from .. import extremes

        with jax.disable_jit():
            cases = itertools.product((task["noise"],), extremes.PRECISIONS, extremes.COEFFICIENTS, extremes.COEFFICIENTS[::2])
            extremes.jacobian_part(ctx, cases)
        return
    if task["mode"] == "own":
        from .. import extremes

        return extremes.own_part(ctx, task["counts"])
    with jax.disable_jit(task["mode"] == "eager"):
        for word in task["words"]:
            if ctx.wanted(word):
                with ctx.case(word):
                    check_word(word, ctx)


def dense(A):
    """The linear operator that a coordinate-format matrix denotes."""
    import numpy as np

    out = np.zeros(A.shape)
    rows, cols, values = map(np.asarray, (A.coords.rows, A.coords.cols, A.values))
    assert rows.shape == cols.shape == values.shape, (rows.shape, cols.shape, values.shape)
    assert rows.min() >= 0 and rows.max() < A.shape[0], "row index out of range"
    assert cols.min() >= 0 and cols.max() < A.shape[1], "column index out of range"
    np.add.at(out, (rows, cols), values)
    return out


def check_word(word, ctx, shifts=None):
    import numpy as np

    from .. import lab

    factors = graphs.factors(word)
    variables = lab.variables_of(factors)
    graph = lab.make_graph(factors)
    ctx.state(tuple(word))
    ctx.transition()
    columns = {v: graph.local_storage_layout.index_from_variable[v] for v in variables}
    dim = sum(lab.vtype_of(v).ldim for v in variables)
    tol = TOL if lab.X64 else SINGLE_TOL

    for shift in range(4) if len(word) == 1 else (len(word) % 3,):
        values = lab.make_values(variables, shift)
        order = variables if shift % 2 == 0 else variables[::-1]
        assignments = lab.make_assignments(values, order)
        residual = graph.compute_whitened_residual_vector(assignments)
        J = graph.compute_whitened_residual_jacobian(assignments, residual)
        ctx.check(tuple(J.shape) == (len(residual), dim), f"Jacobian has shape {J.shape}")
        J = dense(J)
        expected = [f.jacobian(values, columns, dim) for f in factors]
        placed = lab.match_blocks(
            residual,
            [f.whitened(values) for f in factors],
            accept=lambda at, i: lab.close(J[at : at + len(expected[i])], expected[i], tol),
        )
        if placed is None:
            located = lab.match_blocks(residual, [f.whitened(values) for f in factors])
            ctx.check(located is not None, "residual vector is not made of the factors' residuals")
            for at, i in located:
                got = J[at : at + len(expected[i])]
                ctx.check(
                    lab.close(got, expected[i], tol),
                    f"rows {at}.. of {word[i]}: {got.tolist()} instead of {expected[i].tolist()}",
                )
        ctx.trace()
        ctx.outcome(np.round(J, 5).tolist())
    if len(word) < 9:
        ctx.sample(dict(word=list(word), jacobian=np.round(J, 6).tolist()))
