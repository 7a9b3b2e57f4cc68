"""C28: user-defined noise models are applied as written."""

import itertools

from .. import graphs

KINDS = ("scale", "float", "mix", "curve1", "curve2", "then", "neht", "inflated", "huber", "robust")
# (kind of model, residual dimension, parameter variant, variables)
LETTERS = {f"{k}{d}{v}": (k, d, v, i) for i, (k, d, v) in enumerate(itertools.product(KINDS, (2, 3), (0, 1)))}
CORE = ("scale20", "scale21", "mix20", "curve120", "curve121", "curve220", "robust20", "diag20")
# Models of the library, next to user-defined ones of the same shape
LETTERS.update(diag20=("diag", 2, 0, 1), full20=("full", 2, 1, 0), huberdiag20=("huber-diag", 2, 0, 2))
BOUNDS = {
    "quick": "10 user-defined models x 2 dimensions x 2 parameter sets and 3 models of the library: all single factors at three points, "
    "all ordered pairs, all sequences of length 3 over 8 of them; groups of 1..9 factors; graphs of 3 to 20 groups in two orders; single factors and pairs of 8 compiled",
    "thorough": "also all sequences of length 4 over 8, of length 3 over 16, and groups of 1..40 factors",
}
ASSUMPTIONS = ["models that keep the dimension of the residual; float64, compared to 1e-7"]


def tasks(tier):
    words = [(l,) for l in LETTERS] + list(itertools.product(LETTERS, repeat=2)) + list(itertools.product(CORE, repeat=3))
    if tier == "thorough":
        words += list(itertools.product(CORE, repeat=4)) + list(itertools.product(tuple(LETTERS)[::3] + ("diag20", "full20"), repeat=3))
    for n in range(4, 10 if tier == "quick" else 41):
        words += [tuple((k + "20", k + "21")[i % 2] for i in range(n)) for k in KINDS]
    # Many groups in one graph
    kinds = [f"{k}{d}" for k in KINDS for d in (2, 3)]
    words += [tuple(k + v for k in kinds[:n] for v in "01") for n in range(3, len(kinds) + 1)]
    words += [tuple(k + v for v in "01" for k in kinds[-n:]) for n in range(3, len(kinds) + 1)]
    jit = [(l,) for l in LETTERS] + list(itertools.product(CORE, repeat=2))
    out = [dict(config=dict(x64=True), mode="eager", words=c) for c in graphs.chunks(words, 220)]
    return out + [dict(config=dict(x64=True), mode="jit", words=c) for c in graphs.chunks(jit, 14)]


def factor(letter, place):
    from .. import lab, noises

    kind, dim, variant, index = LETTERS[letter]
    index = (index + place) % 3
    made = lab.generic(("R2", "R1") if variant == place % 2 else ("R2",), (index, (index + 1) % 2), res_dim=dim, variant=variant + place)
    noise = noises.UserNoise(kind, dim, variant + place) if kind in KINDS else lab.Noise(kind, dim, variant + place)
    import jax_dataclasses as jdc

    made.noise = noise
    made.jaxfg = jdc.replace(made.jaxfg, noise_model=noise.model)
    return made


def run(task, ctx):
    import jax

    with jax.disable_jit(task["mode"] == "eager"):
        for word in task["words"]:
            if ctx.wanted(word):
                with ctx.case(word):
                    check_word(word, ctx)


def check_word(word, ctx):
    import numpy as np

    from .. import lab
    from .c02 import dense

    factors = [factor(letter, place) for place, letter in enumerate(word)]
    variables = lab.variables_of(factors)
    graph = lab.make_graph(factors)
    ctx.state(tuple(word))
    ctx.transition()
    columns = {v: graph.local_storage_layout.index_from_variable[v] for v in variables}
    dim = sum(lab.vtype_of(v).ldim for v in variables)
    for shift in range(3) if len(word) == 1 else (len(word) % 3,):
        values = lab.make_values(variables, shift)
        assignments = lab.make_assignments(values, variables if shift % 2 else variables[::-1])
        cost, residual = graph.compute_cost(assignments)
        J = dense(graph.compute_whitened_residual_jacobian(assignments, residual))
        blocks = [f.whitened(values) for f in factors]
        rows = [f.jacobian(values, columns, dim) for f in factors]
        ctx.check(lab.close(cost, sum(b @ b for b in blocks), 1e-9), f"cost {float(cost)} instead of {sum(b @ b for b in blocks)}")
        located = lab.match_blocks(residual, blocks)
        ctx.check(located is not None, lambda: f"residual {np.asarray(residual).tolist()} is not made of {[b.tolist() for b in blocks]}")
        placed = lab.match_blocks(residual, blocks, accept=lambda at, i: lab.close(J[at : at + len(rows[i])], rows[i], 1e-7))
        ctx.check(
            placed is not None,
            lambda: "Jacobian " + "; ".join(f"{J[at : at + len(rows[i])].tolist()} instead of {rows[i].tolist()} of {word[i]}" for at, i in located if not lab.close(J[at : at + len(rows[i])], rows[i], 1e-7)),
        )
        ctx.trace()
        ctx.outcome(np.round(J, 5).tolist())
    if len(word) < 9:
        ctx.sample(dict(word=list(word), residual=np.round(np.asarray(residual), 6).tolist()))
