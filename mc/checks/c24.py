"""C24: editing a stacked graph equals rebuilding it."""

import itertools

from .. import graphs

# Graphs: per factor, (group, member). Members of a group share a stack; groups are interleaved.
GRAPHS = {
    "unary": ("u0", "u1", "u2"),
    "two": ("u0", "n0", "u1", "n1"),
    "binary": ("u0", "b0", "u1", "b1", "f0"),
    "pose": ("p0", "z0", "z1"),
    "robust": ("h0", "u0", "h1"),
}
# What a group's stack lets users edit
EDITS = {
    "u": ("b", "s", "noise"), "n": ("b", "noise"), "b": ("b", "s", "noise"), "f": ("b", "noise"),
    "p": ("mu", "noise"), "z": ("measured", "noise"), "h": ("b", "delta", "noise"),
}
BOUNDS = {
    "quick": "5 graphs with up to 3 stacks; all sequences of up to 2 edits (parameter x row or all rows x two values) made by copy "
    "and mutate or functionally, with evaluation, linearization and solving after every edit; originals checked after every edit; "
    "every array of every factor and of every stack overwritten in place",
    "thorough": "all sequences of up to 3 edits",
}
ASSUMPTIONS = ["edits replace whole arrays by arrays of the same shape and type"]


def edits_of(name):
    groups = {}
    for letter in GRAPHS[name]:
        groups.setdefault(letter[0], []).append(letter)
    out = []
    for g, members in groups.items():
        for field in EDITS[g]:
            rows = list(range(len(members))) + ([-1] if len(members) > 1 else [])
            out += [(g, field, row) for row in rows]
    return out


def tasks(tier):
    out = []
    for name in GRAPHS:
        menu = edits_of(name)
        depth = 2 if tier == "quick" else 3
        histories = [h for n in range(1, depth + 1) for h in itertools.product(menu, repeat=n)]
        shares = graphs.chunks(histories, 100 if tier == "quick" else 400)
        out += [dict(config=dict(x64=True), graph=name, histories=c) for c in shares]
        out.append(dict(config=dict(x64=True), graph=name, histories=[], part="buffers"))
    return out


def build(letters, params):
    """Factors with explicit parameters; each also has its numpy meaning."""
    from .. import lab

    out = []
    for letter in letters:
        g, i, p = letter[0], int(letter[1]), params[letter]
        if g in "un":
            out.append(unary(g, i, p))
        elif g == "h":
            out.append(unary(g, i, p))
        elif g in "bf":
            out.append(binary(g, i, p))
        elif g == "p":
            out.append(lab.prior("SE2", i, noise="diag", variant=p["noise"], mu=p["mu"]))
        else:
            out.append(lab.between("SE2", i % 2, (i + 1) % 2, noise="full", variant=p["noise"], measured=p["measured"]))
    return out


def custom(signature, indices, res_dim, noise, p, style="tuple"):
    """Like lab.generic, but with explicit parameters."""
    import numpy as np

    from .. import lab

    cls = lab.generic_factor_class(signature, res_dim, style, False)
    b, s = np.asarray(p["b"], float), np.asarray(p["s"], float)
    return lab.Factor(
        [lab.var(t, i) for t, i in zip(signature, indices)],
        lab.Noise(noise, res_dim, p["noise"], p.get("delta")),
        lambda vs, model: cls(variables=vs, noise_model=model, b=b, s=s, extra=None, mode="plain"),
        lambda xs: lab.residual_formula(np, res_dim, xs, b, s, None, "plain"),
    )


def unary(g, i, p):
    noise, style = dict(u=("diag", "tuple"), n=("full", "named"), h=("huber-diag", "named"))[g]
    return custom(("R2",), (i % 2,), 2, noise, p, style)


def binary(g, i, p):
    return custom(("R2", "R2"), (i % 2, (i + 1) % 2), 3 if g == "b" else 1, "full" if g == "b" else "diag", p, "named")


def start_params(letter):
    import numpy as np

    from .. import lab

    g, i = letter[0], int(letter[1])
    k = i + 0.5 * "unbfpzh".index(g)
    if g == "p":
        return dict(mu=lab.VTYPES["SE2"].points[1], noise=i)
    if g == "z":
        return dict(measured=lab.VTYPES["SE2"].points[2 + i], noise=i)
    dim = dict(u=2, n=2, h=2, b=3, f=1)[g]
    out = dict(b=0.4 * np.sin(k + np.arange(dim)), s=1.0 + 0.1 * k, noise=i)
    if g == "h":
        out["delta"] = 0.5 + 0.3 * i
    return out


def changed(value, field, step):
    import numpy as np

    from .. import ref

    if field == "noise":
        return value + 2 + step
    if field in ("mu", "measured"):
        g = ref.GROUPS["SE2"]
        return g.mul(value, g.exp(0.3 * np.sin(1.0 + step + np.arange(3))))
    return np.asarray(value) * 0.7 + 0.25 + 0.05 * step


def run(task, ctx):
    import numpy as np

    import jaxfg

    from .. import lab

    name = task["graph"]
    letters = GRAPHS[name]
    solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(iterations=3, unroll=False, verbose=False)
    solver2 = jaxfg.solvers.GaussNewtonSolver(max_iterations=3, cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0, verbose=False)
    base_params = {l: start_params(l) for l in letters}
    base_factors = build(letters, base_params)
    originals = [snapshot(f.jaxfg) for f in base_factors]
    variables = lab.variables_of(base_factors)
    values = lab.make_values(variables)
    given = lab.make_assignments(values)

    def behaviour(graph):
        cost, residual = graph.compute_cost(given)
        J = graph.compute_whitened_residual_jacobian(given, residual)
        solution = lab.read_assignments(graph.solve(given, solver=solver), variables)
        second = lab.read_assignments(graph.solve(given, solver=solver2), variables)
        return (
            float(cost), np.asarray(residual), np.asarray(J.as_dense()),
            np.concatenate([solution[v] for v in variables]), np.concatenate([second[v] for v in variables]),
        )

    if task.get("part") == "buffers":
        return buffers(name, behaviour, ctx)
    rebuilt = {}

    def expect(params):
        """Behaviour of a graph built from scratch, and its cost by definition."""
        key = repr({l: {k: np.asarray(v).tolist() for k, v in p.items()} for l, p in params.items()})
        if key not in rebuilt:
            factors = build(letters, params)
            rebuilt[key] = behaviour(lab.make_graph(factors)), lab.ref_cost(factors, values)
        return rebuilt[key]

    def compare(got, expected, what):
        for g, e, part in zip(got, expected, ("cost", "residual", "Jacobian", "solution", "second solution")):
            ctx.check(lab.close(g, e, 1e-7), lambda: f"{what}: {part} {np.asarray(g).tolist()} instead of {np.asarray(e).tolist()}")

    for count, history in enumerate(task["histories"]):
        if not ctx.wanted(history):
            continue
        with ctx.case(history):
            graph = lab.make_graph(base_factors)
            params = {l: dict(p) for l, p in base_params.items()}
            if count % 2:
                behaviour(graph)  # Compiled for, and evaluated with, the original values
            chain = [(graph, {l: dict(p) for l, p in params.items()})]
            for step, (g, field, row) in enumerate(history):
                members = [l for l in letters if l[0] == g]
                for i, l in enumerate(members):
                    if row in (-1, i):
                        params[l][field] = changed(params[l][field], field, step)
                edit = by_mutation if (count + step) % 2 == 0 else functionally
                graph = edit(graph, g, field, build(members, params), len(members))
                ctx.transition()
                expected, cost = expect(params)
                got = behaviour(graph)
                compare(got, expected, f"after {history[: step + 1]} ({edit.__name__})")
                ctx.check(lab.close(got[0], cost, 1e-7), f"cost {got[0]} instead of {cost}")
                chain.append((graph, {l: dict(p) for l, p in params.items()}))
                ctx.state((name, str(sorted((l, str(p)) for l, p in params.items()))))
            # Graphs that were edited keep their own parameters
            for old, old_params in chain[:-1]:
                compare(behaviour(old), expect(old_params)[0], f"graph before the edits {history}")
            for f, o in zip(base_factors, originals):
                ctx.check(same(snapshot(f.jaxfg), o), "a factor was changed by editing the graph")
            ctx.trace()
            ctx.outcome(round(got[0], 6))
    ctx.sample(dict(graph=name, history=history))


def snapshot(factor):
    import jax
    import numpy as np

    return [np.array(l) for l in jax.tree_util.tree_leaves(factor)]


def same(a, b):
    import numpy as np

    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def stack_of(graph, members, count):
    """The position of the stack that holds the given factors."""
    cls, dim = type(members[0].jaxfg), members[0].noise.dim
    noise = type(members[0].noise.model)
    found = [
        k for k, s in enumerate(graph.factor_stacks)
        if type(s.factor) is cls and type(s.factor.noise_model) is noise and s.num_factors == count
        and s.factor.noise_model.get_residual_dim() == dim
    ]
    assert len(found) == 1, f"{len(found)} stacks for one group"
    return found[0]


def stacked(members, read):
    import jax
    import numpy as np

    return jax.tree_util.tree_map(lambda *a: np.stack([np.asarray(x) for x in a]), *[read(m.jaxfg) for m in members])


def by_mutation(graph, g, field, members, count):
    import jax_dataclasses as jdc

    k = stack_of(graph, members, count)
    with jdc.copy_and_mutate(graph) as out:
        factor = out.factor_stacks[k].factor
        if field == "mu":
            factor.mu = stacked(members, lambda f: f.mu)
        elif field == "measured":
            factor.T_a_b = stacked(members, lambda f: f.T_a_b)
        elif field == "noise":
            factor.noise_model = stacked(members, lambda f: f.noise_model)
        elif field == "delta":
            factor.noise_model.delta = stacked(members, lambda f: f.noise_model.delta)
        else:
            setattr(factor, field, stacked(members, lambda f: getattr(f, field)))
    return out


def functionally(graph, g, field, members, count):
    import jax_dataclasses as jdc

    k = stack_of(graph, members, count)
    stack = graph.factor_stacks[k]
    if field == "delta":
        noise = jdc.replace(stack.factor.noise_model, delta=stacked(members, lambda f: f.noise_model.delta))
        new = dict(noise_model=noise)
    else:
        attribute = dict(mu="mu", measured="T_a_b", noise="noise_model").get(field, field)
        new = {attribute: stacked(members, lambda f: getattr(f, attribute))}
    stacks = list(graph.factor_stacks)
    stacks[k] = jdc.replace(stack, factor=jdc.replace(stack.factor, **new))
    return jdc.replace(graph, factor_stacks=stacks)


def arrays_of(tree):
    """Leaves that can be written to."""
    import jax
    import numpy as np

    return [a for a in jax.tree_util.tree_leaves(tree) if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f"]


def buffers(name, behaviour, ctx):
    """Factors and the graph made from them do not share memory."""
    from .. import lab

    letters = GRAPHS[name]
    # Also graphs whose stacks have one row
    for subset in [letters] + [(l,) for l in letters if l[0] in "unhp"] + [("b0", "u0"), ("f0", "n1")]:

        def fresh():
            return build(subset, {l: start_params(l) for l in subset})

        def stacks(graph):
            return [s.factor for s in graph.factor_stacks]

        writes = [("factor", i, k) for i, f in enumerate(fresh()) for k in range(len(arrays_of(f.jaxfg)))]
        writes += [("stack", 0, k) for k in range(len(arrays_of(stacks(lab.make_graph(fresh())))))]
        for where, i, k in writes:
            case = dict(graph=subset, write=[where, i, k])
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                factors = fresh()
                graph, other = lab.make_graph(factors), lab.make_graph(factors)
                held = snapshot(stacks(other))
                if where == "factor":
                    arrays_of(factors[i].jaxfg)[k][...] += 0.5
                    ctx.check(same(snapshot(stacks(graph)), held), "a graph changed when an array of one of its factors was overwritten")
                else:
                    before = snapshot([f.jaxfg for f in factors])
                    arrays_of(stacks(graph))[k][...] += 0.5
                    ctx.check(same(snapshot([f.jaxfg for f in factors]), before), "a factor changed when an array of its graph was overwritten")
                ctx.check(same(snapshot(stacks(other)), held), "another graph of the same factors changed, too")
                ctx.transition()
                ctx.state(repr(case))
                ctx.trace()
                ctx.count("overwritten_arrays")
