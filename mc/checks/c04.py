"""C04: retraction moves each variable by its own delta."""

import itertools

from .. import graphs

TYPES = ("R2", "S", "C", "Y", "P", "SE2", "SO3", "X")
PATTERNS = (("R2",), ("C", "R1"), ("SE2", "Y", "R3"), ("P", "SO3", "S", "R2"))
LARGE = {
    "quick": (4, 5, 6, 7, 8, 9, 16, 17, 33, 64, 65, 100, 128, 129, 257),
    "thorough": (4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025),
}
BOUNDS = {
    "quick": "all multisets of 1..3 variables over 8 types, every storage order of values x deltas, "
    "dense deltas; one-hot and zero deltas in matching and reversed order; derived types; "
    "15 sizes from 4 to 257 x 4 patterns of types, with dense deltas in three orders; 35000 and 70000 numbers; deltas from 1e-12 to 1e12 (manifolds: to 9), of 15 types; 9 sets in single precision",
    "thorough": "all multisets of 1..4 variables over 8 types (orders of 4 limited to 24 x 6), and 1..2 over "
    "all 15 types; 24 sizes up to 1025",
}
ASSUMPTIONS = ["float64 comparison to 1e-9 (single precision: 2e-5)"]


def tasks(tier):
    sets = [m for n in (1, 2, 3) for m in itertools.combinations_with_replacement(TYPES, n)]
    others = ("R1", "R3", "D", "M", "SO2", "SE3", "G")
    sets += [("B",), ("E",), ("B", "E"), ("B", "E", "B"), ("C", "E", "B")]
    sets += [(t,) for t in others] + [(t, "C") for t in others]
    if tier == "thorough":
        sets += list(itertools.combinations_with_replacement(TYPES, 4))
        sets += list(itertools.combinations_with_replacement(TYPES + others, 2))
    sets = list(dict.fromkeys(sets))
    out = [dict(config=dict(x64=True), mode="eager", sets=c) for c in graphs.chunks(sets, 5)]
    out += [
        dict(config=dict(x64=True), mode="jit", sets=[s])
        for s in (("R2", "C", "SE2"), ("Y", "Y", "S"), ("SO3", "P"))
    ]
    out += [dict(config=dict(x64=False), mode="eager", sets=c) for c in graphs.chunks([(t,) for t in TYPES] + [("R2", "C", "SE2")], 5)]
    sizes = [(n, p) for n in LARGE[tier] for p in PATTERNS]
    out += [dict(config=dict(x64=True), mode="large", sizes=sizes[i::8]) for i in range(8)]
    out += [dict(config=dict(x64=True), mode="wide", count=n) for n in (3, 700, 1400)]
    out += [dict(config=dict(x64=True), mode="scaled", types=t) for t in graphs.chunks(TYPES + ("R1", "R3", "D", "M", "SO2", "SE3", "G"), 4)]
    return out


def run(task, ctx):
    import jax

    if task["mode"] == "wide":
        from .. import wide

        with ctx.case(dict(variables=task["count"], width=wide.WIDTH)):
            wide.assignments_part(ctx, task["count"])
        return
    with jax.disable_jit(task["mode"] != "jit"):
        if task["mode"] == "scaled":
            from .. import extremes

            for name in task["types"]:
                extremes.deltas_part(ctx, name)
            return
        if task["mode"] == "large":
            for n, pattern in task["sizes"]:
                check_set([pattern[i % len(pattern)] for i in range(n)], task, ctx)
            return
        for types in task["sets"]:
            check_set(types, task, ctx)


def check_set(types, task, ctx):
    import numpy as np

    import jaxfg

    from .. import lab

    count = {}
    variables = []
    for t in types:
        count[t] = count.get(t, -1) + 1
        variables.append(lab.var(t, count[t]))
    names = {v: f"{t}.{i}" for i, (v, t) in enumerate(zip(variables, types))}
    values = lab.make_values(variables)
    tol = 1e-9 if lab.X64 else 2e-5
    ldims = {v: lab.vtype_of(v).ldim for v in variables}

    def attempt(order, delta_order, deltas, label):
        case = dict(values=[names[v] for v in order], deltas=[names[v] for v in delta_order], delta=label)
        if not ctx.wanted(case):
            return
        with ctx.case(case):
            assignments = lab.make_assignments(values, order)
            layout = jaxfg.core.StorageLayout.make(delta_order, local=True)
            # The layout tells where each variable's delta goes
            storage = np.zeros(sum(ldims.values()))
            ctx.check(layout.dim == len(storage), "local layout has the wrong dimension")
            for v in variables:
                at = layout.index_from_variable[v]
                storage[at : at + ldims[v]] = deltas[v]
            local = jaxfg.core.VariableAssignments(storage=storage, storage_layout=layout)
            moved = assignments.manifold_retract(local)
            ctx.transition()
            ctx.check(
                list(moved.get_variables()) == list(assignments.get_variables()),
                "retraction changed the order of the variables",
            )
            for v in variables:
                vt = lab.vtype_of(v)
                got = vt.from_value(moved.get_value(v))
                expected = vt.retract(values[v], deltas[v])
                ctx.check(
                    np.all(np.isfinite(got)) and np.max(np.abs(got - expected)) < tol,
                    lambda: f"{names[v]} moved to {got.tolist()} instead of {expected.tolist()}",
                )
            for v in variables:
                vt = lab.vtype_of(v)
                ctx.check(np.max(np.abs(vt.from_value(assignments.get_value(v)) - values[v])) <= (0 if lab.X64 else 1e-5),
                          "retraction changed its input")
            if label == "dense":
                ctx.trace()
            ctx.outcome(np.round(np.asarray(moved.storage), 7).tolist())

    dense = {
        v: 0.3 * np.cos(1.0 + 1.7 * k + 0.9 * np.arange(ldims[v])) for k, v in enumerate(variables)
    }
    if task["mode"] == "large":
        other = variables[1::2][::-1] + variables[::2]
        for order, delta_order in ((variables, variables), (variables, variables[::-1]), (other, variables)):
            attempt(order, delta_order, dense, "dense")
        ctx.state((len(types), tuple(types[:4])))
        return
    orders = list(itertools.permutations(variables))
    if task["mode"] == "jit":
        orders = orders[:2] + orders[-1:]
    delta_orders = orders if len(variables) < 4 else orders[::4]
    # Variables of one type are interchangeable, so equal lists of types with equal
    # positions are still distinct problems: nothing is skipped here.
    for order in orders:
        for delta_order in delta_orders:
            ctx.state((types, tuple(names[v] for v in order), tuple(names[v] for v in delta_order)))
            attempt(order, delta_order, dense, "dense")
    zero = {v: np.zeros(ldims[v]) for v in variables}
    for delta_order in {tuple(variables), tuple(variables[::-1])}:
        attempt(variables, list(delta_order), zero, "zero")
        for v in variables:
            for k in range(ldims[v]):
                hot = dict(zero)
                hot[v] = np.eye(ldims[v])[k] * 0.4
                attempt(variables, list(delta_order), hot, f"{names[v]}[{k}]")
    ctx.sample(dict(types=list(types), orders=len(orders)))
