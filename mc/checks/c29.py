"""C29: storage layouts give every variable its own place."""

import itertools

POOL = ("R2.0", "SE2.0", "R2.1", "C.0", "E.0", "B.0")
WIDER = ("S.0", "SO3.0", "P.0", "S.1", "R1.0", "C.1", "SO3.1")
LARGE = {"quick": (5, 8, 17, 64, 129, 300, 3000), "thorough": (5, 8, 17, 64, 129, 257, 300, 1000, 3000, 30000)}
PATTERNS = (("R2",), ("C", "R2"), ("SE2", "R1", "SO3"), ("B", "E", "B", "S", "P"))
BOUNDS = {
    "quick": "all lists of up to 4 out of 6 variables of 5 types (repetitions included) and of up to 3 out of 7 more, all ordered pairs of types, "
    "global and local, as list, tuple, iterator and dictionary keys; 7 sizes from 5 to 3000 x 4 patterns of types x 5 orders, with moves to 3 other orders; all pairs of the layouts of up to 3 variables, "
    "and of lists of three against layouts of four; contents of storage for all lists of up to 3 distinct variables, moved to every other layout of the same variables",
    "thorough": "also all lists of 5 out of 6, of 4 out of 7, contents for lists of 4 distinct variables, sizes up to 30000",
}
ASSUMPTIONS = ["variables with at least one scalar"]


def tasks(tier):
    k = 4 if tier == "quick" else 5
    out = [dict(part="lists", pool=POOL, first=i, lengths=list(range(1, k + 1))) for i in range(len(POOL))]
    out += [dict(part="lists", pool=WIDER, first=i, lengths=list(range(1, k))) for i in range(len(WIDER))]
    out += [dict(part="types"), dict(part="large", sizes=LARGE[tier])]
    out += [dict(part="pairs", pool=p) for p in (POOL, WIDER)]
    out += [dict(part="storage", pool=p, first=i, length=k - 1) for p in (POOL, WIDER) for i in range(len(p))]
    return [dict(config=dict(x64=True), **t) for t in out]


def made(names):
    from .. import lab

    return [lab.var(n.split(".")[0], int(n.split(".")[1])) for n in names]


def run(task, ctx):
    globals()[task["part"]](task, ctx)


FORMS = {
    "list": list,
    "tuple": tuple,
    "iterator": iter,
    "generator": lambda vs: (v for v in vs),
    "keys": lambda vs: dict.fromkeys(vs).keys(),
}


def verify(ctx, layout, listed, local, what):
    """The contract, from the public accessors alone."""
    from .. import lab

    ctx.transition()
    distinct = list(dict.fromkeys(listed))
    size = {v: lab.vtype_of(v).ldim if local else lab.vtype_of(v).dim for v in distinct}
    ctx.check(layout.local_flag == local, f"{what}: local flag {layout.local_flag}")
    got = list(layout.get_variables())
    ctx.check(len(got) == len(distinct) and set(got) == set(distinct), f"{what}: {len(got)} variables instead of {len(distinct)}, or others")
    ctx.check(set(layout.index_from_variable) == set(distinct), f"{what}: indices of other variables")
    at = 0
    for v in got:
        ctx.check(layout.index_from_variable[v] == at, f"{what}: {v} at {layout.index_from_variable[v]} instead of {at}, in the order {got[:9]}")
        at += size[v]
    ctx.check(layout.dim == at, f"{what}: dimension {layout.dim} instead of {at}")
    types = list(layout.get_variable_types())
    runs = [cls for cls, _ in itertools.groupby(type(v) for v in got)]
    ctx.check(types == runs, f"{what}: types {types[:9]} but variables stored as {runs[:9]}")
    ctx.check(set(layout.index_from_variable_type) == set(runs) == set(layout.count_from_variable_type), f"{what}: types of the counts or starts")
    for cls in runs:
        members = [v for v in got if type(v) is cls]
        ctx.check(layout.count_from_variable_type[cls] == len(members), f"{what}: {layout.count_from_variable_type[cls]} instead of {len(members)} variables of {cls.__name__}")
        first = layout.index_from_variable[members[0]]
        ctx.check(layout.index_from_variable_type[cls] == first, f"{what}: {cls.__name__} starts at {layout.index_from_variable_type[cls]} instead of {first}")


def lists(task, ctx):
    import jaxfg

    make = jaxfg.core.StorageLayout.make
    pool = task["pool"]
    for n in task["lengths"]:
        for rest in itertools.product(range(len(pool)), repeat=n - 1):
            names = [pool[i] for i in (task["first"],) + rest]
            if not ctx.wanted(names):
                continue
            with ctx.case(names):
                listed = made(names)
                for local in (False, True):
                    layouts = [make(form(listed), local=local) for form in FORMS.values()]
                    for name, layout in zip(FORMS, layouts):
                        verify(ctx, layout, listed, local, f"{name}, {'local' if local else 'global'}")
                    ctx.check(all(l == layouts[0] and hash(l) == hash(layouts[0]) for l in layouts), "layouts of the same list differ")
                    ctx.state((tuple(names), local))
                    ctx.outcome((local, tuple(layouts[0].index_from_variable.values()), layouts[0].dim))
                ctx.check(make(listed) == make(listed, local=False) != make(listed, local=True), "layouts are not global by default")
                ctx.trace()
        ctx.sample(dict(list=names, indices=list(layouts[1].index_from_variable.values())))


def types(task, ctx):
    import jaxfg

    from .. import lab

    names = [f"{t}.{i}" for t in lab.VTYPES for i in (0, 1)]
    for pair in itertools.product(names, repeat=2):
        if ctx.wanted(pair):
            with ctx.case(pair):
                listed = made(pair)
                for local in (False, True):
                    layout = jaxfg.core.StorageLayout.make(listed, local=local)
                    verify(ctx, layout, listed, local, "local" if local else "global")
                    ctx.state((pair, local))
                ctx.trace()


def large(task, ctx):
    import jaxfg

    from .. import lab

    for n, pattern in itertools.product(task["sizes"], PATTERNS):
        case = dict(size=n, pattern=pattern)
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            cls = {t: lab.VTYPES[t].cls for t in pattern}
            listed = [cls[pattern[i % len(pattern)]]() for i in range(n)]
            other = [lab.VTYPES["R3"].cls()]
            for local, order in itertools.product((False, True), ("plain", "reversed", "doubled", "tail", "head")):
                given = dict(plain=listed, reversed=listed[::-1], doubled=listed[1::2] + listed + listed, tail=listed + other, head=other + listed)[order]
                layout = jaxfg.core.StorageLayout.make(given, local=local)
                verify(ctx, layout, given, local, f"{order}, {'local' if local else 'global'}")
                again = jaxfg.core.StorageLayout.make(iter(given), local=local)
                ctx.check(layout == again and hash(layout) == hash(again), f"{order}: layouts of the same list differ")
                ctx.check(n < 2 or layout != jaxfg.core.StorageLayout.make(given[1:-1], local=local) or order == "doubled", f"{order}: equal to the layout of a part")
                ctx.state((n, pattern, local, order))
                if order == "plain" and n <= 1000:
                    moves(ctx, layout, given, local)
                ctx.outcome((n, layout.dim))
            ctx.trace()


def moves(ctx, layout, listed, local):
    """Every number follows its variable when a large layout is exchanged."""
    import numpy as np

    import jaxfg

    made = jaxfg.core.VariableAssignments(storage=np.arange(layout.dim) + 0.5, storage_layout=layout)
    size = lambda v: v.get_local_parameter_dim() if local else v.get_parameter_dim()
    n = len(listed)
    for name, order in dict(reversed=listed[::-1], swapped=listed[n // 2 :] + listed[: n // 2], ends=[listed[-1]] + listed[1:-1] + [listed[0]]).items():
        target = jaxfg.core.StorageLayout.make(order, local=local)
        got = np.asarray(made.update_storage_layout(target).storage)
        ctx.transition()
        for v in listed:
            a, b = layout.index_from_variable[v], target.index_from_variable[v]
            ctx.check(np.array_equal(got[b : b + size(v)], np.arange(a, a + size(v)) + 0.5), f"{name}: {v} is not where it belongs")


def pairs(task, ctx):
    """Two layouts are equal exactly when they place the same variables alike."""
    import jaxfg

    pool = made(task["pool"])
    make = jaxfg.core.StorageLayout.make
    with ctx.case("pairs"):
        short, long = [], []
        for n in range(1, 5):
            for picks in itertools.permutations(range(len(pool)), n):
                for local in (False, True):
                    layout = make([pool[i] for i in picks], local=local)
                    meaning = (local, frozenset(layout.index_from_variable.items()))
                    # An equal one that shares no object with it
                    again = make(iter([pool[i] for i in picks]), local=local)
                    (short if n < 4 else long).append((picks, meaning, layout, again))
                    ctx.state((picks, local))
        for a in short:
            for b in short + long[::5]:
                same = a[1] == b[1]
                ctx.transition()
                ctx.check((a[2] == b[3]) == same, lambda: f"{a[0]}, {a[1][0]} and {b[0]}, {b[1][0]}: equal is {a[2] == b[3]}")
                ctx.check((a[2] != b[3]) != same, "unequal is not the opposite of equal")
                ctx.check(not same or hash(a[2]) == hash(b[3]), lambda: f"{a[0]} and {b[0]}: equal, but other hashes")
                ctx.count("equal pairs", int(same))
            ctx.trace()
        ctx.check(len({l for _, _, l, _ in short}) == len({m for _, m, _, _ in short}), "layouts as keys")
        ctx.outcome(len(short))


def storage(task, ctx):
    """Where the numbers of each variable are, in every layout of the same variables."""
    import jax
    import numpy as np

    import jaxfg

    from .. import lab

    make = jaxfg.core.StorageLayout.make
    VA = jaxfg.core.VariableAssignments
    pool = task["pool"]

    def holds(obj, expected, what):
        ctx.transition()
        x = np.asarray(obj.storage)
        ctx.check(x.shape == (obj.storage_layout.dim,), f"{what}: storage of shape {x.shape}")
        for v, flat in expected.items():
            at = obj.storage_layout.index_from_variable[v]
            ctx.check(np.array_equal(x[at : at + len(flat)], flat), lambda: f"{what}: {x.tolist()} does not hold {flat.tolist()} of {v} at {at}")

    with jax.disable_jit():
        for n in range(1, task["length"] + 1):
            for picks in itertools.permutations(range(len(pool)), n):
                names = [pool[i] for i in picks]
                if picks[0] != task["first"] or not ctx.wanted(names):
                    continue
                with ctx.case(names):
                    listed = made(names)
                    flat = {v: np.asarray(lab.vtype_of(v).points[1 + i], float) for i, v in enumerate(listed)}
                    default = {v: np.asarray(lab.vtype_of(v).default, float) for v in listed}
                    values = {v: lab.vtype_of(v).to_value(flat[v]) for v in listed}
                    obj = VA.make_from_dict(values)
                    holds(obj, flat, "make_from_dict")
                    holds(VA.make_from_defaults(listed), default, "make_from_defaults")
                    holds(VA.make_from_partial_dict(listed, {listed[0]: values[listed[0]]}), {**default, listed[0]: flat[listed[0]]}, "make_from_partial_dict")
                    holds(VA.make_from_defaults(listed).set_value(listed[-1], values[listed[-1]]), {**default, listed[-1]: flat[listed[-1]]}, "set_value")
                    local = make(listed, local=True)
                    delta = VA(storage=np.arange(local.dim) + 0.5, storage_layout=local)
                    parts = {v: np.arange(lab.vtype_of(v).ldim) + 0.5 + local.index_from_variable[v] for v in listed}
                    for order in itertools.permutations(listed):
                        holds(obj.update_storage_layout(make(order)), flat, "update_storage_layout")
                        holds(delta.update_storage_layout(make(order, local=True)), parts, "update_storage_layout, local")
                    # Read and write through storage
                    raw = VA(storage=np.concatenate([flat[v] for v in obj.get_variables()]), storage_layout=obj.storage_layout)
                    for v in listed:
                        got = lab.vtype_of(v).from_value(raw.get_value(v))
                        ctx.check(np.array_equal(got, flat[v]), lambda: f"reads {got.tolist()} instead of {flat[v].tolist()}")
                    ctx.state((tuple(names), "storage"))
                    ctx.trace()
                    ctx.outcome(np.asarray(obj.storage).tolist())
