"""C03: assignments behave like an immutable variable-to-value map.

Explicit-state search over the real objects: the state is (listed order of the variables,
value of each variable), and every operation is applied in every reachable state."""

import itertools

# Variable sets; a name is a type of mc.lab and an index
SETS = {
    "quick": [
        ["R2.0", "R2.1", "SE2.0"],
        ["S.0", "R3.0", "S.1"],
        ["C.0", "P.0", "C.1"],
        ["Y.0", "D.0", "M.0"],
        ["SO3.0", "R1.0", "SO3.1"],
        ["SE3.0", "SO2.0"],
        ["R1.0", "R2.0", "R3.0"],
        ["P.0", "P.1", "D.0"],
        ["R2.0", "R2.1", "R2.2"],
        ["X.0", "M.0", "M.1"],
        ["B.0", "E.0", "B.1"],
        ["G.0", "R3.0", "G.1"],
    ],
    "thorough": [
        ["R2.0", "R2.1", "SE2.0", "SE2.1"],
        ["S.0", "R3.0", "S.1", "C.0"],
        ["P.0", "C.0", "P.1", "D.0"],
        ["R2.0", "R2.1", "R2.2", "R1.0"],
        ["SE3.0", "SO3.0", "SO2.0", "SE2.0"],
    ],
}
PATTERNS = (("R2",), ("R2", "C"), ("C", "R1", "Y"), ("S", "R3", "P", "R1"), ("SE2", "SO3"))
LARGE = {
    "quick": (4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 64, 65, 100, 128, 129, 257),
    "thorough": (4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025),
}
BOUNDS = {
    "quick": "complete reachable state space of twelve sets of two or three variables: all listed orders, "
    "three values per variable, every operation in every state; 16 sizes from 4 to 257 x 5 patterns of types, each operation once; 35000 and 70000 numbers; 17 special numbers (zeros, tiny, huge, infinite, NaN) in every component of 10 types; all lists of up to 5 out of 4 variables that name one repeatedly",
    "thorough": "additionally, five sets of four variables, with all 24 layout orders; 24 sizes up to 1025",
}
ASSUMPTIONS = ["values of the wrong structure are outside the contract"]


def tasks(tier):
    sets = SETS["quick"] + (SETS["thorough"] if tier == "thorough" else [])
    out = [dict(config=dict(x64=True), set=s, mode="eager") for s in sets]
    out += [dict(config=dict(x64=True), set=s, mode="onp") for s in sets[:3]]
    out += [dict(config=dict(x64=False), set=s, mode="eager") for s in sets[:3]]
    out += [dict(config=dict(x64=True), set=s, mode="jit") for s in SETS["quick"][5:6]]
    sizes = [(n, p) for n in LARGE[tier] for p in PATTERNS]
    out += [dict(config=dict(x64=True), mode="large", sizes=sizes[i::8]) for i in range(8)]
    out += [dict(config=dict(x64=True), mode="wide", count=n) for n in (3, 700, 1400)]
    out += [dict(config=dict(x64=True), mode="special", type=t) for t in ("S", "R1", "R3", "P", "D", "M", "B", "E", "G", "X")]
    out += [dict(config=dict(x64=True), mode="repeated")]
    return out


def run(task, ctx):
    import jax

    if task["mode"] == "wide":
        from .. import wide

        with ctx.case(dict(variables=task["count"], width=wide.WIDTH)):
            wide.assignments_part(ctx, task["count"])
        return
    with jax.disable_jit(task["mode"] != "jit"):
        if task["mode"] == "special":
            from .. import extremes

            return extremes.values_part(ctx, task["type"])
        if task["mode"] == "repeated":
            return repeated(ctx)
        if task["mode"] == "large":
            for n, pattern in task["sizes"]:
                with ctx.case(dict(variables=n, types=pattern)):
                    large(ctx, n, pattern)
        else:
            search(task, ctx)


def large(ctx, n, pattern):
    """Many variables: made, read, changed at the ends and the middle, and rearranged."""
    import numpy as np

    import jaxfg

    from .. import lab

    VA = jaxfg.core.VariableAssignments
    variables = [lab.var(pattern[i % len(pattern)], i // len(pattern)) for i in range(n)]
    vt = {v: lab.vtype_of(v) for v in variables}
    flat = {v: np.asarray(vt[v].points[i % 5], float) * 1.0 for i, v in enumerate(variables)}
    for i, v in enumerate(variables):
        if vt[v].name.startswith("R"):
            flat[v] = i + 0.1 * np.arange(vt[v].dim)

    def verify(obj, expected, what):
        got = list(obj.get_variables())
        ctx.transition()
        ctx.check(len(got) == n and set(got) == set(variables), f"{what}: lists the wrong variables")
        for cls in dict.fromkeys(type(v) for v in got):
            members = [v for v in got if type(v) is cls]
            leaves = [np.asarray(l) for l in lab.vtype_of(members[0])._leaves(obj.get_stacked_value(cls))]
            for i, v in enumerate(members):
                x = np.concatenate([l[i].reshape(-1) for l in leaves])
                ctx.check(np.array_equal(x, expected[v]), lambda: f"{what}: stacked value {i} of {cls.__name__} is {x.tolist()} instead of {expected[v].tolist()}")
        for v in variables[:3] + variables[n // 2 : n // 2 + 2] + variables[-3:]:
            x = vt[v].from_value(obj.get_value(v))
            ctx.check(np.array_equal(x, expected[v]), lambda: f"{what}: reads {x.tolist()} instead of {expected[v].tolist()}")

    values = {v: vt[v].to_value(flat[v]) for v in variables}
    obj = VA.make_from_dict(values)
    verify(obj, flat, "make_from_dict")
    shuffled = variables[1::2][::-1] + variables[::2]
    moved = obj.update_storage_layout(jaxfg.core.StorageLayout.make(shuffled))
    verify(moved, flat, "update_storage_layout")
    verify(moved.update_storage_layout(obj.storage_layout), flat, "update_storage_layout back")
    verify(VA.make_from_dict({v: values[v] for v in shuffled}), flat, "make_from_dict in another order")
    default = {v: np.asarray(vt[v].default, float) for v in variables}
    verify(VA.make_from_defaults(shuffled), default, "make_from_defaults")
    some = set(variables[::3])
    verify(VA.make_from_partial_dict(variables, {v: values[v] for v in some}), {v: flat[v] if v in some else default[v] for v in variables}, "make_from_partial_dict")
    for v in (variables[0], variables[n // 2], variables[-1]):
        verify(moved.set_value(v, vt[v].to_value(default[v])), {**flat, v: default[v]}, "set_value")
    verify(moved, flat, "re-read")
    ctx.state((n, tuple(pattern)))
    ctx.trace()
    ctx.outcome((n, tuple(pattern)))


def repeated(ctx):
    """Lists that name a variable more than once, as one gets from the variables of factors."""
    import numpy as np

    import jaxfg

    from .. import lab

    VA = jaxfg.core.VariableAssignments
    pool = [lab.var("R2", 0), lab.var("SE2", 0), lab.var("R2", 1), lab.var("C", 0)]
    for n in range(1, 6):
        for picks in itertools.product(range(len(pool)), repeat=n):
            if len(set(picks)) == n or not ctx.wanted(dict(list=picks)):
                continue
            with ctx.case(dict(list=picks)):
                listed = [pool[i] for i in picks]
                distinct = list(dict.fromkeys(listed))
                flat = {v: np.asarray(lab.vtype_of(v).points[k]) for k, v in enumerate(distinct)}
                values = {v: lab.vtype_of(v).to_value(flat[v]) for v in distinct}
                default = {v: np.asarray(lab.vtype_of(v).default) for v in distinct}
                v = listed[-1]
                objects = [
                    ("make_from_defaults", VA.make_from_defaults(listed), default),
                    ("make_from_partial_dict", VA.make_from_partial_dict(iter(listed), {v: values[v]}), {**default, v: flat[v]}),
                ]
                objects.append(("set_value", objects[0][1].set_value(v, values[v]), {**default, v: flat[v]}))
                objects.append(("update_storage_layout", objects[2][1].update_storage_layout(jaxfg.core.StorageLayout.make(distinct[::-1])), {**default, v: flat[v]}))
                for what, obj, expected in objects:
                    ctx.transition()
                    got = list(obj.get_variables())
                    ctx.check(len(got) == len(distinct) and set(got) == set(distinct), f"{what}: lists the wrong variables")
                    for u in distinct:
                        x = lab.vtype_of(u).from_value(obj.get_value(u))
                        ctx.check(np.array_equal(x, expected[u]), lambda: f"{what}: reads {x.tolist()} instead of {expected[u].tolist()}")
                    for cls in {type(u) for u in distinct}:
                        members = [u for u in got if type(u) is cls]
                        leaves = [np.asarray(l) for l in lab.vtype_of(members[0])._leaves(obj.get_stacked_value(cls))]
                        ctx.check(all(len(l) == len(members) for l in leaves), lambda: f"{what}: stacked read of {len(members)} variables has shapes {[l.shape for l in leaves]}")
                        for i, u in enumerate(members):
                            x = np.concatenate([l[i].reshape(-1) for l in leaves])
                            ctx.check(np.array_equal(x, expected[u]), lambda: f"{what}: stacked value {x.tolist()} instead of {expected[u].tolist()}")
                ctx.state(tuple(picks))
                ctx.trace()
                ctx.outcome(tuple(picks))


def search(task, ctx):
    import jax_dataclasses as jdc
    import numpy as np

    import jaxfg

    from .. import lab

    VA = jaxfg.core.VariableAssignments
    variables = []
    for name in task["set"]:
        t, i = name.split(".")
        variables.append(lab.var(t, int(i)))
    names = dict(zip(variables, task["set"]))
    dtype = np.float64 if lab.X64 else np.float32

    # Value alphabet: index 0 is the default
    alphabet = {}
    for k, v in enumerate(variables):
        vt = lab.vtype_of(v)
        flats = [vt.default, vt.points[k % 5], vt.points[(k + 2) % 5]]
        raw = [vt.to_value(f) for f in flats]
        if vt.name in ("R1", "R2", "R3", "M"):
            # Integer-typed values are legitimate
            flats[2] = np.arange(vt.dim) + 2.0 + k
            raw[2] = vt.to_value(np.arange(vt.dim) + 2 + k)
        alphabet[v] = [(np.asarray(f, float), r) for f, r in zip(flats, raw)]

    def value(v, code):
        return alphabet[v][code][1]

    def flat(v, code):
        return alphabet[v][code][0].astype(dtype)

    def verify(obj, listed, codes, what):
        """Every way of reading `obj` must agree with the model."""
        got = list(obj.get_variables())
        ctx.check(set(got) == set(variables) and len(got) == len(variables),
                  f"{what}: lists the wrong variables")
        as_dict = obj.as_dict()
        ctx.check(list(as_dict) == got, f"{what}: as_dict lists variables in another order")
        for v in variables:
            vt = lab.vtype_of(v)
            for read in (obj.get_value(v), as_dict[v]):
                x = vt.from_value(read).astype(dtype)
                ctx.check(
                    np.array_equal(x, flat(v, codes[v])),
                    lambda: f"{what}: {names[v]} reads {x.tolist()}, expected {flat(v, codes[v]).tolist()}",
                )
        for cls in {type(v) for v in variables}:
            members = [v for v in got if type(v) is cls]
            vt = lab.vtype_of(members[0])
            stacked = [np.asarray(l, dtype) for l in vt._leaves(obj.get_stacked_value(cls))]
            for i, v in enumerate(members):
                x = np.concatenate([l[i].reshape(-1) for l in stacked])
                ctx.check(
                    all(l.shape[0] == len(members) for l in stacked)
                    and np.array_equal(x, flat(v, codes[v])),
                    lambda: f"{what}: stacked value {i} of {vt.name} is {x.tolist()}, "
                    f"expected {flat(v, codes[v]).tolist()} of {names[v]}",
                )
        return got

    def layout(order):
        return jaxfg.core.StorageLayout.make(order)

    orders = list(itertools.permutations(variables))
    # A cyclic shift and reversal generate every order; the full set is used for updates
    def operations(obj, got, codes):
        for v in variables:
            for code in (0, 1, 2):
                if code != codes[v]:
                    yield (
                        f"set_value({names[v]},{code})",
                        lambda v=v, code=code: obj.set_value(v, value(v, code)),
                        {**codes, v: code},
                    )
        for order in orders:
            yield (
                f"update_storage_layout({[names[v] for v in order]})",
                lambda order=order: obj.update_storage_layout(layout(order)),
                codes,
            )
        yield ("dict round trip", lambda: VA.make_from_dict(obj.as_dict()), codes)
        yield (
            "reversed dict round trip",
            lambda: VA.make_from_dict(dict(reversed(list(obj.as_dict().items())))),
            codes,
        )
        for v in variables:

            def partial(v=v):
                given = {u: x for u, x in obj.as_dict().items() if u is not v}
                before = dict(given)
                out = VA.make_from_partial_dict(got, given)
                ctx.check(list(given) == list(before), "make_from_partial_dict changed its input")
                return out

            yield (f"partial rebuild without {names[v]}", partial, {**codes, v: 0})

    roots = []
    for order in orders:
        roots.append((f"make_from_defaults({[names[v] for v in order]})",
                      lambda order=order: VA.make_from_defaults(order), {v: 0 for v in variables}))
        for codes in ({v: 1 for v in variables}, {v: 2 for v in variables}):
            roots.append((
                f"make_from_dict({[names[v] for v in order]},{list(codes.values())})",
                lambda order=order, codes=codes: VA.make_from_dict(
                    {v: value(v, codes[v]) for v in order}
                ),
                codes,
            ))
        for k in range(len(variables)):
            chosen = variables[:k]
            roots.append((
                f"make_from_partial_dict({[names[v] for v in order]},{[names[v] for v in chosen]})",
                lambda order=order, chosen=chosen: VA.make_from_partial_dict(
                    iter(order) if len(chosen) == 1 else order, {v: value(v, 1) for v in chosen}
                ),
                {v: 1 if v in chosen else 0 for v in variables},
            ))

    def printed(obj, got, codes):
        """The printed form names each variable's type, and shows vectors in the listed order."""
        from .c25 import numbers

        text = repr(obj)
        for cls in {type(v) for v in variables}:
            count = sum(type(v) is cls for v in variables)
            ctx.check(text.count(cls.__name__) >= count, lambda: f"printed form does not show {count} of {cls.__name__}: {text}")
        found = iter(numbers(text))
        for v in got:
            if lab.vtype_of(v).name in ("R1", "R2", "R3"):
                for x in flat(v, codes[v]):
                    ctx.check(any(abs(y - x) <= 1e-5 * (1 + abs(x)) for y in found), lambda: f"printed form does not show {names[v]} = {flat(v, codes[v]).tolist()} in order: {text}")

    seen = {}
    frontier = []

    def reached(history, obj, codes):
        if task["mode"] == "onp":
            # The storage vector may as well be a numpy array
            obj = jdc.replace(obj, storage=np.array(obj.storage))
        got = verify(obj, None, codes, history[-1])
        key = (tuple(names[v] for v in got), tuple(codes[v] for v in variables))
        if key not in seen:
            seen[key] = True
            printed(obj, got, codes)
            ctx.state((tuple(task["set"]), key, lab.X64, task["mode"]))
            ctx.outcome(key)
            frontier.append((history, obj, got, codes, np.array(obj.storage)))
        return got

    for name, build, codes in roots:
        with ctx.case([name]):
            obj = build()
            ctx.transition()
            reached([name], obj, codes)

    while frontier:
        history, obj, got, codes, storage = frontier.pop(0)
        for name, apply, new_codes in operations(obj, got, codes):
            with ctx.case(history + [name]):
                new = apply()
                ctx.transition()
                if name.startswith("update_storage_layout"):
                    wanted = list(layout(given_order(name, names)).get_variables())
                    ctx.check(
                        list(new.get_variables()) == wanted,
                        f"{name}: object lists {[names[v] for v in new.get_variables()]}",
                    )
                reached(history + [name], new, new_codes)
                ctx.check(
                    np.array_equal(np.asarray(obj.storage), storage)
                    and list(obj.get_variables()) == got,
                    f"{name} changed the object that it was applied to",
                )
        # Re-read the parent after everything has been done to it
        with ctx.case(history + ["re-read"]):
            verify(obj, got, codes, "re-read")
            ctx.trace()
    ctx.sample(dict(set=task["set"], states=len(seen), last=history))


def given_order(name, names):
    import ast

    by_name = {n: v for v, n in names.items()}
    return [by_name[n] for n in ast.literal_eval(name.split("(", 1)[1][:-1])]
