"""C27: utilities act on every leaf, and leave what they wrap alone."""

import itertools

from .. import graphs

LEAVES = ("f0", "f2", "f23", "i2", "n2", "b2", "e0")
BOUNDS = {
    "quick": "stacking and concatenating 1..4 trees: 7 leaf forms alone, all ordered pairs of leaf forms in 5 containers, a variable "
    "value of each of 5 types, every valid axis including negative ones, and the axes that some leaf lacks; timing: 4 ways to leave a block, nested twice, 3 labels; all orders of entering and leaving up to 3 watches x all ways to share labels",
    "thorough": "as quick, with all triples of leaf forms and 1..6 trees",
}
ASSUMPTIONS = ["arrays compared exactly; integer and boolean leaves keep their kind"]


def tasks(tier):
    shapes = [("leaf", l) for l in LEAVES]
    for container in ("tuple", "dict", "list", "nested", "value"):
        shapes += [(container, a, b) for a, b in itertools.product(LEAVES, repeat=2)]
    shapes += [("group", g) for g in ("SO2", "SE2", "SO3", "SE3", "R2")]
    if tier == "thorough":
        shapes += [("tuple",) + t for t in itertools.product(LEAVES, repeat=3)]
    counts = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6)
    out = [dict(config=dict(x64=True), part="trees", shapes=c, counts=counts) for c in graphs.chunks(shapes, 40)]
    out.append(dict(config=dict(x64=True), part="stopwatch"))
    out.append(dict(config=dict(x64=True), part="watches", most=3 if tier == "quick" else 4))
    return out


def run(task, ctx):
    if task["part"] == "trees":
        for shape in task["shapes"]:
            for count in task["counts"]:
                if ctx.wanted(dict(shape=shape, count=count)):
                    with ctx.case(dict(shape=shape, count=count)):
                        trees(ctx, tuple(shape), count)
    elif task["part"] == "stopwatch":
        stopwatch(ctx)
    else:
        watches(ctx, task["most"])


def leaf(form, k, where):
    """The k-th tree's leaf."""
    import numpy as np
    from jax import numpy as jnp

    if form == "f0":
        return jnp.asarray(0.5 + k + 10 * where)
    shape = {"f2": (2,), "f23": (2, 3), "i2": (2,), "n2": (2,), "b2": (2,), "e0": (0, 2)}[form]
    x = np.arange(np.prod(shape)).reshape(shape) + 7.0 * k + 100 * where
    if form == "i2":
        return jnp.asarray(x.astype(int))
    if form == "b2":
        return jnp.asarray(x.astype(int) % 3 == 0)
    return x if form == "n2" else jnp.asarray(x)


def build(shape, k):
    from .. import lab

    kind = shape[0]
    if kind == "group":
        vt = lab.VTYPES[shape[1]]
        return vt.to_value(vt.points[k % len(vt.points)])
    leaves = [leaf(f, k, i) for i, f in enumerate(shape[1:])]
    if kind == "leaf":
        return leaves[0]
    if kind == "tuple":
        return tuple(leaves)
    if kind == "list":
        return [leaves]
    if kind == "dict":
        return dict(zip("zab", leaves))
    if kind == "nested":
        return (None, {"x": leaves[0]}, [leaves[1], ()])
    import jaxfg

    return jaxfg.sparse.SparseCooCoordinates(rows=leaves[0], cols=leaves[1])


def trees(ctx, shape, count):
    import jax
    import numpy as np

    import jaxfg

    items = [build(shape, k) for k in range(count)]
    flat = [jax.tree_util.tree_leaves(t) for t in items]
    structure = jax.tree_util.tree_structure(items[0])
    smallest = min((np.ndim(x) for x in flat[0]), default=0)
    for name, reference, axes in (
        ("pytree_stack", np.stack, range(-smallest - 1, smallest + 1)),
        ("pytree_concatenate", np.concatenate, range(-smallest, smallest)),
    ):
        function = getattr(jaxfg.utils, name)
        for axis in list(axes) + ["default"]:
            if axis == "default" and name == "pytree_concatenate" and smallest == 0:
                continue
            got = function(*items) if axis == "default" else function(*items, axis=axis)
            ctx.transition()
            ctx.check(jax.tree_util.tree_structure(got) == structure, lambda: f"{name} changed the structure to {got}")
            for k, x in enumerate(jax.tree_util.tree_leaves(got)):
                parts = [np.asarray(leaves[k]) for leaves in flat]
                expected = reference(parts, axis=0 if axis == "default" else axis)
                x = np.asarray(x)
                ctx.check(
                    x.dtype.kind == expected.dtype.kind and x.shape == expected.shape and np.array_equal(x, expected),
                    lambda: f"{name}(axis={axis}) made {x.tolist()} instead of {expected.tolist()}",
                )
            for tree, before in zip(items, flat):
                ctx.check(all(a is b for a, b in zip(jax.tree_util.tree_leaves(tree), before)), f"{name} changed its input")
            ctx.outcome((name, [np.shape(x) for x in jax.tree_util.tree_leaves(got)]))
        # An axis that some leaf does not have is refused
        largest = max((np.ndim(x) for x in flat[0]), default=0)
        for axis in range(len(axes) // 2, largest + 2) if flat[0] else ():
            for axis in (axis, -axis - 1):
                if axis in axes:
                    continue
                try:
                    got = function(*items, axis=axis)
                except Exception:
                    ctx.count("refused")
                else:
                    ctx.fail(f"{name}(axis={axis}) returned {got}")
                ctx.transition()
    ctx.state((shape, count))
    ctx.trace()
    ctx.sample(dict(shape=list(shape), count=count))


def stopwatch(ctx):
    import contextlib
    import io
    import time

    import jaxfg

    from .c25 import numbers

    class Stop(Exception):
        pass

    def block(way, log):
        """What a function with a timed block returns."""
        with jaxfg.utils.stopwatch(*log[:1]):
            log.append("entered")
            time.sleep(0.05)
            if way == "return":
                return "value"
            if way == "raise":
                raise Stop(way)
            if way == "nested":
                with jaxfg.utils.stopwatch("inner block"):
                    log.append("inner")
            log.append("finished")
        return "end"

    for way, label in itertools.product(("end", "return", "raise", "nested"), ([], ["reading"], ["two words"])):
        case = dict(way=way, label=label)
        if not ctx.wanted(case):
            continue
        with ctx.case(case):
            log, text = list(label), io.StringIO()
            with contextlib.redirect_stdout(text):
                try:
                    result = block(way, log)
                except Stop:
                    result = "raised"
            ctx.transition()
            expected = {"end": "end", "nested": "end", "raise": "raised", "return": "value"}[way]
            ctx.check(result == expected, f"a timed block gave {result} instead of {expected}")
            steps = log[len(label) :]
            ctx.check(steps == {"end": ["entered", "finished"], "nested": ["entered", "inner", "finished"]}.get(way, ["entered"]),
                      f"the block ran as {steps}")
            if label:
                ctx.check(label[0] in text.getvalue(), f"label not printed: {text.getvalue()}")
            if way in ("end", "nested"):
                # The block takes at least its sleep, and well below a minute
                ctx.check(any(0.045 <= x < 60 and x != 1 for x in numbers(text.getvalue().replace("\x1b[1m", " ").replace("\x1b[0m", " "))),
                          f"no time in {text.getvalue()!r}")
            ctx.state((way, str(label)))
            ctx.trace()
            ctx.outcome((way, steps))


def orders(n):
    """All orders of entering and leaving n watches, which are entered as 0, 1, ..."""

    def extend(prefix, entered, inside):
        if len(prefix) == 2 * n:
            yield prefix
            return
        if entered < n:
            yield from extend(prefix + [("enter", entered)], entered + 1, inside + [entered])
        for k in inside:
            yield from extend(prefix + [("leave", k)], entered, [j for j in inside if j != k])

    return extend([], 0, [])


def sharings(n):
    """All ways to share labels among n watches."""
    out = [[]]
    for _ in range(n):
        out = [s + [k] for s in out for k in range(max(s, default=-1) + 2)]
    return out


def watch(ctx, order, sharing):
    """What is wrong with the printed times or labels, if anything."""
    import contextlib
    import io
    import time

    import jaxfg

    from .c25 import numbers

    running, least, longest, printed = {}, {}, {}, {}
    for step, k in order:
        label = "watch " + "abcd"[sharing[k]]
        text = io.StringIO()
        before = time.perf_counter()
        with contextlib.redirect_stdout(text):
            if step == "enter":
                running[k] = jaxfg.utils.stopwatch(label)
                running[k].__enter__()
            else:
                running[k].__exit__(None, None, None)
        after = time.perf_counter()
        text = text.getvalue()
        ctx.transition()
        if step == "enter":
            least[k], longest[k], printed[k] = after, before, text
        else:
            least[k], longest[k] = before - least[k], after - longest[k]
            # Clocks may tick in steps of a few milliseconds
            found = numbers(text.replace("\x1b[1m", " ").replace("\x1b[0m", " "))
            if not any(least[k] - 0.006 <= x <= longest[k] + 0.006 for x in found):
                return f"a block of {least[k]} to {longest[k]} seconds printed {text!r}"
            if label not in printed[k] + text:
                return f"label not printed: {printed[k] + text!r}"
        time.sleep(0.01)


def watches(ctx, most):
    for n in range(1, most + 1):
        for order, sharing in itertools.product(orders(n), sharings(n)):
            case = dict(order=order, labels=sharing)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                # Clocks that are set while they are read spoil one attempt, not three
                for attempt in range(3):
                    wrong = watch(ctx, order, sharing)
                    if not wrong:
                        break
                ctx.check(not wrong, wrong)
                ctx.state(str(case))
                ctx.outcome(str(case))
                ctx.trace()
    ctx.sample(case)
