"""C26: the example programs optimize the problem they are given."""

import itertools

SOLVERS = ("GAUSS_NEWTON", "FIXED_ITERATION_GAUSS_NEWTON", "LEVENBERG_MARQUARDT", "DOGLEG")
CHAIN = [(0, 1), (1, 2)]
FILES = {
    # name -> (group, number of poses, edges)
    "alone": ("SE2", 1, []),
    "pair": ("SE2", 2, [(0, 1), (1, 0)]),
    "chain": ("SE2", 3, CHAIN),
    "loop": ("SE2", 3, CHAIN + [(2, 0)]),
    "square": ("SE2", 4, CHAIN + [(2, 3), (3, 0), (0, 2), (2, 0)]),
    "pair3": ("SE3", 2, [(0, 1), (1, 0)]),
    "loop3": ("SE3", 3, CHAIN + [(2, 0)]),
    "alone3": ("SE3", 1, []),
    # Initial poses are far from the optimum
    "far": ("SE2", 4, CHAIN + [(2, 3), (3, 0), (0, 2)]),
    "far3": ("SE3", 3, CHAIN + [(2, 0)]),
}
BOUNDS = {
    "quick": "10 files with 1..4 poses (SE2, SE3) x 4 solvers x 3 thresholds of the robust loss (none, 3, 0.5), each once as given (two files with far initial poses without a robust loss); "
    "the simple example",
    "thorough": "as quick, with 5 thresholds, two sets of numbers per file, and the 3500-pose file of the repository",
}
ASSUMPTIONS = [
    "single precision, as the programs run; positions compared with the optimum found by the reference, to 0.02 or, with a robust loss, 0.4 (Gauss-Newton) or 0.75 of its distance to the plain optimum: the trust-region solvers judge steps by an approximate robust cost, as HuberWrapper documents",
    "the programs show their result as two plotted paths (the initial and the optimized positions); drawing is replaced by reading the paths",
]
TASK_TIMEOUT = 600


def tasks(tier):
    quick = tier == "quick"
    deltas = (None, 3.0, 0.5) if quick else (None, 30.0, 3.0, 1.0, 0.5)
    out = []
    for name, solver in itertools.product(FILES, SOLVERS):
        for seed in (0,) if quick else (0, 1):
            robust = deltas if not name.startswith("far") else (None,)
            out.append(dict(config=dict(x64=False), part="file", file=name, solver=solver, deltas=robust, numbers=seed))
    out.append(dict(config=dict(x64=False), part="simple"))
    if not quick:
        out.append(dict(config=dict(x64=False), part="default"))
    return out


def run(task, ctx):
    dict(file=file_part, simple=simple_part, default=default_part)[task["part"]](task, ctx)


def execute(script, arguments):
    """Runs a program as a user would. Returns its text, and the paths that it plotted."""
    import contextlib
    import io
    import os
    import runpy
    import sys

    import jax
    import matplotlib.pyplot as plt

    from .. import lab

    directory = os.path.join(lab.REPO, "scripts")
    kept = sys.argv, list(sys.path), plt.show
    text, paths = io.StringIO(), []

    def show(*args, **kwargs):
        for axes in plt.gcf().axes:
            for line in axes.lines:
                data = line.get_data_3d() if hasattr(line, "get_data_3d") else line.get_data()
                paths.append((str(line.get_label()), [[float(x) for x in row] for row in zip(*data)]))
        plt.close("all")

    sys.argv = [script] + list(arguments)
    sys.path.insert(0, directory)
    sys.modules.pop("_g2o_utils", None)
    plt.show = show
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(os.path.join(directory, script), run_name="__main__")
            jax.effects_barrier()
    except SystemExit as e:
        assert not e.code, f"the program ended with {e.code}: {text.getvalue()}"
    finally:
        sys.argv, sys.path, plt.show = kept[0], kept[1], kept[2]
        plt.close("all")
    return text.getvalue(), paths


def optimum(group, poses, edges, delta):
    """Reweighted least squares in numpy, from the true poses."""
    import numpy as np

    from .. import ref

    g = ref.GROUPS[group]
    n, anchor = len(poses), poses[0]

    def errors(values):
        yield 100.0 * g.log(g.mul(g.inv(values[0]), anchor))
        for a, b, z, root in edges:
            yield root @ g.log(g.mul(g.inv(g.mul(g.inv(values[a]), values[b])), z))

    def weights(values):
        out = []
        for e in errors(values):
            size = np.linalg.norm(e)
            out.append(np.full(len(e), 1.0 if delta is None or size < delta else np.sqrt(delta / size)))
        return np.concatenate(out)

    values = list(poses)
    for _ in range(400):
        w = weights(values)

        def residual(d):
            d = d.reshape(n, g.ldim)
            return w * np.concatenate(list(errors([g.mul(v, g.exp(x)) for v, x in zip(values, d)])))

        J = ref.numdiff(residual, n * g.ldim)
        step = np.linalg.lstsq(J, -residual(np.zeros(n * g.ldim)), rcond=None)[0].reshape(n, g.ldim)
        values = [g.mul(v, g.exp(x)) for v, x in zip(values, step)]
        if np.max(np.abs(step)) < 1e-10:
            return values
    raise AssertionError("the reference does not converge")


def initial_cost(group, anchor, start, edges, delta):
    import numpy as np

    from .. import ref

    g = ref.GROUPS[group]
    squares = [np.sum((root @ g.log(g.mul(g.inv(g.mul(g.inv(start[a]), start[b])), z))) ** 2) for a, b, z, root in edges]
    return sum(s if delta is None or s < delta**2 else delta * np.sqrt(s) for s in squares)


def problem(name, numbers):
    import numpy as np

    from .. import ref

    group, n, edges = FILES[name]
    g = ref.GROUPS[group]
    wave = lambda k, size: np.sin(1.3 * numbers + k + 1.7 * np.arange(size))
    truth = [g.exp(0.5 * wave(2 * i, g.ldim)) for i in range(n)]
    truth = [np.concatenate([t[: g.dim - spatial(group)], t[g.dim - spatial(group) :] + 2.0 * i]) for i, t in enumerate(truth)]
    found = []
    for e, (a, b) in enumerate(edges):
        # The last measurement is far off
        off = 0.8 if e == len(edges) - 1 and len(edges) >= n else 0.05
        z = g.mul(g.mul(g.inv(truth[a]), truth[b]), g.exp(off * np.cos(e + numbers + np.arange(g.ldim))))
        M = np.eye(g.ldim) * (2.0 + 0.3 * np.arange(g.ldim)) + 0.3 * np.sin(e + np.arange(g.ldim**2)).reshape(g.ldim, g.ldim)
        found.append((a, b, z, np.round(M @ M.T, 6)))
    start = [truth[0]] + [g.mul(t, g.exp(0.1 * wave(5 + i, g.ldim))) for i, t in enumerate(truth[1:])]
    if name.startswith("far"):
        turned = [g.mul(p, g.exp(np.where(np.arange(g.ldim) >= spatial(group), 0.7, 0.0) * wave(9 + i, g.ldim))) for i, p in enumerate(start)]
        start = start[:1] + [np.concatenate([t[: g.dim - spatial(group)], t[g.dim - spatial(group) :] + 500.0 * wave(3 * i, spatial(group))]) for i, t in enumerate(turned)][1:]
    return group, truth, found, start


def spatial(group):
    return {"SE2": 2, "SE3": 3}[group]


def write(path, group, start, found):
    import numpy as np

    from .c23 import record_fields

    names = dict(SE2=("VERTEX_SE2", "EDGE_SE2"), SE3=("VERTEX_SE3:QUAT", "EDGE_SE3:QUAT"))[group]
    lines = []
    for i, pose in enumerate(start):
        lines.append(" ".join([names[0], str(i)] + [repr(float(f)) for f in record_fields(group, pose)]))
    for a, b, z, O in found:
        fields = list(record_fields(group, z)) + list(O[np.triu_indices(len(O))])
        lines.append(" ".join([names[1], str(a), str(b)] + [repr(float(f)) for f in fields]))
    path.write_text("\n".join(lines) + "\n")


def file_part(task, ctx):
    import pathlib
    import shutil
    import tempfile

    import numpy as np

    from .c25 import numbers

    group, truth, found, start = problem(task["file"], task["numbers"])
    position = lambda pose: pose[-spatial(group) :]
    first = np.array([position(p) for p in start])
    roots = [(a, b, z, np.linalg.cholesky(O).T) for a, b, z, O in found]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="mc-program-"))
    try:
        path = scratch / "graph.g2o"
        write(path, group, start, found)
        for delta in task["deltas"]:
            case = dict(file=task["file"], numbers=task["numbers"], solver=task["solver"], huber_delta=delta)
            if not ctx.wanted(case):
                continue
            with ctx.case(case):
                best = np.array([position(p) for p in optimum(group, truth, roots, delta)])
                arguments = ["--g2o-path", str(path), "--solver-type", task["solver"]]
                if delta is not None:
                    arguments += ["--huber-delta", repr(delta)]
                text, paths = execute("pose_graph_g2o.py", arguments)
                ctx.transition()
                ctx.check(len(paths) == 2, f"plotted {len(paths)} paths")
                # Robust losses are met slowly: it must be clear that this is not the plain optimum
                tol = 0.02
                if delta is not None:
                    plain = np.array([position(p) for p in optimum(group, truth, roots, None)])
                    apart = np.max(np.abs(best - plain))
                    tol = max(tol, (0.4 if "NEWTON" in task["solver"] else 0.75) * apart)
                    ctx.count("robust_differs" if apart > 0.1 else "robust_same")
                distance = lambda path, expected: np.max(np.abs(np.array(path) - expected)) if np.shape(path) == expected.shape else np.inf
                report = lambda: f"plotted {paths}, instead of {first.tolist()} and {best.tolist()}"
                a = [label for label, p in paths if distance(p, first) < 1e-3]
                b = [label for label, p in paths if distance(p, best) < tol]
                ctx.check(a and b, report)
                if np.max(np.abs(first - best)) > tol + 0.1:
                    # Which is which can be told
                    ctx.check(len(a) == len(b) == 1 and a != b and "init" not in b[0].lower(), report)
                    ctx.count("moved")
                if "cost" in text.lower():
                    # The program reports costs: the one of the initial poses is among them
                    cost = initial_cost(group, truth[0], start, roots, delta)
                    ctx.check(any(abs(x - cost) <= 1e-3 * cost + 1e-4 for x in numbers(text)), f"no cost {cost} in {text}")
                    ctx.count("initial_costs")
                ctx.state((task["file"], task["numbers"], task["solver"], delta))
                ctx.trace()
                ctx.outcome(np.round(best, 3).tolist())
                ctx.sample(dict(case=case, optimum=best.tolist(), paths=paths))
    finally:
        shutil.rmtree(scratch)


def simple_part(task, ctx):
    """The known answer of the simple example: the two poses are at 1/3 and 5/3."""
    from .c25 import numbers

    with ctx.case(dict(program="pose_graph_simple.py")):
        text, paths = execute("pose_graph_simple.py", [])
        ctx.transition()
        values = numbers(text)
        for x in (1 / 3, 5 / 3):
            ctx.check(sum(abs(v - x) < 1e-3 for v in values) >= 2, f"{x} is not printed: {text}")
        ctx.state("simple")
        ctx.trace()
        ctx.outcome(text.count("\n"))


def default_part(task, ctx):
    """The program without arguments: the positions of the 3500-pose file end up where its edges are met."""
    import os

    import numpy as np

    from .. import lab, ref

    with ctx.case(dict(program="pose_graph_g2o.py", arguments=[])):
        text, paths = execute("pose_graph_g2o.py", [])
        ctx.transition()
        edges = []
        for line in open(os.path.join(lab.REPO, "scripts", "data", "input_M3500_g2o.g2o")):
            parts = line.split()
            if parts[0] == "EDGE_SE2":
                edges.append((int(parts[1]), int(parts[2]), float(parts[3]), float(parts[4])))
        ctx.check(len(paths) == 2, f"plotted {len(paths)} paths")
        for label, path in paths:
            path = np.array(path)
            ctx.check(path.shape == (3500, 2), f"path of shape {path.shape}")
            # Lengths do not depend on the directions, which are not shown
            off = [abs(np.linalg.norm(path[b] - path[a]) - np.hypot(x, y)) for a, b, x, y in edges]
            if "init" not in label.lower():
                ctx.check(np.mean(off) < 0.1, f"mean error of the edge lengths {np.mean(off)}")
        ctx.state("default")
        ctx.trace()
        ctx.outcome(round(float(np.mean(off)), 3))
