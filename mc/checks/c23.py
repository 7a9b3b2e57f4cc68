"""C23: g2o files are loaded as the pose graph they describe."""

import itertools

from .. import graphs

BOUNDS = {
    "quick": "SE2 and SE3 files: all edge sets over ordered pairs of up to 3 vertices (64), all limits, edges last or "
    "interleaved, three number formats; repeated edges and records; chains and loops of 130, 300 and 1100 vertices; chains and loops of 5 vertices; two assignments each",
    "thorough": "all edge sets over 4 vertices with edges in one direction, all limits and layouts",
}
ASSUMPTIONS = ["fields separated by spaces, vertices numbered in order, unit quaternions, no blank lines"]


def tasks(tier):
    cases = []
    for kind in ("SE2", "SE3"):
        for n in (1, 2, 3):
            pairs = list(itertools.permutations(range(n), 2))
            for k in range(1 << len(pairs)):
                edges = [p for i, p in enumerate(pairs) if k >> i & 1]
                cases.append(dict(kind=kind, n=n, edges=edges, layout=("last", "interleaved")[k % 2], text=k % 3, limit=None))
                limits = range(1, n + 2) if k % 4 == 3 or n < 3 else ()
                cases += [dict(kind=kind, n=n, edges=edges, layout=("interleaved", "last")[l % 2], text=l % 3, limit=l) for l in limits]
        cases.append(dict(kind=kind, n=3, edges=[(0, 1), (0, 1), (1, 2), (1, 0), (0, 1)], layout="last", text=0, limit=None))
        for layout, text in (("last", 0), ("interleaved", 1)):
            for edges in ([(0, 1)] * 2, [(0, 1), (1, 2), (0, 1)], [(1, 0), (1, 0), (1, 2), (1, 2)]):
                cases.append(dict(kind=kind, n=3, edges=edges, layout=layout, text=text, limit=None, same=True))
        chain = [(i, i + 1) for i in range(4)]
        for edges in (chain, chain + [(4, 0)], chain + [(0, 2), (4, 1), (2, 4)], chain[::-1]):
            for limit in (None, 1, 3, 4, 5, 9):
                cases.append(dict(kind=kind, n=5, edges=edges, layout="last", text=1, limit=limit))
        if tier == "thorough":
            pairs = list(itertools.combinations(range(4), 2))
            for k in range(1 << len(pairs)):
                edges = [p[:: 1 if i % 2 else -1] for i, p in enumerate(pairs) if k >> i & 1]
                for limit, layout in itertools.product((None, 1, 2, 3, 4), ("last", "interleaved")):
                    cases.append(dict(kind=kind, n=4, edges=edges, layout=layout, text=k % 3, limit=limit))
    long = []
    for kind, n in itertools.product(("SE2", "SE3"), (130, 300, 1100) if tier == "quick" else (130, 300, 1100, 4100)):
        edges = [(i, i + 1) for i in range(n - 1)] + [(i + 20, i) for i in range(0, n - 20, 7)] + [(0, n - 1)]
        limits = (None, n - 30, n) if n < 1000 else (None,)
        long += [dict(kind=kind, n=n, edges=edges, layout=("last", "interleaved")[l is None], text=0, limit=l) for l in limits]
    out = [dict(config=dict(x64=True), cases=[c]) for c in long[::-1]]
    return out + [dict(config=dict(x64=True), cases=c) for c in graphs.chunks(cases, 12)]


def number(x, text):
    if text == 2:
        return f"{x:.9e}"
    return repr(round(float(x), 9))


def content(kind, n, edges, same):
    """Poses, and (a, b, measurement, information) per edge, as numbers."""
    import numpy as np

    from .. import ref

    g = ref.GROUPS[kind]
    poses = [g.exp(np.sin(1.0 + 2 * i + np.arange(g.ldim)) * (0.9 + 0.4 * (i % 20))) for i in range(n)]
    found = []
    for e, (a, b) in enumerate(edges):
        e = edges.index((a, b)) if same else e % 50  # The same record again, or other measurements
        z = g.mul(g.mul(g.inv(poses[a]), poses[b]), g.exp(0.2 * np.cos(e + np.arange(g.ldim))))
        M = np.eye(g.ldim) * (2.0 + 0.3 * np.arange(g.ldim)) + 0.5 * np.sin(e + np.arange(g.ldim**2)).reshape(g.ldim, g.ldim)
        found.append((a, b, z, M @ M.T if e % 3 != 2 else np.diag(1.0 + np.arange(g.ldim))))
    return poses, found


def record_fields(kind, pose):
    """The pose fields of a record, and the flat pose they denote."""
    import numpy as np

    if kind == "SE2":
        cos, sin, x, y = pose
        return [x, y, np.arctan2(sin, cos)]
    w, i, j, k, x, y, z = pose
    return [x, y, z, i, j, k, w]


def read_back(kind, fields):
    import numpy as np

    fields = [float(f) for f in fields]
    if kind == "SE2":
        x, y, t = fields
        return np.array([np.cos(t), np.sin(t), x, y])
    x, y, z, i, j, k, w = fields
    return np.array([w, i, j, k, x, y, z])


def run(task, ctx):
    import importlib.util
    import os
    import shutil
    import tempfile

    import jax

    from .. import lab

    spec = importlib.util.spec_from_file_location("mc_g2o_utils", os.path.join(lab.REPO, "scripts", "_g2o_utils.py"))
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    module.tqdm = lambda x, *a, **k: x
    scratch = tempfile.mkdtemp(prefix="mc-g2o-")
    try:
        with jax.disable_jit():
            for case in task["cases"]:
                if ctx.wanted(case):
                    with ctx.case(case):
                        check(ctx, module, scratch, **case)
    finally:
        shutil.rmtree(scratch)


def check(ctx, module, scratch, kind, n, edges, layout, text, limit, same=False):
    import os
    import pathlib

    import numpy as np

    import jaxfg

    from .. import lab, ref

    g, vt = ref.GROUPS[kind], lab.VTYPES[kind]
    poses, found = content(kind, n, [tuple(e) for e in edges], same)
    names = dict(SE2=("VERTEX_SE2", "EDGE_SE2"), SE3=("VERTEX_SE3:QUAT", "EDGE_SE3:QUAT"))[kind]
    gap = " " if text != 1 else "  "
    upper = np.triu_indices(g.ldim)
    vertex_lines, edge_lines, expected_poses, expected_edges = [], [], [], []
    for i, pose in enumerate(poses):
        fields = [number(f, text) for f in record_fields(kind, pose)]
        vertex_lines.append(gap.join([names[0], str(i)] + fields))
        expected_poses.append(read_back(kind, fields))
    for a, b, z, information in found:
        fields = [number(f, text) for f in record_fields(kind, z)]
        entries = [number(f, text) for f in information[upper]]
        edge_lines.append(((a, b), gap.join([names[1], str(a), str(b)] + fields + entries) + (" " if text == 1 else "")))
        O = np.zeros((g.ldim, g.ldim))
        O[upper] = [float(f) for f in entries]
        expected_edges.append((a, b, read_back(kind, fields), O + O.T - np.diag(np.diag(O))))
    if layout == "last":
        lines = vertex_lines + [l for _, l in edge_lines]
    else:
        lines = []
        for i, l in enumerate(vertex_lines):
            lines.append(l)
            lines += [el for (a, b), el in edge_lines if max(a, b) == i]
    path = pathlib.Path(scratch) / "graph.g2o"
    path.write_text("\n".join(lines) + ("\n" if text != 2 else ""))

    data = module.parse_g2o(path) if limit is None else module.parse_g2o(path, pose_count_limit=limit)
    kept = n if limit is None else min(n, limit)
    ctx.state((kind, n, str(edges), layout, text, limit))
    ctx.transition(len(lines))
    variables = list(data.initial_poses)
    ctx.check(len(variables) == kept, f"{len(variables)} poses instead of {kept}")
    for i, v in enumerate(variables):
        ctx.check(type(v) is vt.cls, f"vertex {i} became a {type(v).__name__}")
        got = vt.from_value(data.initial_poses[v])
        ctx.check(g.same(got, expected_poses[i]) < 1e-7, f"pose {i} is {got.tolist()} instead of {expected_poses[i].tolist()}")

    graph = jaxfg.core.StackedFactorGraph.make(data.factors)
    ctx.check(set(graph.get_variables()) <= set(variables), "factors of unknown variables")
    connected = [e for e in expected_edges if e[0] < kept and e[1] < kept]
    inside = {0} | {i for e in connected for i in e[:2]}
    ctx.check(set(graph.get_variables()) == {variables[i] for i in inside}, "graph has the wrong variables")
    for scale in (0.0, 0.2):
        values = [g.mul(p, g.exp(scale * np.sin(3.0 * i + np.arange(g.ldim)))) for i, p in enumerate(expected_poses[:kept])]
        anchor = 100.0 * g.log(g.mul(g.inv(values[0]), expected_poses[0]))
        expected = np.sum(anchor**2)
        for a, b, z, O in connected:
            e = g.log(g.mul(g.inv(g.mul(g.inv(values[a]), values[b])), z))
            expected += e @ O @ e
        # Assignments of the poses that occur in factors
        given = {v: values[i] for i, v in enumerate(variables) if i in inside}
        cost = float(graph.compute_cost(lab.make_assignments(given))[0])
        ctx.check(lab.close(cost, expected, 1e-6), f"cost {cost} instead of {expected}")
        ctx.trace()
        ctx.outcome(round(cost, 6))
    ctx.sample(dict(file=lines[:12], limit=limit))
