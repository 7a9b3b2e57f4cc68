"""C31: sessions of edits, solves and queries."""

import itertools

OPERATIONS = ("grow", "shrink", "close", "set", "step", "cg", "lm", "edit", "reorder", "retract")
FAMILIES = {
    "poses": ("SE2", "SE2", "SE2", "SE2"),
    "mixed": ("R2", "SE2", "R2", "SE2"),
    "rotations": ("SO3", "SO3", "SO3", "SO3"),
}
BOUNDS = {
    "quick": "3 families of graphs with 2 to 4 variables; all sequences of up to 3 out of 10 operations (two families: 4 where the first is one "
    "that changes the graph): add or remove a variable or a factor, set a value, one Gauss-Newton step with CHOLMOD or conjugate gradients, one "
    "Levenberg-Marquardt step, new parameters in the stacked graph, other storage order, retraction; cost, residuals, likelihood, Jacobian, values "
    "and covariances checked after every operation, and the objects from before it once more after everything that followed",
    "thorough": "all sequences of up to 4 operations for all families",
}
ASSUMPTIONS = [
    "answers compared with a numpy model of the same session: 1e-6",
    "Levenberg-Marquardt steps whose acceptance is within 1e-6 of the threshold are not judged",
    "sessions end where a rotation residual comes within 0.2 of pi, or between 1e-6 and 0.002 where jaxlie's logarithm loses digits",
]
TASK_TIMEOUT = 400


def tasks(tier):
    out = []
    for family in FAMILIES:
        for first in OPERATIONS:
            deep = tier != "quick" or (family != "rotations" and first in ("grow", "close", "edit", "reorder"))
            out.append(dict(config=dict(x64=True), family=family, first=first, depth=4 if deep else 3))
    return out


class Model:
    """The problem and the estimate, in numpy. Never changed once it is in use."""

    def __init__(self, family, count=3, loop=False, variant=0, values=None, order=None):
        from .. import lab

        self.family, self.count, self.loop, self.variant = family, count, loop, variant
        self.types = FAMILIES[family]
        self.variables = [lab.var(t, 10 + i) for i, t in enumerate(self.types[:count])]
        self.values, self.order = values, order

    def but(self, **changes):
        kw = dict(count=self.count, loop=self.loop, variant=self.variant, values=self.values, order=self.order)
        return Model(self.family, **{**kw, **changes})

    def factors(self):
        """Descriptions of the factors, in the order in which they are listed."""
        out = [("anchor", 0), ("anchor", self.count - 1)]
        out += [("link", i, i + 1) for i in range(self.count - 1)]
        if self.loop:
            out.insert(1, ("link", 0, self.count - 1))
        return out

    def build(self):
        return [make_factor(self.types, d, self.variant) for d in self.factors()]

    def key(self):
        import numpy as np

        return (self.family, self.count, self.loop, self.variant, tuple(self.variables.index(v) for v in self.order),
                tuple(np.round(np.concatenate([self.values[v] for v in self.variables]), 6).tolist()))


def make_factor(types, description, variant):
    import numpy as np

    from .. import lab, ref

    kind, indices = description[0], description[1:]
    k = variant + 0.7 * sum(indices) + 0.3 * len(indices)
    names = [types[i] for i in indices]
    if len(set(names)) == 1 and names[0] in ref.GROUPS:
        g = ref.GROUPS[names[0]]
        z = g.exp(0.4 * np.sin(1.0 + k + 1.3 * np.arange(g.ldim)))
        at = [10 + i for i in indices]
        if kind == "anchor":
            return lab.prior(names[0], *at, noise="diag", variant=variant, mu=z)
        return lab.between(names[0], *at, noise="full", variant=variant + indices[0], measured=z)
    return lab.generic(names, [10 + i for i in indices], res_dim=3, noise="diag" if kind == "anchor" else "full", variant=variant + indices[0])


def unclear(model, factors):
    """Whether a rotation residual is about to wrap around, or in a range where the derivative of jaxlie's logarithm has few correct digits."""
    import numpy as np

    if model.family == "mixed":
        return False
    angles = [np.linalg.norm(f.residual(model.values)[-3 if model.family == "rotations" else -1 :]) for f in factors]
    return any(a > np.pi - 0.2 or 1e-6 < a < 2e-3 for a in angles)


def replaced(graph, old, new):
    """The stacked graph with the parameters of one group replaced by those of other factors."""
    import jax
    import jax_dataclasses as jdc
    import numpy as np

    groups = {}
    for a, b in zip(old, new):
        groups.setdefault((type(a.jaxfg), type(a.noise.model)), []).append(b)
    for (cls, noise), members in groups.items():
        found = [
            k for k, s in enumerate(graph.factor_stacks)
            if type(s.factor) is cls and type(s.factor.noise_model) is noise and s.num_factors == len(members)
        ]
        assert len(found) == 1, f"{len(found)} stacks for one group of factors"
        leaves = [np.stack([np.asarray(x) for x in l]) for l in zip(*[jax.tree_util.tree_leaves(m.jaxfg) for m in members])]
        with jdc.copy_and_mutate(graph) as edited:
            stack = edited.factor_stacks[found[0]]
            stack.factor = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(stack.factor), leaves)
        graph = edited
    return graph


def run(task, ctx):
    import numpy as np

    import jaxfg

    from .. import lab

    family = task["family"]
    one = dict(max_iterations=1, verbose=False)
    solvers = dict(
        step=jaxfg.solvers.FixedIterationGaussNewtonSolver(iterations=1, unroll=False, verbose=False),
        cg=jaxfg.solvers.GaussNewtonSolver(linear_solver=jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-12), **one),
        lm=jaxfg.solvers.LevenbergMarquardtSolver(lambda_initial=0.25, **one),
    )

    def start():
        model = Model(family)
        values = {v: lab.vtype_of(v).retract(lab.vtype_of(v).default, 0.3 * np.sin(i + 1.0 + np.arange(lab.vtype_of(v).ldim))) for i, v in enumerate(model.variables)}
        model = model.but(values=values, order=list(model.variables))
        return model, lab.make_graph(model.build()), lab.make_assignments(values)

    def apply(op, model, graph, given):
        """The model, graph and assignments after an operation. None if it is not possible."""
        if op == "grow":
            if model.count == 4:
                return None
            new = model.but(count=model.count + 1)
            added = new.variables[-1]
            new.values = {**model.values, added: lab.vtype_of(added).default}
            new.order = model.order + [added]
            held = {v: given.get_value(v) for v in given.get_variables()}
            return new, lab.make_graph(new.build()), jaxfg.core.VariableAssignments.make_from_partial_dict(new.order, held)
        if op == "shrink":
            if model.count == 2:
                return None
            new = model.but(count=model.count - 1, loop=model.loop and model.count > 3)
            kept = [v for v in model.order if v in new.variables]
            new.values, new.order = {v: model.values[v] for v in kept}, kept
            held = given.as_dict()
            return new, lab.make_graph(new.build()), jaxfg.core.VariableAssignments.make_from_dict({v: held[v] for v in kept})
        if op == "close":
            if model.count == 2:
                return None
            new = model.but(loop=not model.loop)
            return new, lab.make_graph(new.build()), given
        if op == "set":
            v = model.variables[1]
            t = lab.vtype_of(v)
            value = t.retract(t.default, 0.5 * np.cos(model.variant + np.arange(t.ldim)))
            return model.but(values={**model.values, v: value}), graph, given.set_value(v, t.to_value(value))
        if op == "edit":
            new = model.but(variant=model.variant + 1)
            return new, replaced(graph, model.build(), new.build()), given
        if op == "reorder":
            order = model.order[::-1]
            return model.but(order=order), graph, jaxfg.core.VariableAssignments.make_from_dict({v: given.get_value(v) for v in order})
        columns, dim = lab.columns_of(model.variables)
        if op == "retract":
            delta = 0.17 * np.sin(2.0 + np.arange(dim))
            # Deltas are stored in the opposite order of the values
            order = model.order[::-1]
            layout = jaxfg.core.StorageLayout.make(order, local=True)
            storage = np.zeros(dim)
            for v, at in layout.index_from_variable.items():
                n = lab.vtype_of(v).ldim
                storage[at : at + n] = delta[columns[v] : columns[v] + n]
            moved = given.manifold_retract(jaxfg.core.VariableAssignments(storage, layout))
            return model.but(values=lab.ref_retract(model.values, delta, columns)), graph, moved
        # Steps of solvers
        J, r = lab.ref_system(model.build(), model.values, columns)
        damping = dict(step=1e-5, cg=0.0, lm=0.25 + 1e-5)[op]
        delta = np.linalg.solve(J.T @ J + damping * np.eye(dim), -J.T @ r)
        values = lab.ref_retract(model.values, delta, columns)
        new = model.but(values=values)
        if op == "lm":
            actual = lab.ref_cost(model.build(), values) - r @ r
            predicted = np.sum((J @ delta + r) ** 2) - r @ r
            quality = actual / predicted
            if abs(quality - solvers["lm"].step_quality_min) < 1e-6 or abs(predicted) < 1e-9:
                return None
            if quality < solvers["lm"].step_quality_min:
                new = model
        return new, graph, graph.solve(given, solver=solvers[op])

    def observe(path, model, graph, given):
        variables = model.variables
        factors = model.build()
        got = lab.read_assignments(given, variables)
        difference = lab.same_values(model.values, got)
        ctx.check(difference <= 1e-6, lambda: f"after {path}: values {got} instead of {model.values}")
        # From here on the model follows the observed values: differences do not add up over a session
        model.values = got
        listed = list(given.get_variables())
        ctx.check(set(listed) == set(variables) and len(listed) == len(variables), f"after {path}: wrong variables")
        cost, residual = graph.compute_cost(given)
        expected = lab.ref_cost(factors, model.values)
        ctx.check(lab.close(cost, expected, 1e-6), lambda: f"after {path}: cost {cost} instead of {expected}")
        nll = expected + sum(f.noise.log_det_cov() for f in factors)
        ctx.check(lab.close(graph.compute_joint_nll(given), nll, 1e-6), f"after {path}: wrong likelihood")
        A = graph.compute_whitened_residual_jacobian(given, residual)
        layout = graph.local_storage_layout.index_from_variable
        J, r = lab.ref_system(factors, model.values, {v: layout[v] for v in variables})
        dense = np.asarray(A.as_dense())
        ctx.check(lab.close(dense.T @ dense, J.T @ J, 1e-6), f"after {path}: wrong information matrix")
        ctx.check(lab.close(np.asarray(A.T @ residual), J.T @ r, 1e-6), f"after {path}: wrong gradient")
        pair = (variables[-1], variables[0])
        covariance = jaxfg.experimental.SparseCovariance.make(graph, given).compute_marginal(*pair)
        rows = np.concatenate([layout[v] + np.arange(lab.vtype_of(v).ldim) for v in pair])
        ctx.check(lab.close(covariance, np.linalg.inv(J.T @ J)[np.ix_(rows, rows)], 1e-6), f"after {path}: wrong covariance")
        ctx.state(model.key())

    def frozen(graph, given):
        import jax

        return [np.array(l) for l in jax.tree_util.tree_leaves((graph, given))]

    def visit(path, model, graph, given, depth):
        before = frozen(graph, given)
        for op in OPERATIONS if path else (task["first"],):
            step = path + [op]
            after = apply(op, model, graph, given)
            if after is None:
                ctx.count("impossible_operations")
                continue
            ctx.transition()
            if unclear(after[0], after[0].build()):
                ctx.count("sessions_ended_at_unclear_angles")
                continue
            if ctx.wanted(step):
                with ctx.case(step):
                    observe(step, *after)
                    ctx.trace()
                    ctx.outcome((op, after[0].count, after[0].loop))
            if depth > 1:
                visit(step, *after, depth - 1)
        now = frozen(graph, given)
        ctx.check(
            len(before) == len(now) and all(np.array_equal(a, b) for a, b in zip(before, now)),
            f"the graph or the assignments after {path} were changed by what was done later",
        )

    visit([], *start(), task["depth"])
    ctx.sample(dict(family=family, first=task["first"]))
