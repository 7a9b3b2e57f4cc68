"""Writes /verif/MANIFEST.json: one entry per property that has a check in mc/checks."""
import importlib, json, pathlib, sys

root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
TECHNIQUE = {
    "C01": "bounded exhaustive enumeration of factor sequences on the real graph builder, numpy reference model",
    "C02": "bounded exhaustive enumeration of factor sequences on the real linearization, exact-derivative reference model",
    "C03": "explicit-state search of the complete state space of real assignment objects against a map model",
    "C04": "exhaustive enumeration of variable sets, value orders and delta orders on the real retraction",
    "C05": "exhaustive enumeration of factor and assignment permutations on the real solvers",
    "C06": "exhaustive enumeration of graph topologies, weights and solver pairs, closed-form reference",
    "C07": "exhaustive enumeration of linear-solver answer sequences on the real solvers, monotonicity monitor",
    "C08": "exhaustive enumeration of linear-solver answer sequences, conformance with a nondeterministic reference state machine",
    "C09": "exhaustive enumeration of linear-solver answer sequences, conformance with a nondeterministic reference state machine",
    "C10": "exhaustive enumeration of iteration counts, loop forms and answer sequences, conformance with a reference state machine",
    "C11": "exhaustive enumeration of termination settings, conformance with a nondeterministic reference state machine",
    "C12": "exhaustive enumeration of sparsity patterns and nonzero orders on the real linear solvers, dense reference",
    "C13": "exhaustive enumeration of operation histories from a fresh library instance",
    "C14": "stateless model checking of thread schedules at line granularity, preemption bounded",
    "C15": "exhaustive enumeration of coordinate lists on the real sparse matrix, dense reference",
    "C16": "exhaustive enumeration of noise models and graphs that mix them, closed-form reference",
    "C17": "exhaustive enumeration of thresholds, norms and noise mixes, closed-form Huber reference",
    "C18": "exhaustive enumeration of graph topologies and query histories, dense inverse reference",
    "C19": "exhaustive enumeration of a pose and measurement grid for each group, independent Lie group reference",
    "C20": "exhaustive enumeration of operation and transformation compositions, untransformed reference",
    "C21": "exhaustive enumeration of value types from a pytree grammar, leafwise reference",
    "C22": "exhaustive enumeration of pairs of variable sets, operations and single mutations, refusal monitor",
    "C23": "exhaustive enumeration of record sequences, independent parser and cost model",
    "C24": "exhaustive enumeration of edit histories on real stacked graphs, rebuilt-graph reference",
    "C25": "exhaustive enumeration of environment answer sequences and limits, reports compared with the reference machines",
    "C26": "exhaustive enumeration of program inputs and options, reference optimum",
    "C27": "exhaustive enumeration of trees from a grammar and of block exits, leafwise reference",
    "C28": "exhaustive enumeration of factor sequences over an alphabet of user-defined noise models on the real code, float64 reference",
    "C29": "exhaustive enumeration of variable lists, pairs of layouts and changes of layout on the real code",
    "C30": "exhaustive enumeration of number forms of every setting and of mixes of types on the real code, closed-form solutions",
    "C31": "exhaustive exploration of operation sequences on the real code against a numpy model of the session",
}
checks, missing = [], []
for line in (root / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    try:
        module = importlib.import_module(f"mc.checks.{pid.lower()}")
    except ModuleNotFoundError:
        missing.append(dict(property=pid, reason="check not built yet"))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd=f"/opt/venv/bin/python -m mc run {pid} --tier quick",
        thorough_cmd=f"/opt/venv/bin/python -m mc run {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json",
        technique=TECHNIQUE[pid],
        level="model_checking",
        level_note="Every case within these bounds, on the real code: " + module.BOUNDS["quick"]
        + ". Assumes: " + "; ".join(module.ASSUMPTIONS) + ".",
    ))
manifest = dict(
    version=1,
    setup_cmd="bash /verif/setup.sh",
    checks=checks,
    not_applicable=missing,
    notes="No hooks: the checks use jaxfg's public interface only. See DESIGN.md.",
)
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "missing")
