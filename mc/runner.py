"""Explorer driver: hands enumerated work items to worker processes and judges the outcome.

The driver itself never imports jaxfg or JAX. Work items are executed by `mc.worker`
processes, each of which imports the library from the repository's working tree.
"""

import importlib
import json
import os
import pathlib
import queue
import subprocess
import sys
import tempfile
import threading
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
PYTHON = os.environ.get("MC_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("MC_REPO", "/repo")

# Unoptimized code is all that we need, and compiles about twice as fast.
XLA_FLAGS = (
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
)

LEVEL = "model_checking"


def load(property_id):
    return importlib.import_module(f"mc.checks.{property_id.lower()}")


def worker_env(config):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    env.update(
        JAX_PLATFORMS="cpu",
        JAX_ENABLE_X64="1" if config.get("x64", True) else "0",
        XLA_FLAGS=XLA_FLAGS,
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=f"{REPO}:{VERIF}",
        MC_REPO=REPO,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MPLBACKEND="Agg",
        TQDM_DISABLE="1",
        VERIF_SEED=os.environ.get("VERIF_SEED", "0"),
        VERIF_TIER=os.environ.get("VERIF_TIER", "quick"),
    )
    return env


class Worker:
    """One worker process. Killed and replaced when it crashes or hangs."""

    def __init__(self, property_id, config, scratch):
        self.config = config
        self.inflight_path = pathlib.Path(
            tempfile.mkstemp(prefix="inflight-", dir=scratch)[1]
        )
        self.log_path = self.inflight_path.with_suffix(".log")
        self.log = open(self.log_path, "wb")
        self.process = subprocess.Popen(
            [PYTHON, "-W", "ignore", "-m", "mc.worker", property_id, str(self.inflight_path)],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.log,
            env=worker_env(config),
            cwd=scratch,
            text=True,
            start_new_session=True,
        )
        self.lines = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.process.stdout:
            self.lines.put(line)
        self.lines.put(None)

    def run(self, task, timeout):
        """Returns the worker's reply, or a description of how it ended."""
        try:
            self.process.stdin.write(json.dumps(task) + "\n")
            self.process.stdin.flush()
        except OSError:
            pass
        last_inflight, last_change = None, time.time()
        while True:
            try:
                line = self.lines.get(timeout=1.0)
            except queue.Empty:
                inflight = self.inflight()
                if inflight != last_inflight:
                    last_inflight, last_change = inflight, time.time()
                if time.time() - last_change > timeout:
                    self.kill()
                    return dict(died=f"no progress for {timeout} s", inflight=inflight)
                continue
            if line is None:
                self.process.wait()
                return dict(
                    died=f"worker ended with status {self.process.returncode}",
                    inflight=self.inflight(),
                    log=self.tail(),
                )
            return json.loads(line)

    def inflight(self):
        try:
            return self.inflight_path.read_text(errors="replace").strip("\0 \n")
        except OSError:
            return ""

    def tail(self):
        try:
            return self.log_path.read_text(errors="replace")[-2000:]
        except OSError:
            return ""

    def kill(self):
        try:
            os.killpg(self.process.pid, 9)
        except OSError:
            pass
        self.process.wait()
        self.log.close()


class Result:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.counters = {}
        self.samples = []
        self.known = {}
        self.violations = []
        self.retried = []
        self.tasks_total = 0
        self.tasks_done = 0
        self.capped = None

    def absorb(self, reply):
        self.states.update(reply["states"])
        self.outcomes.update(reply["outcomes"])
        self.transitions += reply["transitions"]
        self.traces += reply["traces"]
        for k, v in reply["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples.extend(reply["samples"][: 6 - len(self.samples)])
        for k, v in reply["known"].items():
            self.known.setdefault(k, v)
        self.tasks_done += 1


def explore(property_id, tier, tasks, jobs, deadline_s, task_timeout):
    result = Result()
    result.tasks_total = len(tasks)
    todo = {}
    for index, task in enumerate(tasks):
        key = json.dumps(task.get("config", {}), sort_keys=True)
        todo.setdefault(key, []).append((index, task))

    scratch_dir = tempfile.TemporaryDirectory(prefix="mc-", ignore_cleanup_errors=True)
    scratch = scratch_dir.name
    lock = threading.Lock()
    stop = threading.Event()
    start = time.time()
    attempts = {}
    live = []

    def next_item(prefer):
        with lock:
            if stop.is_set():
                return None
            if time.time() - start > deadline_s:
                if any(todo.values()):
                    result.capped = f"time budget of {deadline_s} s used up"
                return None
            if todo.get(prefer):
                return prefer, todo[prefer].pop(0)
            # Help with the configuration that has the most work left
            best = max(todo, key=lambda k: len(todo[k]), default=None)
            if best is None or not todo[best]:
                return None
            return best, todo[best].pop(0)

    def loop(prefer):
        worker = None
        key = prefer
        while True:
            item = next_item(key)
            if item is None:
                break
            new_key, (index, task) = item
            if worker is not None and new_key != key:
                worker.kill()
                worker = None
            key = new_key
            if worker is None:
                worker = Worker(property_id, json.loads(key), scratch)
                with lock:
                    live.append(worker)
            began = time.time()
            reply = worker.run(task, task_timeout)
            if os.environ.get("MC_TIMES"):
                print(f"{time.time() - began:7.1f} s  {json.dumps(task)[:200]}", file=sys.stderr)
            if stop.is_set():
                break
            if "died" in reply:
                worker.kill()
                worker = None
                with lock:
                    attempts[index] = attempts.get(index, 0) + 1
                    if attempts[index] < 2:
                        # Rule out an environment hiccup: the same item must fail twice
                        result.retried.append(dict(task=task, why=reply))
                        todo[key].append((index, task))
                    else:
                        result.violations.append(
                            dict(task=task, case=reply.get("inflight"), what=reply["died"],
                                 log=reply.get("log", ""))
                        )
                        stop.set()
                continue
            with lock:
                result.absorb(reply)
                if reply["violations"]:
                    for v in reply["violations"]:
                        result.violations.append(dict(task=task, **v))
                    stop.set()
        if worker is not None:
            worker.kill()

    keys = sorted(todo, key=lambda k: -len(todo[k]))
    total = sum(len(v) for v in todo.values())
    jobs = max(1, min(jobs, total))
    # Spread the workers over the configurations in proportion to their work
    prefer = []
    for k in keys:
        prefer.extend([k] * max(1, round(jobs * len(todo[k]) / total)))
    prefer = (prefer + [keys[0]] * jobs)[: max(jobs, len(keys))] if keys else []
    threads = [threading.Thread(target=loop, args=(k,), daemon=True) for k in prefer]
    for t in threads:
        t.start()
    while any(t.is_alive() for t in threads):
        if stop.wait(0.2):
            for w in list(live):
                w.kill()
            for t in threads:
                t.join(10)
            break
    for t in threads:
        t.join(10)
    scratch_dir.cleanup()
    return result


def known_findings():
    """Identifiers of the committed known findings, by property."""
    known = {}
    path = VERIF / "known_findings.txt"
    for line in path.read_text().splitlines() if path.exists() else []:
        if line.startswith("known: "):
            fields = dict(f.split("=", 1) for f in line.split()[1:3])
            known.setdefault(fields["property"], {})[fields["id"]] = line.split(None, 3)[3]
    return known


def run(property_id, tier=None, jobs=None, only=None):
    start = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    jobs = jobs or int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    check = load(property_id)
    tasks = list(check.tasks(tier))
    if only is not None:
        tasks = [t for t in tasks if only in json.dumps(t)]
    deadline = 600 if tier == "quick" else float(os.environ.get("MC_DEADLINE", 3 * 3600))
    result = explore(
        property_id, tier, tasks, jobs, deadline, getattr(check, "TASK_TIMEOUT", 240)
    )

    allowed = known_findings().get(property_id, {})
    for name, what in sorted(result.known.items()):
        if name in allowed:
            print(f"KNOWN-FINDING: property={property_id} {name}: {allowed[name]}")
        else:
            result.violations.append(dict(what=f"unlisted finding {name}: {what}", case=what))

    replay_paths = []
    replays = VERIF / "replays"
    for i, violation in enumerate(result.violations[:5]):
        replays.mkdir(exist_ok=True)
        path = replays / f"{property_id}-{i}.json"
        path.write_text(
            json.dumps(dict(property=property_id, tier=tier, seed=seed, **violation), indent=1)
        )
        replay_paths.append(path)

    exhaustive = result.capped is None and result.tasks_done == result.tasks_total
    evidence = dict(
        property=property_id,
        tier=tier,
        seed=seed,
        level=LEVEL,
        coverage=dict(
            states=len(result.states),
            transitions=result.transitions,
            traces_validated_against_impl=result.traces,
            distinct_outcomes=len(result.outcomes),
            counters=result.counters,
            work_items=result.tasks_total,
            work_items_finished=result.tasks_done,
            exhaustive=exhaustive and not result.violations,
            bounds=check.BOUNDS[tier],
            cap=result.capped,
            samples=result.samples,
            retried=result.retried,
        ),
        assumptions=check.ASSUMPTIONS,
        wall_s=round(time.time() - start, 2),
        violations=len(result.violations),
    )
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{property_id}.json").write_text(json.dumps(evidence, indent=1))

    print(
        f"{property_id} {tier}: states={len(result.states)} transitions={result.transitions} "
        f"traces={result.traces} outcomes={len(result.outcomes)} "
        f"items={result.tasks_done}/{result.tasks_total} wall={time.time() - start:.1f}s"
        + (f" capped: {result.capped}" if result.capped else "")
    )
    if result.violations:
        for violation, path in zip(result.violations, replay_paths):
            print(f"{property_id} violated: {violation.get('what')}")
            print(f"  case: {str(violation.get('case'))[:1500]}")
            print(f"VIOLATION property={property_id} replay={path}")
        return 1
    if result.tasks_done == 0 or result.traces == 0:
        print(f"{property_id}: nothing was explored", file=sys.stderr)
        return 2
    return 0


def replay(path):
    """Runs the work item of a recorded violation again, in one worker."""
    record = json.loads(pathlib.Path(path).read_text())
    os.environ["VERIF_TIER"] = record["tier"]
    task = dict(record["task"])
    if record.get("case") is not None:
        task["only_case"] = record["case"]
    check = load(record["property"])
    result = explore(
        record["property"], record["tier"], [task], 1, 3600, getattr(check, "TASK_TIMEOUT", 240)
    )
    for violation in result.violations:
        print(f"{record['property']} violated: {violation.get('what')}")
        print(f"  case: {violation.get('case')}")
        print(violation.get("log", ""))
    print("reproduced" if result.violations else "not reproduced")
    return 1 if result.violations else 0
