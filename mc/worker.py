"""Worker process: runs work items against the real library, one at a time."""

import hashlib
import json
import os
import resource
import sys
import traceback


class Violation(Exception):
    pass


class SkipCase(Exception):
    pass


class Context:
    """Handed to checks: collects counts and violations."""

    def __init__(self, inflight_fd, only_case=None):
        self.fd = inflight_fd
        self.only_case = only_case
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.counters = {}
        self.samples = []
        self.known = {}
        self.violations = []
        self.current = None

    # Accounting

    @staticmethod
    def _digest(key):
        return hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()

    def state(self, key):
        """Records a canonical state. Returns whether it is new to this work item."""
        digest = self._digest(key)
        new = digest not in self.states
        self.states.add(digest)
        return new

    def outcome(self, key):
        self.outcomes.add(self._digest(key))

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, what):
        if len(self.samples) < 2:
            self.samples.append(what)

    # Judging

    def case(self, description):
        """Use as `with ctx.case(...)`: anything raised inside is a violation."""
        return _Case(self, description)

    def wanted(self, description):
        """When replaying one case of a work item, skips the others."""
        return self.only_case is None or json.dumps(
            description, default=str
        ) == json.dumps(self.only_case, default=str)

    def fail(self, what):
        raise Violation(what)

    def check(self, condition, what):
        if not condition:
            raise Violation(what() if callable(what) else what)

    def finding(self, name, what):
        """Records an occurrence of a known finding (must be listed to be accepted)."""
        self.known.setdefault(name, what)


class _Case:
    def __init__(self, ctx, description):
        self.ctx = ctx
        self.description = description

    def __enter__(self):
        text = json.dumps(self.description, default=str)
        self.ctx.current = text
        data = text.encode()[:4000]
        os.pwrite(self.ctx.fd, data + b" " * (4000 - len(data)), 0)
        return self

    def __exit__(self, kind, value, tb):
        if kind is None:
            return False
        if kind is SkipCase:
            return True
        if not issubclass(kind, Exception):
            return False
        ctx = self.ctx
        if len(ctx.violations) < 3:
            if kind is Violation:
                what, log = str(value), ""
            else:
                what = f"unexpected {kind.__name__}: {str(value)[:500]}"
                log = "".join(traceback.format_exception(kind, value, tb))[-4000:]
            ctx.violations.append(dict(case=self.description, what=what, log=log))
        if len(ctx.violations) >= 3:
            raise _Enough()
        return True


class _Enough(Exception):
    pass


def main():
    property_id, inflight_path = sys.argv[1:3]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # the library prints
    fd = os.open(inflight_path, os.O_RDWR)

    import faulthandler

    faulthandler.enable()
    from . import runner

    check = runner.load(property_id)
    for line in sys.stdin:
        task = json.loads(line)
        ctx = Context(fd, task.pop("only_case", None))
        try:
            check.run(task, ctx)
        except _Enough:
            pass
        except Exception as e:
            ctx.violations.append(
                dict(
                    case=ctx.current,
                    what=f"unexpected {type(e).__name__}: {str(e)[:500]}",
                    log=traceback.format_exc()[-4000:],
                )
            )
        out.write(
            json.dumps(
                dict(
                    states=sorted(ctx.states),
                    outcomes=sorted(ctx.outcomes),
                    transitions=ctx.transitions,
                    traces=ctx.traces,
                    counters=ctx.counters,
                    samples=ctx.samples,
                    known=ctx.known,
                    violations=ctx.violations,
                ),
                default=str,
            )
            + "\n"
        )
        out.flush()
        if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 2_500_000:
            if "jax" in sys.modules:
                import jax

                jax.clear_caches()


if __name__ == "__main__":
    main()
