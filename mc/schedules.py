"""Enumeration of thread interleavings on the real library.

Threads run one at a time. A thread may be interrupted before every line (or bytecode
instruction) that it executes in library code. A schedule is given by the order in which
threads take over when another one ends, and by the points at which one is preempted.
`explore()` enumerates every schedule with at most a given number of preemptions.
"""

import atexit
import gc
import itertools
import os
import sys
import threading
import time
import types

LIBRARY = os.path.join(os.environ.get("MC_REPO", "/repo"), "jaxfg") + os.sep

# A thread that reaches no point for this long is taken to wait for another one. Being
# wrong about it is harmless: what we check has to hold for every interleaving.
STUCK_S = 0.1


class _Monitor:
    """Reports lines or instructions of library code, for threads of the current run."""

    def __init__(self):
        self.threads = {}
        self.run = None
        self.mode = None
        self.files = None
        self.instrumented = []

    def install(self, mode, files):
        """Only called while no thread is in library code."""
        m = sys.monitoring
        if (mode, files) == (self.mode, self.files):
            return
        if self.mode is None:
            m.use_tool_id(m.DEBUGGER_ID, "schedules")
            m.register_callback(m.DEBUGGER_ID, m.events.LINE, self.line)
            m.register_callback(m.DEBUGGER_ID, m.events.INSTRUCTION, self.instruction)
        m.set_events(m.DEBUGGER_ID, 0)
        for code in self.instrumented:
            m.set_local_events(m.DEBUGGER_ID, code, 0)
        self.instrumented = []
        self.mode, self.files = mode, files
        m.restart_events()
        if mode == "lines":
            m.set_events(m.DEBUGGER_ID, m.events.LINE)
            return
        todo = [o.__code__ for o in gc.get_objects() if isinstance(o, types.FunctionType)]
        seen = set()
        while todo:
            code = todo.pop()
            if id(code) in seen or not self.covers(code):
                continue
            seen.add(id(code))
            todo.extend(c for c in code.co_consts if isinstance(c, types.CodeType))
            self.instrumented.append(code)
            m.set_local_events(m.DEBUGGER_ID, code, m.events.INSTRUCTION)

    def covers(self, code):
        return code.co_filename.startswith(LIBRARY) and (
            self.files is None or os.path.basename(code.co_filename) in self.files
        )

    def line(self, code, line):
        if not self.covers(code):
            return sys.monitoring.DISABLE
        self.report(code, line, 0)

    def instruction(self, code, offset):
        self.report(code, code.co_firstlineno, offset)

    def report(self, code, line, offset):
        thread = self.threads.get(threading.get_ident())
        if thread is not None:
            self.run._point(thread, (os.path.basename(code.co_filename), line, offset))


monitor = _Monitor()


@atexit.register
def _uninstall():
    if monitor.mode is not None:
        sys.monitoring.set_events(sys.monitoring.DEBUGGER_ID, 0)
        sys.monitoring.free_tool_id(sys.monitoring.DEBUGGER_ID)


class Run:
    """One execution of some thread bodies under one schedule."""

    def __init__(self, bodies, order, preemptions, opcodes=False, files=None):
        self.bodies = bodies
        self.order = order
        self.preemptions = dict(preemptions)  # point number -> thread
        monitor.install("instructions" if opcodes else "lines", files)
        monitor.run = self
        self.lock = threading.Condition()
        self.turn = order[0]
        self.points = []  # (thread that was about to go on, threads that could take over)
        self.where = []
        self.done = set()
        self.stuck = set()
        self.blocked = 0
        self.progress = 0
        self.results = [None] * len(bodies)
        self.errors = [None] * len(bodies)

    def _take_over(self, thread):
        self.turn = thread
        self.progress += 1
        self.lock.notify_all()

    def _next(self):
        """Thread that goes on when the current one can't."""
        waiting = [t for t in self.order if t not in self.done]
        fresh = [t for t in waiting if t not in self.stuck]
        return (fresh or waiting or [None])[0]

    def _wait(self, thread):
        while self.turn != thread:
            self.lock.wait()

    def _point(self, thread, where):
        with self.lock:
            self.stuck.discard(thread)
            self._wait(thread)
            self.progress += 1
            number = len(self.points)
            others = [t for t in self.order if t != thread and t not in self.done and t not in self.stuck]
            self.points.append((thread, others))
            self.where.append(where)
            target = self.preemptions.get(number)
            if target is not None and target in others:
                self._take_over(target)
                self._wait(thread)

    def _thread(self, thread):
        with self.lock:
            self._wait(thread)
        monitor.threads[threading.get_ident()] = thread
        try:
            self.results[thread] = self.bodies[thread]()
        except Exception as e:
            self.errors[thread] = e
        finally:
            monitor.threads.pop(threading.get_ident(), None)
            with self.lock:
                self.done.add(thread)
                self.stuck.discard(thread)
                if self.turn == thread:
                    self._take_over(self._next())

    def go(self, limit_s=60.0):
        threads = [threading.Thread(target=self._thread, args=(t,), daemon=True) for t in range(len(self.bodies))]
        for t in threads:
            t.start()
        start = time.monotonic()
        last, since = -1, start
        while any(t.is_alive() for t in threads):
            for t in threads:
                if t.is_alive():
                    t.join(STUCK_S / 4)
                    break
            now = time.monotonic()
            with self.lock:
                if self.progress != last:
                    last, since = self.progress, now
                elif now - since > STUCK_S and len(self.done) < len(self.bodies):
                    self.stuck.add(self.turn)
                    self.blocked += 1
                    self._take_over(self._next())
            if now - start > limit_s:
                raise TimeoutError(f"threads did not finish: {sorted(set(range(len(threads))) - self.done)} left")
        return self


def explore(make_bodies, count, preemptions, visit, opcodes=False, files=None, only=None, first=None):
    """Runs every schedule of `count` threads with at most `preemptions` preemptions.

    `make_bodies(number)` gives new thread bodies for each execution, which need to do the
    same amount of work each time. `visit(run, schedule)` judges one execution."""
    number = itertools.count()
    todo = [(order, ()) for order in itertools.permutations(range(count))]
    if first is not None:  # Part 0: thread 0 goes first; part 1: another one does
        todo = [s for s in todo if (s[0][0] == 0) == (first == 0)]
    if only is not None:
        todo, preemptions = [only], 0
    seen = set()
    while todo:
        order, chosen = todo.pop()
        run = Run(make_bodies(next(number)), order, chosen, opcodes, files).go()
        visit(run, (order, chosen))
        if len(chosen) >= preemptions:
            continue
        after = chosen[-1][0] + 1 if chosen else 0
        for k in range(after, len(run.points)):
            for other in run.points[k][1]:
                schedule = (order, chosen + ((k, other),))
                # Preempting a thread before its first step is another order
                if k > 0 and schedule not in seen:
                    seen.add(schedule)
                    todo.append(schedule)
