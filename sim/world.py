"""The simulated world: virtual processes, the cooperative scheduler, the clock and the seams into Python and torch.

``install()`` replaces library entry points (files, network, process pools, clocks, unique names) with dispatchers. They
behave like the originals unless a ``World`` is active. Nothing of irtorch itself is replaced.
"""
from __future__ import annotations
import random
import threading
from collections import Counter

import numpy as np
import torch

from .core import HarnessError, SimBudget, SimCrash

WORLD: "World | None" = None


class Proc:
    """A virtual process. Once dead, every simulated system call it attempts raises SimCrash."""

    def __init__(self, name: str):
        self.name = name
        self.dead = False
        self.ops = 0
        self.faults: list[dict] = []       # {"at": op index, "kind": ...}
        self.sticky: str | None = None     # persistent disk condition
        self.net_faults: list[dict] = []
        self.net_requests = 0
        self.rng: tuple | None = None      # saved global random state while not running
        self.threads: int | None = None
        self.isolated = False              # has its own copy of interpreter wide state


class Task:
    def __init__(self, name: str, fn, proc: Proc):
        self.name, self.fn, self.proc = name, fn, proc
        self.go = threading.Semaphore(0)
        self.done = False
        self.value = None
        self.error: BaseException | None = None
        self.thread: threading.Thread | None = None
        self.started = False


class Scheduler:
    """Runs tasks in real threads of which exactly one is ever runnable. Who runs next is a seeded choice."""

    def __init__(self, world: "World", choose):
        self.world = world
        self.choose = choose              # callable(list of task names) -> index
        self.tasks: list[Task] = []
        self.back = threading.Semaphore(0)
        self.current: Task | None = None
        self.switches = 0
        self.max_switches = 20000
        self.abort = False

    def spawn(self, name: str, fn, proc: Proc) -> Task:
        t = Task(name, fn, proc)
        self.tasks.append(t)
        return t

    def _body(self, t: Task):
        t.go.acquire()
        try:
            if not self.abort:
                t.value = t.fn()
        except BaseException as e:  # noqa: BLE001
            t.error = e
        t.done = True
        self.back.release()

    def point(self, label: str = "") -> None:
        """A point where another task may take over. Called from within a task."""
        t = self.current
        if t is None or threading.current_thread() is not t.thread:
            return
        if self.abort:
            raise SimCrash("aborted")
        self.back.release()
        t.go.acquire()
        if self.abort:
            raise SimCrash("aborted")

    def run(self) -> None:
        """Run all tasks to completion."""
        try:
            while True:
                ready = [t for t in self.tasks if not t.done]
                if not ready:
                    return
                i = self.choose([t.name for t in ready])
                t = ready[i % len(ready)]
                self.switches += 1
                if self.switches > self.max_switches:
                    raise SimBudget(f"more than {self.max_switches} scheduling steps")
                self._resume(t)
        finally:
            self._stop()

    def _resume(self, t: Task) -> None:
        if not t.started:
            t.started = True
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        previous = self.current
        outer = self.world.enter(t.proc)
        self.current = t
        t.go.release()
        self.back.acquire()
        self.current = previous
        self.world.leave(t.proc, outer)

    def _stop(self) -> None:
        self.abort = True
        for t in self.tasks:
            n = 0
            while t.started and not t.done:
                self._resume(t)
                n += 1
                if n > 1000:
                    raise HarnessError(f"task {t.name} does not stop")
            if t.thread is not None:
                t.thread.join(10)


def rng_snapshot() -> tuple:
    return torch.get_rng_state().clone(), np.random.get_state(), random.getstate()


def rng_restore(s: tuple) -> None:
    torch.set_rng_state(s[0])
    np.random.set_state(s[1])
    random.setstate(s[2])


class World:
    def __init__(self, run):
        self.run = run
        self.main = Proc("main")
        self.proc_stack: list[Proc] = [self.main]
        self.sched: Scheduler | None = None
        self.fs = None
        self.net = None
        self.pool = None
        self.clock = None
        self.names = random.Random(f"names/{run.plan.get('seed')}")
        self.step_hooks: list = []          # called after every optimizer step
        self.pre_step_hooks: list = []      # called before every optimizer step
        self.plateau = None                 # called with (metric, learning rates before, after) when a plateau scheduler steps
        self.counters: Counter = Counter()

    # -- processes ---------------------------------------------------------------------------------------------------
    @property
    def proc(self) -> Proc:
        return self.proc_stack[-1]

    def enter(self, proc: Proc):
        """Switch interpreter wide state to that of the process."""
        outer = None
        if proc.isolated and proc is not self.proc:
            outer = (rng_snapshot(), torch.get_num_threads())
            if proc.rng is not None:
                rng_restore(proc.rng)
            if proc.threads is not None and proc.threads != outer[1]:
                torch.set_num_threads(proc.threads)
        self.proc_stack.append(proc)
        return outer

    def leave(self, proc: Proc, outer) -> None:
        popped = self.proc_stack.pop()
        if popped is not proc:
            raise HarnessError("process stack out of order")
        if outer is not None:
            proc.rng = rng_snapshot()
            proc.threads = torch.get_num_threads()
            rng_restore(outer[0])
            if torch.get_num_threads() != outer[1]:
                torch.set_num_threads(outer[1])

    def point(self, label: str = "") -> None:
        if self.sched is not None:
            self.sched.point(label)

    # -- activation --------------------------------------------------------------------------------------------------
    def __enter__(self):
        global WORLD
        if WORLD is not None:
            raise HarnessError("a world is already active")
        WORLD = self
        return self

    def __exit__(self, *exc):
        global WORLD
        WORLD = None
        return False
