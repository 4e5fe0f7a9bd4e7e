"""Programs that start from the same clean process: each runs in a child of its own, forked from a process that has done nothing yet.

State that irtorch may keep outside of its objects (module level caches, class attributes, mutable defaults) cannot leak from one
program into the other this way.
"""
from __future__ import annotations
import os
import pickle
import signal
import sys
import traceback

from .core import HarnessError, Run, SimBudget, Violation


def elsewhere(run: Run, fn, label: str = ""):
    """The value of fn(run) computed in a fork of this process. What it records is added to the run."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            child = Run(run.check, run.plan)
            child.choices.setstate(run.choices.getstate())
            try:
                out = ("value", fn(child))
            except Violation as v:
                out = ("violation", v.cls, v.message)
            except SimBudget as b:
                out = ("budget", str(b))
            except BaseException as e:  # noqa: BLE001
                out = ("harness", "".join(traceback.format_exception(e))[-3000:])
            blob = pickle.dumps((out, child.trace, child.faults, child.probes, child.states, child.ops, child.simtime))
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        except BaseException:  # noqa: BLE001
            traceback.print_exc(file=sys.__stderr__)
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            blob = f.read()
    finally:
        try:
            if os.waitpid(pid, os.WNOHANG)[0] == 0:
                if not sys.exc_info()[0]:
                    os.waitpid(pid, 0)
                else:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    if not blob:
        raise HarnessError(f"{label}: the forked program died")
    out, trace, faults, probes, states, ops, simtime = pickle.loads(blob)
    run.trace += [f"[{label}] {t}" if label else t for t in trace]
    run.faults.update(faults)
    run.probes.update(probes)
    run.states |= states
    run.ops.update(ops)
    run.simtime += simtime
    if out[0] == "violation":
        raise Violation(out[1], out[2])
    if out[0] == "budget":
        raise SimBudget(out[1])
    if out[0] == "harness":
        raise HarnessError(f"{label}: {out[1]}")
    return out[1]
