"""Run context, violations, plans, shrinking.

One plan (a JSON object generated from one integer seed) decides everything that happens in a run: the workload, every
fault and every scheduling choice. ``execute(plan)`` is a pure function of the plan and of the code under test.
"""
from __future__ import annotations
import hashlib
import json
import os
import random
import traceback
from collections import Counter

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """A property does not hold in this run."""

    def __init__(self, cls: str, message: str):
        super().__init__(f"{cls}: {message}")
        self.cls = cls
        self.message = message


class HarnessError(Exception):
    """The simulator itself went wrong. Never reported as a violation."""


class SimCrash(BaseException):
    """The simulated process was killed. Nothing of it may run afterwards."""


class SimBudget(BaseException):
    """The code under test exceeded the step budget of the run."""


class Run:
    def __init__(self, check: str, plan: dict):
        self.check = check
        self.plan = plan
        self.trace: list[str] = []
        self.faults: Counter = Counter()
        self.probes: Counter = Counter()
        self.states: set[str] = set()
        self.ops: Counter = Counter()
        self.simtime = 0.0
        self.choices = random.Random(f"choices/{plan.get('seed')}")

    # -- recording -------------------------------------------------------------------------------------------------
    def ev(self, *parts) -> None:
        self.trace.append(" ".join(str(p) for p in parts))

    def fault(self, kind: str) -> None:
        self.faults[kind] += 1
        self.ev("FAULT", kind)

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] += n

    def state(self, *parts) -> None:
        self.states.add("|".join(str(p) for p in parts))

    def tick(self, seconds: float) -> None:
        self.simtime += seconds

    def digest(self) -> str:
        return hashlib.sha256("\n".join(self.trace).encode()).hexdigest()[:16]

    # -- calling the code under test -------------------------------------------------------------------------------
    def call(self, label: str, fn, *args, **kwargs):
        """Call irtorch where it has no reason to fail: any exception is a violation."""
        try:
            return fn(*args, **kwargs)
        except (Violation, HarnessError, SimCrash, SimBudget):
            raise
        except BaseException as e:  # noqa: BLE001
            raise Violation("unexpected-exception", f"{label} raised {describe(e)}") from e

    def attempt(self, fn, *args, **kwargs):
        """Call irtorch where it may fail. Returns (value, None) or (None, exception). Crashes pass through."""
        try:
            return fn(*args, **kwargs), None
        except (Violation, HarnessError, SimCrash, SimBudget):
            raise
        except BaseException as e:  # noqa: BLE001
            return None, e

    def check_that(self, condition, cls: str, message: str) -> None:
        if not condition:
            raise Violation(cls, message)


def describe(e: BaseException) -> str:
    frames = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(frames):
        if "/irtorch/" in f.filename:
            where = f" at {f.filename.split('/irtorch/')[-1]}:{f.name}"
            break
    return f"{type(e).__name__}: {str(e)[:300]}{where}"


def jdump(obj) -> str:
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


# -- shrinking -----------------------------------------------------------------------------------------------------
def generic_shrinks(plan: dict, lists: tuple[str, ...], ints: dict[str, int], drop: tuple[str, ...] = ()):
    """Candidates that are simpler than the plan: fewer list elements, smaller integers, optional keys set to None."""
    for key in lists:
        seq = plan.get(key) or []
        n = len(seq)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                cand = seq[:start] + seq[start + size:]
                if len(cand) < n:
                    yield {**plan, key: cand}
            size //= 2
    for key in drop:
        if plan.get(key) is not None:
            yield {**plan, key: None}
    for key, low in ints.items():
        v = plan.get(key)
        if isinstance(v, int) and not isinstance(v, bool) and v > low:
            yield {**plan, key: low}
            if (v + low) // 2 not in (v, low):
                yield {**plan, key: (v + low) // 2}
            if v - 1 != low:
                yield {**plan, key: v - 1}
