"""C06: cross_validation survives failures of its workers and leaves everything of its caller alone."""
from __future__ import annotations
import random

import torch

from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..cv import Case, chooser, gen_case, shrink_case
from ..pool import PoolConfig
from ..world import World

ID = "C06"
QUICK_RUNS = 300
MIN_RUNS = 40
LEVEL = "exploration"
TECHNIQUE = "seeded worker deaths, worker errors, failures to start workers, interrupts and clock jumps over virtual process pools"
LEVEL_NOTE = (
    "Sampled points of failure: any task, any optimizer step within it. A killed worker is modelled as the library documents it: an executor reports a "
    "broken pool, a Pool never returns the task (reported as non-termination)."
)
RULE = (
    "One case is a cross-validation with 1-2 failures: workers that cannot be started, a task that fails or whose worker is killed at its k-th optimizer "
    "step, an error at every optimizer step from some point on, an interrupt of the caller, jumps of the clock; followed by the same call without failures. "
    "Non-trivial: a failure fired."
)
STATE_MEASURE = "(kind of failure, task, outcome) triples"
REAL_COMPONENTS = ["irtorch.utils.cross_validation and everything it calls", "irtorch.timer", "pickling of jobs and results"]
SIM_COMPONENTS = ["process pools, their workers, their failures and the schedule", "clock", "number of CPUs", "start method", "random state of each worker"]
ASSUMPTIONS = ["tensors sent to a worker share memory with the caller", "a killed worker breaks a ProcessPoolExecutor and stalls a multiprocessing.Pool"]


class Boom(RuntimeError):
    """The failure that persists."""


class Ctrl(KeyboardInterrupt):
    pass


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    case = gen_case(r, tier)
    combos = 1
    for _, v in case["grid"]:
        combos *= len(v)
    kind = r.choice(["task", "task", "task", "killed", "killed", "init", "init", "persistent", "persistent", "interrupt", "interrupt", "clock"])
    parallel = kind in ("task", "killed", "init") or r.random() < 0.5
    step = r.choice([None, 0, 0, 1, 2, r.randint(0, 12)])
    faults = []
    if kind in ("task", "killed"):
        for t in r.sample(range(combos), min(combos, r.choice([1, 1, 2]))):
            faults.append({"task": t, "step": step, "kind": "killed" if kind == "killed" else r.choice(["oserror", "oom", "memory"])})
    return {
        "seed": seed, "case": case, "kind": kind, "parallel": parallel, "faults": faults, "init": r.choice(["oserror", "memory"]),
        "at": r.randint(0, 15), "cores": r.choice([None, None, 1, 2, 3]), "cpus": r.choice([1, 2, 4]), "sticky": r.choice([0.0, 0.5, 0.9]),
        "clock": r.choice([None, "back", "forward", "jump"]) if kind != "clock" else r.choice(["back", "forward", "jump", "stuck"]),
        "wait": r.random() < 0.5, "threads": r.choice([1, 1, 2]),
    }


def shrinks(plan):
    for i in range(len(plan["faults"])):
        if len(plan["faults"]) > 1:
            yield {**plan, "faults": plan["faults"][:i] + plan["faults"][i + 1:]}
    if plan["clock"] and plan["kind"] != "clock":
        yield {**plan, "clock": None}
    if plan["threads"] > 1:
        yield {**plan, "threads": 1}
    if plan["at"] > 0:
        yield {**plan, "at": 0}
    yield from shrink_case(plan, lambda c: {**plan, "case": c})


def nontrivial(run: Run) -> bool:
    return bool(run.faults)


def clock(run: Run, kind: str | None):
    r = random.Random(f"clock/{run.plan['seed']}")
    now = [1.7e9]

    def read():
        if kind in ("back", "forward", "jump"):
            run.fault("clock-" + kind)
        if kind == "back":
            now[0] -= r.choice([1, 3600, 86400 * 400])
        elif kind == "forward":
            now[0] += r.choice([1, 3600, 86400 * 3000])
        elif kind == "jump":
            now[0] = r.choice([0.0, -5.0, 1.7e9, 4e9])
        elif kind == "stuck":
            run.fault("clock-stuck")
        else:
            now[0] = 1.7e9 + run.simtime
        return now[0]

    return read


def execute(run: Run) -> None:
    plan = run.plan
    w = World(run)
    kind = plan["kind"]
    torch.set_num_threads(plan["threads"])
    threads = torch.get_num_threads()
    try:
        with w:
            case = Case(run, plan["case"])
            w.clock = clock(run, None)
            cfg = PoolConfig(w, plan["cpus"])
            want, e = run.attempt(case.call, w, cfg, False, None)
            if e is not None:
                if not numeric_failure(e):
                    raise Violation("unexpected-exception", f"cross_validation without failures raised {describe(e)}")
                run.probe("diverged")
                return
            case.check_caller(cfg, threads, "without failures")
            want = case.table(want, "without failures")
            failing(run, w, case, want, threads)
            # the same call once the trouble is over
            w.clock = clock(run, None)
            cfg = PoolConfig(w, plan["cpus"], choose=chooser(run, plan["sticky"]))
            got = run.call("cross_validation after the failure", case.call, w, cfg, plan["parallel"], plan["cores"])
            case.compare(case.table(got, "after the failure"), want, "after the failure")
            case.check_caller(cfg, threads, "after the failure")
    finally:
        torch.set_num_threads(1)


def failing(run: Run, w: World, case: Case, want, threads: int) -> None:
    plan, kind = run.plan, run.plan["kind"]
    cfg = PoolConfig(
        w, plan["cpus"], init_errors=1 if kind == "init" else 0, init_kind=plan["init"], task_faults=[dict(f) for f in plan["faults"]],
        choose=chooser(run, plan["sticky"]),
    )
    w.clock = clock(run, plan["clock"])
    steps = [0]

    def hook(_):
        steps[0] += 1
        if steps[0] > plan["at"]:
            if kind == "persistent":
                run.fault("every-step-fails")
                raise Boom(f"simulated failure of the {plan['at']}-th step")
            if w.proc is w.main or not plan["parallel"]:
                w.step_hooks.remove(hook)
                run.fault("interrupt")
                raise Ctrl()

    if kind == "interrupt" and plan["parallel"] and plan["wait"]:
        cfg.parent_interrupt = True
    elif kind in ("persistent", "interrupt"):
        w.step_hooks.append(hook)
    before = sum(run.faults.values())
    try:
        got, e = run.attempt(case.call, w, cfg, plan["parallel"], plan["cores"])
    finally:
        if hook in w.step_hooks:
            w.step_hooks.remove(hook)
    fired = sum(run.faults.values()) > before
    label = f"{kind} failure"
    run.ev(label, "raised" if e is not None else "returned", type(e).__name__ if e else "")
    run.state(kind, [f["task"] for f in plan["faults"]], type(e).__name__ if e else "table")
    run.probe("outcome-" + ("error" if e is not None else "table"))
    case.check_caller(cfg, threads, label)
    if e is None:
        if kind == "persistent" and run.faults["every-step-fails"]:
            raise Violation("hidden-failure", "every optimizer step failed, but a table was returned")
        if run.faults["interrupt"] or run.faults["parent-interrupt"]:
            raise Violation("hidden-failure", "the caller was interrupted, but a table was returned")
        scores = case.table(got, label)
        case.compare(scores, want, label)
        return
    if kind in ("task", "killed", "init", "clock") or not fired:
        raise Violation("not-survived", f"{label}: cross_validation raised {describe(e)}")
    if kind == "persistent" and not isinstance(e, Boom):
        raise Violation("wrong-error", f"{label}: raised {describe(e)} instead of the error of the training step")
    if kind == "interrupt" and not isinstance(e, KeyboardInterrupt):
        raise Violation("wrong-error", f"{label}: raised {describe(e)} instead of the interrupt")
