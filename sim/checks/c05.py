"""C05: the table of cross_validation does not depend on how its work is scheduled, and is what it claims to be."""
from __future__ import annotations
import torch

from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..cv import Case, chooser, gen_case, shrink_case
from ..pool import PoolConfig
from ..world import World

ID = "C05"
QUICK_RUNS = 520
MIN_RUNS = 40
LEVEL = "exploration"
TECHNIQUE = "seeded worker schedules over virtual process pools, checked against other schedules and an independent recomputation from recorded folds"
LEVEL_NOTE = (
    "Sampled configurations and schedules. The table is compared between sequential execution and 1-3 schedules with 1-6 workers; folds are recorded by "
    "the models that are trained; for MML the table is recomputed fold by fold. Scheduling points are optimizer steps, task boundaries and idle workers."
)
RULE = (
    "One case is a model, algorithm, grid, number of folds and data set with 1-3 parallel executions under different numbers of workers and schedules, and "
    "one sequential one, all after the same set_seed. Non-trivial: at least two workers took turns."
)
STATE_MEASURE = "orders in which tasks finished on a given number of workers"
REAL_COMPONENTS = ["irtorch.utils.cross_validation and everything it calls: fitting, scoring, evaluation", "pickling of jobs and results"]
SIM_COMPONENTS = ["process pools, their workers and the schedule of their progress", "number of CPUs", "start method", "random state of each worker"]
ASSUMPTIONS = ["tensors sent to a worker share memory with the caller, everything else is copied", "a spawned worker starts with fresh random generators"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    runs = []
    for _ in range(r.choice([1, 1, 2] if tier == "quick" else [2, 3, 4])):
        runs.append({"cores": r.choice([None, None, 1, 2, 3, 6]), "cpus": r.choice([1, 2, 4, 8]), "sticky": r.choice([0.0, 0.5, 0.9])})
    return {"seed": seed, "case": gen_case(r, tier), "runs": runs, "order": r.random() < 0.5}


def shrinks(plan):
    for i in range(len(plan["runs"])):
        if len(plan["runs"]) > 1:
            yield {**plan, "runs": plan["runs"][:i] + plan["runs"][i + 1:]}
    yield from shrink_case(plan, lambda c: {**plan, "case": c})


def nontrivial(run: Run) -> bool:
    return run.probes["interleaved"] > 0


def execute(run: Run) -> None:
    plan = run.plan
    w = World(run)
    w.clock = lambda: 1000.0 + run.simtime
    with w:
        case = Case(run, plan["case"])
        jobs = [("sequential", False, {"cores": None, "cpus": 4, "sticky": 0})] + [(f"parallel {i}", True, x) for i, x in enumerate(plan["runs"])]
        if plan["order"]:
            jobs = jobs[1:] + jobs[:1]
        want = None
        failed = None
        for label, parallel, x in jobs:
            threads = torch.get_num_threads()
            cfg = PoolConfig(w, x["cpus"], choose=chooser(run, x["sticky"]))
            result, e = run.attempt(case.call, w, cfg, parallel, x["cores"])
            if e is not None and not numeric_failure(e):
                raise Violation("unexpected-exception", f"cross_validation, {label}, raised {describe(e)}")
            if failed not in (None, e is not None):
                raise Violation("different-outcome", f"cross_validation, {label}, {'raised ' + describe(e) if e else 'succeeded'}, unlike {first}")
            if e is not None:
                failed, first = True, label
                run.probe("diverged")
                case.check_caller(cfg, threads, label)
                continue
            run.ev(label, cfg.order)
            scores = case.table(result, label)
            case.check_training(label)
            if parallel:
                run.state(cfg.max_workers_seen, cfg.order)
                if cfg.max_workers_seen > 1 and cfg.task_counter > 1:
                    run.probe("interleaved")
                run.probe("parallel" if cfg.created else "no-pool")
            if want is None:
                want, first, failed = scores, label, False
                if case.c["algorithm"] == "MML" and case.c["theta"] == "EAP":
                    with torch.random.fork_rng():
                        ref, e = run.attempt(case.reference)
                    if e is None:
                        case.compare(scores, ref, f"{label}, against the recomputation from its folds", 1e-3)
                        run.probe("recomputed")
                    else:
                        run.ev("reference", describe(e))
            else:
                case.compare(scores, want, f"{label}, against {first}")
            case.check_caller(cfg, threads, label)
            run.probe("tables")
