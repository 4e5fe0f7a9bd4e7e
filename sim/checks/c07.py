"""C07: fit_multiple_models_cpu gives every model its own, independent result."""
from __future__ import annotations
import copy

import torch

from .. import zoo
from ..common import rng_for
from ..core import Run, Violation, describe
from ..cv import chooser, equal
from ..pool import PoolConfig
from ..world import World

ID = "C07"
QUICK_RUNS = 600
MIN_RUNS = 50
LEVEL = "exploration"
TECHNIQUE = "seeded worker schedules, worker failures and deaths over virtual process pools, checked against models fitted alone"
LEVEL_NOTE = (
    "Sampled lists of 1-5 models and schedules. Algorithms without random numbers are compared with a fit outside the pool; all with other schedules of the "
    "same call. Tensors shipped to a worker share memory with the caller, as they do with torch.multiprocessing."
)
RULE = (
    "One case is a list of models of various types (instances may repeat), an algorithm, a data set and 1-3 calls with different numbers of workers and "
    "schedules, then possibly one with a failing or killed worker. Non-trivial: two workers took turns or a failure fired."
)
STATE_MEASURE = "orders in which jobs finished, and (failure, outcome) pairs"
REAL_COMPONENTS = ["irtorch.utils.fit_multiple_models_cpu and everything it calls", "pickling of jobs and results"]
SIM_COMPONENTS = ["process pools, workers, failures and schedule", "number of CPUs", "random state of each worker"]
ASSUMPTIONS = ["tensors sent to a worker share memory with the caller", "a killed worker breaks a ProcessPoolExecutor and stalls a multiprocessing.Pool"]
GROUPS = [["1pl", "2pl", "3pl"], ["gpc", "grm", "mononn", "monopoly", "monobspline", "surprisal", "mononn-items"], ["nominal", "nested", "nested-bspline", "nominal-mc"], ["mix"]]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    group = r.choice([0, 0, 1, 1, 1, 2, 3])
    names = [r.choice(GROUPS[group]) for _ in range(r.choice([1, 2, 2, 3, 4] if tier == "quick" else [2, 3, 4, 5]))]
    models = [[n, r.choice([1, 1, 2]), r.randint(0, 99)] for n in names]
    repeat = [r.randrange(len(models))] if len(models) > 1 and r.random() < 0.3 else []
    algorithm = r.choice(["MML", "MML", "JML", "AE", "VAE"])
    failure = None
    if r.random() < 0.5:
        failure = {"kind": r.choice(["oom", "memory", "oserror", "killed", "killed", "init", "interrupt"]), "task": r.randrange(len(models)), "step": r.choice([None, 0, 1, 3])}
    return {
        "seed": seed, "models": models, "repeat": repeat, "algorithm": algorithm, "rows": r.choice([8, 13, 20]), "epochs": r.choice([1, 2, 4]), "batch": r.choice([None, 5, 9]),
        "missing": r.choice([None, "nan", "-1"]), "call_seed": r.randint(0, 10**6), "failure": failure, "threads": r.choice([1, 1, 2]), "fitted": r.random() < 0.2,
        "runs": [{"cores": r.choice([None, 1, 2, 4]), "cpus": r.choice([1, 2, 8]), "sticky": r.choice([0.0, 0.5, 0.9])} for _ in range(r.choice([1, 2] if tier == "quick" else [2, 3, 4]))],
    }


def shrinks(plan):
    if plan["failure"]:
        yield {**plan, "failure": None}
    for i in range(len(plan["runs"])):
        if len(plan["runs"]) > 1:
            yield {**plan, "runs": plan["runs"][:i] + plan["runs"][i + 1:]}
    if plan["repeat"]:
        yield {**plan, "repeat": []}
    elif not plan["failure"]:
        for i in range(len(plan["models"])):
            if len(plan["models"]) > 1:
                yield {**plan, "models": plan["models"][:i] + plan["models"][i + 1:]}
    for key, simple in (("missing", None), ("epochs", 1), ("rows", 8), ("batch", None), ("threads", 1), ("fitted", False)):
        if plan[key] != simple:
            yield {**plan, key: simple}


def nontrivial(run: Run) -> bool:
    return bool(run.faults) or run.probes["interleaved"] > 0


class Setup:
    def __init__(self, run: Run):
        plan = run.plan
        self.run, self.plan = run, plan
        self.models = [zoo.make_model(*m) for m in plan["models"]]
        group = plan["models"][0][0]
        self.data = zoo.make_data(plan["rows"], zoo.categories_of(group), plan["seed"], 0.15 if plan["missing"] else 0.0, plan["missing"] or "nan")
        if plan["fitted"]:
            for m in self.models:
                m.fit(zoo.make_data(9, zoo.categories_of(group), 77), zoo.make_algorithm("MML"), **zoo.fit_kwargs("MML", 1))
        self.models += [self.models[i] for i in plan["repeat"]]
        self.algorithm = zoo.make_algorithm(plan["algorithm"])
        over = {} if plan["algorithm"] == "MML" or plan["batch"] is None else {"batch_size": plan["batch"]}
        self.kwargs = {k: v for k, v in zoo.fit_kwargs(plan["algorithm"], plan["epochs"], **over).items() if k != "device"}
        self.before = [zoo.param_snapshot(m) for m in self.models]
        self.trainable = [[p.requires_grad for p in m.parameters()] for m in self.models]
        self.algorithms = [m.algorithm for m in self.models]
        self.algorithm_before = {k: copy.deepcopy(v) for k, v in vars(self.algorithm).items()}
        self.guard = zoo.Guard(data=self.data)
        self.listed = list(self.models)

    def call(self, w, cfg, cores):
        from irtorch.utils import fit_multiple_models_cpu, set_seed
        w.pool = cfg
        try:
            set_seed(self.plan["call_seed"])
            return fit_multiple_models_cpu(self.models, self.data, cores_to_use=cores, algorithm=self.algorithm, **self.kwargs)
        finally:
            w.pool = None

    def caller(self, cfg, threads, label):
        if len(self.models) != len(self.listed) or any(a is not b for a, b in zip(self.models, self.listed)):
            raise Violation("arguments-changed", f"{label}: the list of models was changed")
        for i, m in enumerate(self.models):
            bad = zoo.same_state(zoo.param_snapshot(m), self.before[i])
            if bad is not None:
                raise Violation("model-changed", f"{label}: {bad} of supplied model {i} changed")
            if [p.requires_grad for p in m.parameters()] != self.trainable[i]:
                raise Violation("model-changed", f"{label}: parameters of supplied model {i} are no longer trainable")
            if m.algorithm is not self.algorithms[i]:
                raise Violation("model-changed", f"{label}: supplied model {i} got another algorithm")
        bad = self.guard.changed()
        if bad is not None:
            raise Violation("data-changed", f"{label}: {bad}")
        for k, v in self.algorithm_before.items():
            if not equal(v, vars(self.algorithm).get(k)):
                raise Violation("algorithm-changed", f"{label}: {k} of the supplied algorithm changed")
        if torch.get_num_threads() != threads:
            raise Violation("threads-changed", f"{label}: {torch.get_num_threads()} threads, {threads} before")
        if cfg.start_method != "fork":
            raise Violation("start-method-changed", f"{label}: the start method was changed")
        if cfg.open_pools:
            raise Violation("workers-left", f"{label}: worker processes were left behind")

    def alone(self) -> list:
        out = []
        for m in self.models:
            c = copy.deepcopy(m)
            c.fit(self.data.clone(), zoo.make_algorithm(self.plan["algorithm"]), device="cpu", **self.kwargs)
            out.append(c)
        return out


def compare(got, want, label, exact=False) -> None:
    for i, (a, b) in enumerate(zip(got, want)):
        bad = zoo.same_state(zoo.param_snapshot(a), zoo.param_snapshot(b), exact=exact, rtol=1e-3, atol=1e-4)
        if bad is not None:
            raise Violation("different-result", f"{label}: {bad} of model {i} differs")
        x, y = a.algorithm.training_theta_scores, b.algorithm.training_theta_scores
        if (x is None) != (y is None) or x is not None and not zoo.same_tensor(x, y, rtol=1e-3, atol=1e-3):
            raise Violation("different-result", f"{label}: latent scores of model {i} differ")


def shape(s: Setup, got, label) -> None:
    if not isinstance(got, list) or len(got) != len(s.models):
        raise Violation("wrong-result", f"{label}: {len(got)} results for {len(s.models)} models")
    for i, (a, m) in enumerate(zip(got, s.models)):
        if type(a) is not type(m) or a.latent_variables != m.latent_variables:
            raise Violation("wrong-order", f"{label}: result {i} is a {type(a).__name__}, supplied was a {type(m).__name__}")
        if type(a.algorithm).__name__ != s.plan["algorithm"]:
            raise Violation("not-fitted", f"{label}: result {i} has no fitted algorithm")
        if any(a is b for b in s.models) or any(a is b for b in got[:i]):
            raise Violation("shared-result", f"{label}: result {i} is not an object of its own")
    # results are independent: changing one changes nothing else
    states = [zoo.param_snapshot(a) for a in got]
    for i, a in enumerate(got):
        with torch.no_grad():
            for p in a.parameters():
                p.add_(1.0)
        for j, b in enumerate(got):
            if j > i and zoo.same_state(zoo.param_snapshot(b), states[j]) is not None:
                raise Violation("shared-result", f"{label}: results {i} and {j} share parameters")
    for a, state in zip(got, states):
        a.load_state_dict(state)


def execute(run: Run) -> None:
    plan = run.plan
    torch.set_num_threads(plan["threads"])
    threads = torch.get_num_threads()
    w = World(run)
    try:
        with w:
            s = Setup(run)
            want = None
            for k, x in enumerate(plan["runs"]):
                label = f"call {k}"
                cfg = PoolConfig(w, x["cpus"], choose=chooser(run, x["sticky"]))
                got = run.call(f"fit_multiple_models_cpu, {label},", s.call, w, cfg, x["cores"])
                run.ev(label, cfg.order)
                run.state(cfg.max_workers_seen, cfg.order)
                if cfg.max_workers_seen > 1 and cfg.task_counter > 1:
                    run.probe("interleaved")
                s.caller(cfg, threads, label)
                shape(s, got, label)
                s.caller(cfg, threads, f"{label}, after its results were changed")
                if want is None:
                    want = got
                    if plan["algorithm"] == "MML":
                        compare(got, s.alone(), f"{label}, against models fitted alone")
                        run.probe("compared-alone")
                else:
                    compare(got, want, f"{label}, against call 0")
                run.probe("fits", len(got))
            if plan["failure"]:
                failing(run, w, s, threads, want)
    finally:
        torch.set_num_threads(1)


def failing(run: Run, w, s: Setup, threads, want) -> None:
    f, x = run.plan["failure"], run.plan["runs"][0]
    cfg = PoolConfig(
        w, x["cpus"], init_errors=f["kind"] == "init", choose=chooser(run, x["sticky"]),
        task_faults=[dict(f)] if f["kind"] not in ("init", "interrupt") else [],
    )
    cfg.parent_interrupt = f["kind"] == "interrupt"
    before = sum(run.faults.values())
    got, e = run.attempt(s.call, w, cfg, x["cores"])
    fired = sum(run.faults.values()) > before
    label = f"{f['kind']} failure"
    run.ev(label, "raised" if e is not None else "returned")
    run.state(f["kind"], f["step"], e is None)
    s.caller(cfg, threads, label)
    if e is not None and not fired:
        raise Violation("unexpected-exception", f"{label} that did not fire: raised {describe(e)}")
    if e is None:                       # survived: then the result must be right
        shape(s, got, label)
        compare(got, want, label)
        if f["kind"] == "interrupt":
            raise Violation("hidden-failure", "the caller was interrupted, but the call returned")
    elif f["kind"] == "interrupt" and not isinstance(e, KeyboardInterrupt):
        raise Violation("wrong-error", f"{label}: raised {describe(e)} instead of the interrupt")
    elif f["kind"] not in ("interrupt", "killed") and not (isinstance(e, (OSError, MemoryError, RuntimeError)) and "simulated" in str(e)):
        raise Violation("wrong-error", f"{label}: raised {describe(e)} instead of the error of the worker")
    cfg = PoolConfig(w, x["cpus"], choose=chooser(run, x["sticky"]))
    got = run.call("fit_multiple_models_cpu after the failure", s.call, w, cfg, x["cores"])
    shape(s, got, "after the failure")
    compare(got, want, "after the failure")
    s.caller(cfg, threads, "after the failure")
