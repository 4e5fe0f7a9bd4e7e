"""C18: models used side by side do not influence each other."""
from __future__ import annotations
import os
import random

import numpy as np
import torch

from .. import ops, zoo
from ..common import disk, numeric_failure, rng_for
from ..core import HarnessError, Run, SimBudget, SimCrash, Violation, describe
from ..cv import chooser
from ..fork import elsewhere
from ..torchops import Injected, Ops, is_injected
from ..world import Proc, Scheduler

ID = "C18"
QUICK_RUNS = 260
MIN_RUNS = 40
LEVEL = "exploration"
TECHNIQUE = "seeded interleavings of programs on independent models at tensor operations and optimizer steps, with one interrupted, against each program alone"
LEVEL_NOTE = (
    "Sampled programs of 2-5 steps (fit, score, evaluate, rescale, save, load, change) on 2-3 models of any types, optionally sharing one data tensor. Every program has "
    "its own stream of random numbers. Each also runs alone in a fork of a clean process; states and answers are compared to 1e-3."
)
RULE = (
    "One case is 2-3 programs over independent models and a seeded schedule that switches between them at tensor operations and optimizer steps; one may be interrupted. "
    "Non-trivial: at least 4 switches between different programs."
)
STATE_MEASURE = "(step of one program, step of another) pairs between which a switch happened"
REAL_COMPONENTS = ["irtorch models, algorithms, evaluator, scales, save and load"]
SIM_COMPONENTS = ["thread scheduling", "disk", "random number streams", "failing allocations and interrupts at torch operations"]
ASSUMPTIONS = ["the random number stream of a program is its own; in one process without threads that corresponds to setting the seed for each part"]
STEPS = ["fit", "ask", "ask", "ask", "scale", "detach", "save", "load", "parameters"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    same_type = r.random() < 0.4
    first = ops.gen_fitted(r)
    race = r.random() < 0.3              # several trainings at the same time
    programs = []
    for i in range(r.choice([2, 2, 3])):
        f = {**first, "seed": r.randint(0, 10**6)} if same_type and i else first if not i else ops.gen_fitted(r)
        if same_type and i and r.random() < 0.5:
            f = {**f, "algorithm": r.choice(["JML", "MML", "AE", "VAE"])}
        if race and r.random() < 0.8:
            f = {**f, "algorithm": first["algorithm"]}
        f = {**f, "batch": r.choice([None, 4, 5]), "epochs": r.choice([2, 3, 5]) if race else f["epochs"], "interval": r.choice([2, 3, 4]), "updates": r.choice([1, 3, 50])}
        steps = [{"do": "build"}]
        for _ in range(r.choice([0, 1] if race else [1, 2, 3] if tier == "quick" else [3, 5, 7])):
            s = {"do": r.choice(STEPS), "seed": r.randint(0, 10**6)}
            if s["do"] == "ask":
                s["q"] = r.choice(list(ops.QUESTIONS) + ["latent_scores"] * 4 + ["sum_score_probabilities", "approximate_latent_density"])
            elif s["do"] == "fit":
                s["algorithm"] = f["algorithm"] if race else r.choice(["JML", "MML", "AE", "VAE"])
            steps.append(s)
        programs.append({"fitted": f, "steps": steps, "fault": None})
    if r.random() < 0.4:
        p = r.choice(programs)
        p["fault"] = {"step": r.randrange(len(p["steps"])), "at": int(10 ** r.uniform(0, 3)), "kind": r.choice(Injected.KINDS)}
    return {"seed": seed, "programs": programs, "every": r.choice([1, 7, 40, 200]), "sticky": r.choice([0.0, 0.5, 0.9]), "share": r.random() < 0.4}


def shrinks(plan):
    for i, p in enumerate(plan["programs"]):
        def put(new):
            return {**plan, "programs": plan["programs"][:i] + new + plan["programs"][i + 1:]}
        if len(plan["programs"]) > 2:
            yield put([])
        if p["fault"]:
            yield put([{**p, "fault": None}])
        for k in range(1, len(p["steps"])):
            if not p["fault"]:
                yield put([{**p, "steps": p["steps"][:k] + p["steps"][k + 1:]}])
        for f in ops.shrink_fitted(p["fitted"]):
            yield put([{**p, "fitted": f}])
        for key, simple in (("batch", None), ("interval", 3), ("updates", 50)):
            if p["fitted"][key] != simple:
                yield put([{**p, "fitted": {**p["fitted"], key: simple}}])
    for key, simple in (("share", False), ("every", 200), ("sticky", 0.0)):
        if plan[key] != simple:
            yield {**plan, key: simple}


def nontrivial(run: Run) -> bool:
    return run.probes["switches"] >= 4


class Program:
    """What one user does with one model."""

    def __init__(self, run: Run, w, i: int, shared, at_op):
        self.run, self.w, self.i, self.shared, self.at_op = run, w, i, shared, at_op
        self.p = run.plan["programs"][i]
        self.model = self.c = None
        self.out: list = []
        self.now = "start"

    def main(self):
        torch.manual_seed(self.i)
        np.random.seed(self.i)
        random.seed(self.i)
        for k, step in enumerate(self.p["steps"]):
            fault = self.p["fault"] if self.p["fault"] and self.p["fault"]["step"] == k else None
            self.now = step.get("q", step["do"])
            with Ops(fault["at"] if fault else None, fault["kind"] if fault else "kbi", self.run, hook=self.at_op) as m:
                try:
                    v = ("answer", self.do(step))
                except (SimCrash, SimBudget, HarnessError, Violation):
                    raise
                except BaseException as e:  # noqa: BLE001
                    if m.error is not None and is_injected(e, m.error):
                        v = ("interrupted", type(e).__name__)
                    elif isinstance(e, NotImplementedError) or numeric_failure(e) or m.error is not None:
                        v = ("refused", type(e).__name__)
                    else:
                        v = ("failed", describe(e))
            self.out.append((self.now, v))
            if step["do"] == "build" and v[0] != "answer":
                break
        if self.model is not None:
            self.out.append(("final state", ("answer", [t.clone() for _, t in sorted(zoo.param_snapshot(self.model).items())])))

    def do(self, step):
        f = self.p["fitted"]
        s = step.get("seed")
        if step["do"] == "build":
            model = self.build(f)
            self.model = model
            return self.fitted()
        m = self.model
        if step["do"] == "fit":
            data = self.shared if self.shared is not None and zoo.categories_of(f["model"]) == self.shared_categories() else \
                zoo.make_data(11, zoo.categories_of(f["model"]), s, 0.1 if f["missing"] else 0.0, f["missing"] or "nan")
            self.fit(m, data, step["algorithm"], 2)
            return self.fitted()
        if step["do"] == "ask":
            return [t.clone() for t in ops.flatten(ops.ask(step["q"], self.c, s))]
        if step["do"] == "scale":
            names = zoo.scales_for(m, [random.Random(s).choice(zoo.SCALES)])
            for n in names:
                m.add_scale_transformation(self.scale(n, s))
            return []
        if step["do"] == "detach":
            m.detach_scale_transformations()
        elif step["do"] == "save":
            m.save_model(os.path.join(self.w.fs.root, f"m{self.i}.pt"))
        elif step["do"] == "load":
            path = os.path.join(self.w.fs.root, f"m{self.i}.pt")
            if os.path.exists(path):
                m.load_model(path)
        elif step["do"] == "parameters":
            zoo.randomise(m, s, 0.2)
        return []

    def fit(self, model, data, algorithm, epochs, **over):
        f = self.p["fitted"]
        if algorithm != "MML":
            over["batch_size"] = f["batch"]
        if algorithm in ("AE", "VAE"):
            over["evaluation_interval_size"] = f["interval"]
        over["learning_rate_updates_before_stopping"] = f["updates"]
        if "start_thetas" in over and len(over["start_thetas"]) != len(data):
            del over["start_thetas"]
        model.fit(data, zoo.make_algorithm(algorithm), **zoo.fit_kwargs(algorithm, epochs, **over))

    def fitted(self):
        a = self.model.algorithm
        t = a.training_theta_scores
        return [torch.tensor([float(x) for x in a.training_history["train_loss"]])] + ([] if t is None else [t.detach().clone()])

    def scale(self, name, s):
        return zoo.make_scale(name, self.model, s)

    def shared_categories(self):
        return zoo.categories_of(self.run.plan["programs"][0]["fitted"]["model"])

    def build(self, f):
        model = zoo.make_model(f["model"], f["latent"], f["seed"])
        data = self.shared if self.shared is not None and zoo.categories_of(f["model"]) == self.shared_categories() else \
            zoo.make_data(f["rows"], zoo.categories_of(f["model"]), f["seed"], 0.12 if f["missing"] else 0.0, f["missing"] or "nan")
        self.model = model
        self.c = ops.context(f, model, data)
        self.fit(model, data, f["algorithm"], f["epochs"], **ops.fit_options(f))
        for s in zoo.scales_for(model, f["scales"]):
            model.add_scale_transformation(zoo.make_scale(s, model, f["seed"]))
        return model


def shared_data(plan):
    if not plan["share"]:
        return None
    f = plan["programs"][0]["fitted"]
    return zoo.make_data(13, zoo.categories_of(f["model"]), plan["seed"], 0.12 if f["missing"] else 0.0, f["missing"] or "nan")


def alone(run: Run, i: int) -> list:
    with disk(run) as w:
        sched = Scheduler(w, lambda names: 0)
        w.sched = None
        p = Program(run, w, i, shared_data(run.plan), None)
        proc = Proc(f"user{i}")
        proc.isolated = True
        t = sched.spawn(f"user{i}", p.main, proc)
        sched.run()
        if t.error is not None:
            raise t.error
        return p.out


def together(run: Run) -> list:
    plan = run.plan
    with disk(run) as w:
        sched = Scheduler(w, chooser(run, plan["sticky"]))
        sched.max_switches = 400_000
        w.sched = None                    # disk operations are no switching points here
        programs: list[Program] = []
        last = [None]

        def maybe_switch(force=False):
            t = sched.current
            if t is None:
                return
            counts[0] += 1
            if not force and counts[0] % plan["every"]:
                return
            if torch._C._functorch.peek_interpreter_stack() is not None:
                return
            here = int(t.name[4:])
            sched.point()
            if last[0] is not None and last[0] != here:
                run.probe("switches")
                run.state(programs[here].now, programs[last[0]].now)
            last[0] = here

        counts = [0]
        shared = shared_data(plan)
        for i in range(len(plan["programs"])):
            proc = Proc(f"user{i}")
            proc.isolated = True
            programs.append(Program(run, w, i, shared, lambda func: maybe_switch()))
            sched.spawn(f"user{i}", programs[-1].main, proc)
        w.step_hooks.append(lambda *a: maybe_switch(True))
        tasks = list(sched.tasks)
        sched.run()
        for t in tasks:
            if t.error is not None:
                raise t.error
        run.ev("switches", sched.switches)
        return [p.out for p in programs]


def execute(run: Run) -> None:
    plan = run.plan
    got = elsewhere(run, together, "together")
    for i, p in enumerate(plan["programs"]):
        want = elsewhere(run, lambda r, i=i: alone(r, i), f"alone {i}")
        a, b = got[i], want
        run.ev(i, [(n, v[0]) for n, v in b])
        for k in range(max(len(a), len(b))):
            if k >= len(a) or k >= len(b):
                raise Violation("different-outcome", f"program {i}: {len(a)} steps together with others, {len(b)} alone")
            (name, x), (_, y) = a[k], b[k]
            label = f"program {i}, step {k} ({name})"
            if y[0] == "failed":
                raise Violation("unexpected-exception", f"{label}, alone: {y[1]}")
            if x[0] != y[0] or x[0] in ("interrupted", "refused") and x[1] != y[1]:
                raise Violation("different-outcome", f"{label}: {x[0]} {x[1] if x[0] != 'answer' else ''} together with others, {y[0]} {y[1] if y[0] != 'answer' else ''} alone")
            if x[0] == "answer":
                bad = ops.differs(x[1], y[1])
                if bad is not None:
                    raise Violation("influenced", f"{label}: {bad} (alone)")
                run.probe("compared")
