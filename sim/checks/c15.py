"""C15: training always ends, at the documented limits and not before."""
from __future__ import annotations
import math
import random

import torch

from irtorch import models as M
from irtorch import rescale as R

from .. import zoo
from ..common import numeric_failure, rng_for
from ..core import Run, SimBudget, Violation, describe, generic_shrinks
from ..train import Script, make
from ..world import World

ID = "C15"
QUICK_RUNS = 900
MIN_RUNS = 100
LEVEL = "exploration"
TECHNIQUE = "fits under seeded scripts that decide every loss the trainer sees; number of steps, evaluations and learning rate reductions compared with what the limits allow"
LEVEL_NOTE = (
    "Sampled scripts for new and used algorithm objects (constant, improving, worsening, oscillating, random walk, NaN and infinite losses, late collapse) for 4 algorithms and 2 trained scales with all limits, up to 120 optimizer steps. "
    "Model evaluation is real, only the value of the loss is replaced; gradients stay real."
)
RULE = (
    "One case is a trainer with its limits (epochs, reductions of the learning rate, patience, evaluation interval, batch size) and a script of losses. "
    "Non-trivial: at least two evaluations were made."
)
STATE_MEASURE = "(trainer, script, limits, steps, reductions) combinations"
REAL_COMPONENTS = ["irtorch JML, MML, AE, VAE, Flow, LinkCommonItems, models", "torch optimizers and schedulers"]
SIM_COMPONENTS = ["values of the losses"]
ASSUMPTIONS = ["the learning rate is reduced by torch's ReduceLROnPlateau"]

SCRIPTS = ("constant", "improving", "worsening", "oscillating", "walk", "nan", "inf", "collapse", "late", "steps")


def loss_of(plan: dict, t: int) -> float:
    """The loss of evaluation (or step) number t."""
    k, p = plan["script"], plan["param"]
    if k == "constant":
        return 5000.0
    if k == "improving":
        return 20000.0 - 120.0 * t
    if k == "worsening":
        return 5000.0 + 200.0 * t
    if k == "oscillating":
        return 5000.0 + (800.0 if t % 2 else 0.0)
    if k == "walk":
        r = random.Random(f"{plan['seed']}/{t // 3}")
        return 5000.0 + r.choice([-2000, -500, 0, 400, 3000]) + 10 * p
    if k == "nan":
        return float("nan") if t >= p else 20000.0 - 120.0 * t
    if k == "inf":
        return float("inf") if t == p else 20000.0 - 120.0 * t
    if k == "collapse":
        return 10.0 if t == p else 20000.0 - 120.0 * t
    if k == "late":
        return 20000.0 - 120.0 * min(t, p)
    return 20000.0 - 600.0 * (t // 4)          # improves at every fourth evaluation


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    trainer = r.choice(["JML", "MML", "AE", "VAE", "JML", "MML", "AE", "VAE", "flow", "link"])
    epochs = r.choice([0, 1, 3, 10, 25, 40] if tier == "quick" else [1, 10, 40, 100])
    return {
        "seed": seed, "trainer": trainer, "model": r.choice(["1pl", "2pl", "gpc", "grm", "nominal", "mononn", "monobspline", "nested"]), "epochs": epochs,
        "batch": r.choice([None, None, 4, 5]) if trainer != "MML" else None, "rows": r.choice([8, 10, 13]), "interval": r.choice([2, 2, 3, 5]), "patience": r.choice([0, 1, 2, 5]),
        "updates": r.choice([1, 2, 3, 50]), "script": r.choice(SCRIPTS), "param": r.randint(0, 20), "bn": r.random() < 0.2, "iw": r.choice([1, 2]),
        "method": r.choice(["spline", "neuralnet"]), "gauss": r.random() < 0.5, "earlier": r.random() < 0.35,
    }


def shrinks(plan):
    yield from generic_shrinks(plan, (), {"epochs": 1, "rows": 8, "param": 0, "updates": 1})
    for key, simple in (("batch", None), ("bn", False), ("earlier", False), ("model", "1pl"), ("script", "constant")):
        if plan[key] != simple:
            yield {**plan, key: simple}


def nontrivial(run: Run) -> bool:
    return run.probes["evaluations"] >= 2


class Target(torch.distributions.Normal):
    def __init__(self, run, count):
        super().__init__(torch.zeros(1), torch.ones(1))
        self.run, self.count = run, count

    def log_prob(self, value):
        out = super().log_prob(value)
        return out - out.detach() - loss_of(self.run.plan, self.count())


class Common(M.TwoParameterLogistic):
    def item_probabilities(self, theta):
        out = super().item_probabilities(theta)
        script = self.__dict__.get("_level")
        if script is None:
            return out
        level = script()
        return out - out.detach() + math.exp(-level) if level == level else out * float("nan")


class Watch:
    """Everything the trainer does that concerns its limits."""

    def __init__(self, run: Run, w: World, most: int):
        self.run, self.w, self.most = run, w, most
        self.steps = 0
        self.paused = False
        self.metrics: list[float] = []
        self.reductions: list[int] = []      # number of steps done when the learning rate was reduced
        self.at: list[int] = []
        w.step_hooks.append(self._step)
        w.plateau = self._plateau

    def _step(self, optimizer):
        if self.paused:
            return
        self.steps += 1
        if self.steps > self.most:
            raise SimBudget(f"more than {self.most} optimizer steps, which is all that the given number of epochs allows")

    def _plateau(self, metric, before, after):
        if self.paused:
            return
        self.metrics.append(metric)
        self.at.append(self.steps)
        if after != before:
            self.reductions.append(self.steps)

    def close(self):
        self.w.step_hooks.remove(self._step)
        self.w.plateau = None


def execute(run: Run) -> None:
    plan = run.plan
    trainer, rows, epochs = plan["trainer"], plan["rows"], plan["epochs"]
    batch = plan["batch"] or rows
    per_epoch = -(-rows // batch)
    if trainer in ("AE", "VAE") and plan["bn"] and rows % batch in (1, 2, 3):
        per_epoch -= 1
    most = epochs * per_epoch
    every = {"JML": per_epoch, "MML": 1}.get(trainer, plan["interval"])
    if epochs * per_epoch > 150:
        epochs = max(1, 150 // per_epoch)
        most = epochs * per_epoch
    with World(run) as w:
        watch = Watch(run, w, most)
        try:
            history = (scale if trainer in ("flow", "link") else fit)(run, w, watch, epochs, per_epoch)
        finally:
            watch.close()
        verdict(run, watch, history, most, every)


def fit(run: Run, w: World, watch: Watch, epochs: int, per_epoch: int):
    plan = run.plan
    a = plan["trainer"]
    model = make(plan["model"], 1, plan["seed"])
    data = zoo.make_data(plan["rows"], zoo.categories_of(plan["model"]), plan["seed"])
    n, items = data.shape
    algorithm = zoo.make_algorithm(a)
    script = Script(run, w)
    rows_now = {}
    script.watch = lambda d, output, mask, reduction, ll: rows_now.update(n=d.shape[0], ll=ll)

    def offset(step):
        ll = rows_now["ll"]
        if a == "JML":
            value = -loss_of(plan, step // per_epoch) / per_epoch
        elif a == "AE":
            value = -loss_of(plan, step) * rows_now["n"]
        elif a == "VAE":
            value = -loss_of(plan, step) / items
        else:
            value = -loss_of(plan, step) / (n * items)
        if value != value:
            run.fault("nan-loss")
        return value - ll.detach()

    script.offset = offset
    kwargs = {"max_epochs": epochs, "learning_rate": 0.01, "learning_rate_updates_before_stopping": plan["updates"], "device": "cpu"}
    if a != "MML":
        kwargs["batch_size"] = plan["batch"]
    if a in ("JML", "MML"):
        kwargs["learning_rate_update_patience"] = plan["patience"]
    if a == "MML":
        kwargs.update(quadrature_points=5, integration_method="gauss_hermite" if plan["gauss"] else "quasi_mc")
    if a in ("AE", "VAE"):
        kwargs.update(hidden_layers_encoder=[6], evaluation_interval_size=plan["interval"], batch_normalization_encoder=plan["bn"])
    if a == "VAE":
        kwargs["iw_samples"] = plan["iw"]
    if plan["earlier"]:                       # the algorithm has already trained, until its own limits
        watch.paused = True
        before = {**kwargs, "max_epochs": 12, "learning_rate": 0.4, "learning_rate_updates_before_stopping": 1}
        before.update({"learning_rate_update_patience": 0} if a in ("JML", "MML") else {"evaluation_interval_size": 2})
        _, e = run.attempt(make(plan["model"], 1, plan["seed"]).fit, train_data=data, algorithm=algorithm, **before)
        if e is not None and not numeric_failure(e):
            raise Violation("unexpected-exception", f"an earlier fit: {describe(e)}")
        watch.paused = False
        run.probe("earlier fits")
    script.attach(model, algorithm)
    try:
        run.call("fit", model.fit, train_data=data, algorithm=algorithm, **kwargs)
    finally:
        script.detach()
    if model.algorithm is not algorithm:
        raise Violation("not-fitted", "the fit ended without fitting")
    return list(algorithm.training_history["train_loss"])


def scale(run: Run, w: World, watch: Watch, epochs: int, per_epoch: int):
    plan = run.plan
    theta = torch.randn(plan["rows"], 1, generator=zoo.generator(plan["seed"]))
    common = {"batch_size": plan["batch"], "learning_rate": 0.01, "max_epochs": epochs, "device": "cpu",
              "learning_rate_updates_before_stopping": plan["updates"], "evaluation_interval_size": plan["interval"]}

    def level():
        if loss_of(plan, watch.steps) != loss_of(plan, watch.steps):
            run.fault("nan-loss")
        return loss_of(plan, watch.steps) / 2000.0

    if plan["trainer"] == "flow":
        s = R.Flow(1)
        run.call("Flow.fit", s.fit, theta, distribution=Target(run, lambda: watch.steps), **common)
    else:
        a, b = Common(latent_variables=1, items=4), Common(latent_variables=1, items=4)
        b._level = level
        s = R.LinkCommonItems(a, b, [0, 1, 2, 3], [0, 1, 2, 3], method=plan["method"])
        run.call("LinkCommonItems.fit", s.fit, theta, **common)
    return None


def verdict(run: Run, watch: Watch, history, most: int, every: int) -> None:
    plan = run.plan
    trainer, script, updates = plan["trainer"], plan["script"], plan["updates"]
    steps, cuts = watch.steps, len(watch.reductions)
    label = f"{trainer} with {script} losses"
    run.probe("evaluations", len(watch.metrics))
    run.probe("steps", steps)
    run.ev(label, steps, cuts)
    run.state(trainer, script, most, updates, steps, cuts)
    said = f"{steps} of {most} steps, {cuts} of {updates} learning rate reductions"
    if cuts > updates:
        raise Violation("too-late", f"{label}: {said}")
    if cuts == updates and watch.reductions[-1] != steps:
        raise Violation("too-late", f"{label}: {said}, but training went on after the last of them")
    # an infinite loss of the importance weighted bound is a NaN, and NaN ends the training of everything but JML and MML
    nan_end = (script == "nan" and trainer not in ("JML", "MML") or script == "inf" and trainer == "VAE") and steps >= plan["param"]
    if steps < most and cuts < updates and not nan_end:
        raise Violation("too-early", f"{label}: ended after {said}")
    if script == "improving" and (steps < most or cuts) and not (trainer == "link" and steps > 60):
        raise Violation("too-early", f"{label}: ended after {said} although every evaluation was better than the last")
    if len(watch.metrics) != steps // every:
        raise Violation("wrong-history", f"{label}: {len(watch.metrics)} evaluations in {steps} steps with one every {every}")
    if any(a % every for a in watch.at):
        raise Violation("wrong-history", f"{label}: evaluations after {watch.at} steps with one every {every}")
    if history is not None:
        if len(history) != len(watch.metrics):
            raise Violation("wrong-history", f"{label}: {len(history)} recorded losses for {len(watch.metrics)} evaluations")
        for h, m in zip(history, watch.metrics):
            if not (h == m or h != h and m != m):
                raise Violation("wrong-history", f"{label}: {h} was recorded, {m} decided about the learning rate")
    if trainer in ("JML", "AE"):            # the script is the loss itself
        for i, h in enumerate(history):
            want = loss_of(plan, i) if trainer == "JML" else sum(loss_of(plan, t) for t in range(i * every, (i + 1) * every)) / every
            if not (h == want or h != h and want != want or abs(h - want) <= 1e-3 * abs(want)):
                raise Violation("wrong-history", f"{label}: evaluation {i} recorded {h:.6g}, the loss was {want:.6g}")
    if script in ("constant", "worsening") and trainer in ("JML", "MML", "AE"):       # where the script decides the loss exactly
        patience = plan["patience"] if trainer in ("JML", "MML") else 1
        n = len(watch.metrics)
        if cuts and watch.at[0:1] and watch.reductions[0] < (1 + patience) * every:
            raise Violation("too-early", f"{label}: the learning rate was reduced after {watch.reductions[0]} steps, patience {patience} with an evaluation every {every} steps")
        if cuts < min(updates, (n - 1) // (patience + 2)):
            raise Violation("too-late", f"{label}: {said} in {n} evaluations that did not improve, patience {patience}")
