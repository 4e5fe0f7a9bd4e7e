"""C09: training ends with the best recorded state, never with destroyed parameters."""
from __future__ import annotations
import math

import torch

from irtorch import models as M
from irtorch import rescale as R

from .. import zoo
from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe, generic_shrinks
from ..train import GRAD_FAULTS, LOSS_FAULTS, Script, finite, make
from ..world import World

ID = "C09"
QUICK_RUNS = 1000
MIN_RUNS = 100
LEVEL = "exploration"
TECHNIQUE = "fits under seeded scripts of NaN, infinite, spiking and misleadingly good losses and of non-finite gradients, state after every optimizer step recorded and compared with the final state"
LEVEL_NOTE = (
    "Sampled fits of 21 models of 15 types and sizes with 4 algorithms (1-24 optimizer steps, mini-batches, several evaluation intervals) with 0-5 faults each, and fits of 2 trained scale transformations. "
    "The final state is compared exactly. Not claimed: what is left when no evaluation left finite parameters, and repeated fits of one algorithm instance."
)
RULE = (
    "One case is a model, an algorithm with its limits, and a list of faults at optimizer steps. Loss faults come through the log-likelihood of the model, gradient faults are set "
    "right before the step. Non-trivial: at least one fault fired."
)
STATE_MEASURE = "(algorithm, evaluation interval, faults fired at which steps, best evaluation) combinations"
REAL_COMPONENTS = ["irtorch models, JML, MML, AE, VAE, Flow, LinkCommonItems", "torch optimizers and schedulers"]
SIM_COMPONENTS = ["losses and gradients met by the trainer"]
ASSUMPTIONS = ["an entry of the training history belongs to the state after the optimizer step that completed the evaluation interval"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    if r.random() < 0.12:
        return gen_scale(r, seed)
    algorithm = r.choice(["JML", "MML", "AE", "VAE"])
    name = r.choice(list(zoo.MODELS))
    epochs = r.choice([1, 2, 4, 7, 12] if tier == "quick" else [3, 8, 16, 30])
    batch = r.choice([None, None, 4, 7]) if algorithm != "MML" else None
    rows = r.choice([9, 13, 16])
    steps = epochs * (1 if batch is None else -(-rows // batch))
    faults = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        faults.append({"step": r.randrange(steps), "kind": r.choice(LOSS_FAULTS + GRAD_FAULTS), "size": round(r.choice([0.01, 0.3, 1.0, 5.0]) * (0.5 + r.random()), 4)})
    late = r.random() < 0.5               # destroyed parameters after a good evaluation
    if late and steps > 3:
        faults.append({"step": r.randrange(steps // 2, steps), "kind": r.choice(GRAD_FAULTS), "size": round(r.random(), 4)})
    return {
        "seed": seed, "kind": "fit", "model": name, "latent": r.choice([1, 1, 2]), "algorithm": algorithm, "rows": rows, "epochs": epochs, "batch": batch,
        "missing": r.choice([None, None, "nan", "-1"]), "interval": r.choice([2, 2, 3, 4]), "patience": r.choice([0, 1, 3, 50]), "updates": r.choice([1, 2, 50]),
        "lr": r.choice([0.02, 0.1, 0.5, 3.0]), "bn": r.random() < 0.3, "iw": r.choice([1, 2, 3]), "gauss": r.random() < 0.4, "faults": faults, "refit": r.random() < 0.2,
        "eval_before": r.random() < 0.3,
    }


def gen_scale(r, seed) -> dict:
    return {
        "seed": seed, "kind": r.choice(["flow", "link"]), "rows": r.choice([8, 14]), "latent": r.choice([1, 2]), "epochs": r.choice([2, 5, 9]), "batch": r.choice([None, 4, 5]),
        "lr": r.choice([0.01, 0.5]), "method": r.choice(["spline", "neuralnet"]), "at": r.randrange(0, 12), "faults": [], "updates": r.choice([1, 3]), "interval": r.choice([2, 5]),
    }


def shrinks(plan):
    ints = {"epochs": 1, "rows": 8}
    yield from generic_shrinks(plan, ("faults",), ints)
    for key, simple in (("batch", None), ("missing", None), ("latent", 1), ("bn", False), ("refit", False), ("eval_before", False), ("updates", 50), ("patience", 50)):
        if key in plan and plan[key] != simple:
            yield {**plan, key: simple}


def nontrivial(run: Run) -> bool:
    return bool(run.faults)


def kwargs_of(plan) -> dict:
    a = plan["algorithm"]
    out = {"max_epochs": plan["epochs"], "learning_rate": plan["lr"], "learning_rate_updates_before_stopping": plan["updates"], "device": "cpu"}
    if a != "MML" and plan["batch"]:
        out["batch_size"] = plan["batch"]
    if a in ("JML", "MML"):
        out["learning_rate_update_patience"] = plan["patience"]
    if a == "MML":
        out.update(quadrature_points=5, integration_method="gauss_hermite" if plan["gauss"] else "quasi_mc")
    if a in ("AE", "VAE"):
        out.update(hidden_layers_encoder=[6], evaluation_interval_size=plan["interval"], batch_normalization_encoder=plan["bn"])
    if a == "VAE":
        out["iw_samples"] = plan["iw"]
    return out


def execute(run: Run) -> None:
    plan = run.plan
    with World(run) as w:
        if plan["kind"] != "fit":
            scale(run, w)
            return
        model = make(plan["model"], plan["latent"], plan["seed"])
        data = zoo.make_data(plan["rows"], zoo.categories_of(plan["model"]), plan["seed"], 0.12 if plan["missing"] else 0.0, plan["missing"] or "nan")
        if plan["eval_before"]:
            model.eval()
        fit(run, w, model, data, plan["faults"], "fit")
        if plan["refit"]:                # a second fit must start over, whatever the first one recorded
            with torch.no_grad():
                for i, p in enumerate(model.parameters()):
                    if not p.isfinite().all():
                        p.copy_(torch.zeros_like(p) + 0.1)
            other = zoo.make_data(plan["rows"] + 3, zoo.categories_of(plan["model"]), plan["seed"] + 1)
            fit(run, w, model, other, [], "second fit")


def fit(run: Run, w: World, model, data, faults, label) -> None:
    plan = run.plan
    algorithm = zoo.make_algorithm(plan["algorithm"])
    script = Script(run, w, [dict(f) for f in faults])
    script.attach(model, algorithm)
    structure = {k: (v.shape, v.dtype) for k, v in model.state_dict().items()}
    trainable = [p.requires_grad for p in model.parameters()]
    try:
        _, e = run.attempt(model.fit, train_data=data.clone(), algorithm=algorithm, **kwargs_of(plan))
    finally:
        script.detach()
    if e is not None:
        # parameters that were destroyed by a non-finite gradient may make the model fail, but no fit fails by itself
        if script.fired and numeric_failure(e):
            run.probe("failed")
            return
        if not numeric_failure(e):
            raise Violation("unexpected-exception", f"{label} raised {describe(e)} after {script.step} steps")
        run.probe("failed")
        return
    history = list(algorithm.training_history["train_loss"])
    neural = plan["algorithm"] in ("AE", "VAE")
    every = plan["interval"] if neural else -(-data.shape[0] // (plan["batch"] or data.shape[0])) if plan["algorithm"] == "JML" else 1
    run.probe("steps", script.step)
    if len(history) != script.step // every:
        raise Violation("wrong-history", f"{label}: {len(history)} recorded losses after {script.step} steps with an evaluation every {every}")
    ends = {i: script.snapshots[(i + 1) * every - 1] for i in range(len(history))}
    usable = [i for i in ends if finite_parameters(ends[i]) and not math.isnan(history[i]) and history[i] < math.inf]
    final = script.picture()
    if usable:
        best = min(history[i] for i in usable)
        candidates = [i for i in usable if history[i] == best]
        run.state(plan["algorithm"], every, [(f["kind"], f["step"]) for f in faults], candidates[0])
        bad = None
        for i in candidates:
            bad = differs(final, ends[i])
            if bad is None:
                break
        if bad is not None:
            raise Violation("not-best", f"{label}: {bad} is not that of evaluation {candidates[0]} with the lowest loss ({best:.6g} in {[round(h, 4) for h in history]})")
        if not finite(final):
            raise Violation("destroyed", f"{label}: non-finite parameters although evaluation {candidates[0]} left finite ones")
        run.probe("restored", 0 if candidates[-1] == len(history) - 1 else 1)
    if {k: (v.shape, v.dtype) for k, v in model.state_dict().items()} != structure:
        raise Violation("structure", f"{label}: the structure of the model changed")
    if [p.requires_grad for p in model.parameters()] != trainable:
        raise Violation("structure", f"{label}: trainability of the parameters changed")
    if model.training or any(m.training for m in model.children()):
        raise Violation("mode", f"{label}: the model was left in training mode")
    if model.algorithm is not algorithm:
        raise Violation("not-fitted", f"{label}: the model does not have the algorithm")
    if neural:
        if algorithm.encoder.training:
            raise Violation("mode", f"{label}: the encoder was left in training mode")
        scores = algorithm.training_theta_scores
        if scores.shape != (data.shape[0], model.latent_variables):
            raise Violation("wrong-scores", f"{label}: latent scores of shape {tuple(scores.shape)}")
        if usable:
            again = run.call("latent_scores", model.latent_scores, data.clone(), theta_estimation="NN", device="cpu", rescale=False)
            if not zoo.same_tensor(scores, again, rtol=1e-3, atol=1e-3):
                raise Violation("wrong-scores", f"{label}: the stored latent scores are not those of the fitted encoder")
    elif plan["algorithm"] == "JML" and algorithm.training_theta_scores.shape != (data.shape[0], model.latent_variables):
        raise Violation("wrong-scores", f"{label}: latent scores of shape {tuple(algorithm.training_theta_scores.shape)}")


def finite_parameters(picture) -> bool:
    return finite({k: {n: t for n, t in v.items() if "running_" not in n} for k, v in picture.items()})


def differs(a: dict, b: dict) -> str | None:
    for part in b:
        bad = zoo.same_state(a[part], b[part])
        if bad is not None:
            return f"{bad} of the {part}" if part != "theta" else "the latent scores"
    return None


# -- scale transformations -------------------------------------------------------------------------------------------
class Target(torch.distributions.Normal):
    """The distribution a flow is fitted to."""

    def __init__(self, at, run):
        super().__init__(torch.zeros(1), torch.ones(1))
        self.at, self.run, self.n = at, run, 0

    def log_prob(self, value):
        out = super().log_prob(value)
        self.n += 1
        if self.n == self.at + 1:
            self.run.fault("nan-loss")
            return out * float("nan")
        return out


class Common(M.TwoParameterLogistic):
    def item_probabilities(self, theta):
        out = super().item_probabilities(theta)
        script = self.__dict__.get("_nan")
        if script is not None:
            script["n"] += 1
            if script["n"] == script["at"] + 1:
                script["run"].fault("nan-loss")
                return out * float("nan")
        return out


def scale(run: Run, w: World) -> None:
    plan = run.plan
    last = {}

    def watch(optimizer):
        last["tensors"] = [p for g in optimizer.param_groups for p in g["params"]]
        last["p"] = [p.detach().clone() for p in last["tensors"]]
        run.ev("step")

    w.step_hooks.append(watch)
    common = {"batch_size": plan["batch"], "learning_rate": plan["lr"], "max_epochs": plan["epochs"], "device": "cpu",
              "learning_rate_updates_before_stopping": plan["updates"], "evaluation_interval_size": plan["interval"]}
    theta = torch.randn(plan["rows"], plan["latent"] if plan["kind"] == "flow" else 1, generator=zoo.generator(plan["seed"]))
    guard = zoo.Guard(theta=theta)
    if plan["kind"] == "flow":
        s = R.Flow(plan["latent"])
        run.call("Flow.fit", s.fit, theta, distribution=Target(plan["at"], run), **common)
        models = []
    else:
        a, b = Common(latent_variables=1, items=4), Common(latent_variables=1, items=4)
        zoo.randomise(a, 1)
        zoo.randomise(b, 2)
        models = [(a, zoo.param_snapshot(a)), (b, zoo.param_snapshot(b))]
        s = R.LinkCommonItems(a, b, [0, 1, 2, 3], [0, 1, 2, 3], method=plan["method"])
        b._nan = {"n": 0, "at": plan["at"], "run": run}
        run.call("LinkCommonItems.fit", s.fit, theta, **common)
        del b.__dict__["_nan"]
    params = last.get("tensors", [])
    if not all(p.isfinite().all() for p in params):
        raise Violation("destroyed", f"{plan['kind']}: a NaN loss left non-finite parameters")
    if run.faults and any(not torch.equal(p, q) for p, q in zip(params, last.get("p", []))):
        raise Violation("destroyed", f"{plan['kind']}: parameters changed after the last training step")
    if plan["kind"] == "flow" and s.flow.training:
        raise Violation("mode", "the flow was left in training mode")
    if guard.changed():
        raise Violation("arguments-changed", guard.changed())
    for m, before in models:
        bad = zoo.same_state(zoo.param_snapshot(m), before)
        if bad:
            raise Violation("model-changed", f"linking changed {bad} of a model")
    out = run.call("transform", s.transform, theta)
    if not out.isfinite().all():
        raise Violation("destroyed", f"{plan['kind']}: scores are not finite")
    run.state(plan["kind"], plan["at"], len(last))
