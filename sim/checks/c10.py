"""C10: an interrupted fit reports the interruption and does not spoil later fits."""
from __future__ import annotations
import copy
import random

import numpy as np
import torch

from irtorch import models as M
from irtorch import rescale as R

from .. import ops, zoo
from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..torchops import Injected, Ops, is_injected
from ..watch import public, same
from ..world import World

ID = "C10"
QUICK_RUNS = 900
MIN_RUNS = 80
LEVEL = "exploration"
TECHNIQUE = "seeded histories of fits interrupted at chosen tensor operations and optimizer steps; the model is inspected after each and refitted, compared with a newly built model with the same parameter values"
LEVEL_NOTE = (
    "Sampled histories of 1-3 interrupted fits (4 algorithms, 21 models of 15 types and sizes, with and without a previous fit and scale transformations) with the interrupt at any allocating tensor "
    "operation, or before or after any optimizer step, followed by a complete fit. Also training of flows and links. In place updates are no crash points."
)
RULE = (
    "One case is a model, possibly fitted and transformed before, a list of interrupted fits and a last fit. "
    "Non-trivial: at least one interrupt fired and the last fit was compared."
)
STATE_MEASURE = "(model, interrupted algorithms, fault kinds, interrupted operations) combinations"
REAL_COMPONENTS = ["irtorch models, JML, MML, AE, VAE, encoders, scales", "torch optimizers and data loader"]
SIM_COMPONENTS = ["failing allocations and interrupts at torch operations and optimizer steps"]
ASSUMPTIONS = ["trouble meets operations that need memory or the time around an optimizer step; in place updates and views complete"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    f = ops.gen_fitted(r)
    algorithms = list(ops.FIT_ALGORITHMS)
    events = []
    for _ in range(r.choice([1, 1, 2] if tier == "quick" else [1, 2, 3])):
        events.append({
            "algorithm": r.choice(algorithms), "epochs": r.choice([1, 2, 3]), "at": r.choice(["op", "op", "op", "before step", "after step", "rejected"]), "pos": round(r.random(), 4),
            "kind": r.choice(Injected.KINDS), "seed": r.randint(0, 10**6), "rows": r.choice([8, 11]), "missing": r.choice([0.0, 0.0, 0.2]), "batch": r.choice([None, None, 4]),
        })
    last = events[-1]["algorithm"] if r.random() < 0.6 else r.choice(algorithms)
    return {
        "seed": seed, "what": r.choice(["model"] * 9 + ["scale"]), "fitted": f, "fresh": r.random() < 0.35, "events": events, "scale": r.choice(["flow", "link", "linknn"]),
        "last": {"algorithm": last, "epochs": r.choice([1, 2]), "seed": r.randint(0, 10**6), "rows": r.choice([8, 11]), "missing": r.choice([0.0, 0.2]), "batch": r.choice([None, None, 4])},
    }


def shrinks(plan):
    e = plan["events"]
    for i in range(len(e)):
        if len(e) > 1:
            yield {**plan, "events": e[:i] + e[i + 1:]}
        for key, simple in (("epochs", 1), ("missing", 0.0), ("batch", None), ("kind", "kbi"), ("at", "op")):
            if e[i][key] != simple:
                yield {**plan, "events": e[:i] + [{**e[i], key: simple}] + e[i + 1:]}
    for key, simple in (("epochs", 1), ("missing", 0.0), ("batch", None)):
        if plan["last"][key] != simple:
            yield {**plan, "last": {**plan["last"], key: simple}}
    if not plan["fresh"]:
        yield {**plan, "fresh": True}
        for f in ops.shrink_fitted(plan["fitted"]):
            yield {**plan, "fitted": f}


def nontrivial(run: Run) -> bool:
    return bool(run.faults) and run.probes["compared"] > 0


# -- fits ------------------------------------------------------------------------------------------------------------
class Job:
    """One fit of a model, the same whenever it is done."""

    def __init__(self, plan, e):
        f = plan["fitted"]
        self.e = e
        cats = zoo.categories_of(f["model"])
        self.data = zoo.make_data(e["rows"], cats, e["seed"], e["missing"], "nan")
        self.kwargs = zoo.fit_kwargs(e["algorithm"], e["epochs"])
        if e["batch"] and e["algorithm"] != "MML":
            self.kwargs["batch_size"] = e["batch"]
        g = zoo.generator(("c10", e["seed"]))
        latent = min(f["latent"], zoo.SPECS[f["model"]][1])
        self.latent = latent
        given = {"data": self.data}
        if e["algorithm"] == "JML" and e["seed"] % 2:
            given["start_thetas"] = self.kwargs["start_thetas"] = torch.randn(e["rows"], latent, generator=g)
        if e["algorithm"] == "MML" and e["seed"] % 2:
            a = torch.randn(latent, latent, generator=g) * 0.3
            given["covariance_matrix"] = self.kwargs["covariance_matrix"] = torch.eye(latent) + a @ a.T
        if e["algorithm"] == "AE" and e["seed"] % 3 == 0 and not e["batch"]:
            self.kwargs["batch_normalization_encoder"] = True
        if e["algorithm"] in ("AE", "VAE") and e["seed"] % 4 < 2:
            self.kwargs["hidden_layers_encoder"] = [[1], [6, 4]][e["seed"] % 4]
        self.guard = zoo.Guard(**{**self.kwargs, **given})

    def spoil(self):
        """Ask for something that cannot be fitted."""
        e, k, latent = self.e, self.kwargs, self.latent
        how = ["columns", "setting", "device", "epochs"][int(e["pos"] * 4)]
        if how == "columns":
            self.data = self.data[:, :-1].contiguous() if self.data.shape[1] > 1 else self.data.repeat(1, 2)
            self.guard = zoo.Guard(**{**k, "data": self.data})
        elif how == "device":
            k["device"] = "nowhere"
        elif how == "epochs":
            k["max_epochs"] = "many"
        elif e["algorithm"] == "JML":
            k["start_thetas"] = torch.zeros(e["rows"] + 1, latent)
        elif e["algorithm"] == "MML":
            k["covariance_matrix"] = -torch.eye(latent) if e["seed"] % 2 else torch.eye(latent + 1)
        else:
            self.data = self.data.clone()
            self.data[0, 0] = float("nan")
            self.guard = zoo.Guard(**{**k, "data": self.data})
            k.update({"one_hot_encoded": False, "imputation_method": None} if e["seed"] % 2 else {"imputation_method": "nonsense"})
        return how

    def run(self, model):
        algorithm = zoo.make_algorithm(self.e["algorithm"])
        reseed(self.e["seed"])
        model.fit(self.data, algorithm, **self.kwargs)
        return algorithm


def reseed(seed):
    torch.manual_seed(seed)
    np.random.seed(seed % 2**32)
    random.seed(seed)


class Interrupt:
    """Raises at an operation, or before or after an optimizer step."""

    def __init__(self, run, w, e, at):
        self.run, self.w, self.e, self.at = run, w, e, at
        self.steps = 0
        self.error = None
        self.where = e["at"]
        self.ops = Ops(at if e["at"] == "op" else None, e["kind"], run)

    def __enter__(self):
        self.w.pre_step_hooks.append(self.before)
        self.w.step_hooks.append(self.after)
        self.ops.__enter__()
        return self

    def __exit__(self, *exc):
        self.ops.__exit__(*exc)
        self.w.pre_step_hooks.remove(self.before)
        self.w.step_hooks.remove(self.after)
        if self.ops.error is not None:
            self.error, self.where = self.ops.error, self.ops.where
        return False

    def trouble(self):
        self.error = Injected.make(self.e["kind"])
        self.run.fault(f"step-{self.e['kind']}")
        raise self.error

    def before(self, optimizer):
        if self.e["at"] == "before step" and self.steps == self.at and self.error is None:
            self.trouble()

    def after(self, optimizer):
        self.steps += 1
        if self.e["at"] == "after step" and self.steps == self.at + 1 and self.error is None:
            self.trouble()


def interrupted(run: Run, w: World, e, fn, rehearse, label):
    """Call fn with the interrupt of e. ``rehearse`` is a call of the same length that may be thrown away."""
    with Interrupt(run, w, {**e, "at": "never"}, None) as count:
        _, failed = run.attempt(rehearse)
    n = count.ops.n if e["at"] == "op" else count.steps
    if n == 0:
        return None
    with Interrupt(run, w, e, min(n - 1, int(e["pos"] * n))) as m:
        v, raised = run.attempt(fn)
    run.ev(label, e["kind"], e["at"], m.at, n, m.where, "raised" if raised is not None else "returned")
    what = f"{label}, {e['kind']} at {m.where} {m.at} of {n}"
    if m.error is None:
        if raised is not None and failed is None:
            raise Violation("unexpected-exception", f"{what}: {describe(raised)}")
        return what
    if raised is None:
        raise Violation("hidden-interrupt", f"{what}: the fit went on as if nothing had happened")
    if not is_injected(raised, m.error):
        raise Violation("wrong-error", f"{what}: raised {describe(raised)} instead of the original error")
    return what


# -- what must have survived -------------------------------------------------------------------------------------------
class Kept:
    """What an interrupted fit leaves alone."""

    def __init__(self, model):
        self.model = model
        self.structure = self.shape()
        self.algorithm, self.scales = model.algorithm, list(model.scale)
        self.alg = None if model.algorithm is None else public(model.algorithm)
        self.scale = [self.part(s) for s in model.scale]
        self.config = {k: copy.deepcopy(v) for k, v in vars(model).items() if isinstance(v, (int, float, str, bool, list, tuple)) and not k.startswith("_") and k not in ("scale", "training")}

    @staticmethod
    def part(s):
        return {k: v for k, v in public(s).items() if k not in ("model", "model_from", "model_to")}

    def shape(self):
        return {k: (tuple(v.shape), v.dtype) for k, v in self.model.state_dict().items()}, {k: p.requires_grad for k, p in self.model.named_parameters()}

    def check(self, what):
        m = self.model
        now = self.shape()
        if now != self.structure:
            raise Violation("structure-changed", f"{what}: the parameters are {[k for a, b in zip(now, self.structure) for k in set(a) | set(b) if a.get(k) != b.get(k)]} different in kind")
        if m.algorithm is not self.algorithm:
            raise Violation("algorithm-changed", f"{what}: the model has another algorithm although the fit did not finish")
        if self.alg is not None:
            after = public(m.algorithm)
            for k in self.alg:
                if k not in after or not same(self.alg[k], after[k]):
                    raise Violation("algorithm-changed", f"{what}: {k} of the previous algorithm changed")
        if len(m.scale) != len(self.scales) or any(a is not b for a, b in zip(m.scale, self.scales)):
            raise Violation("scales-changed", f"{what}: the scale transformations are others")
        for i, s in enumerate(m.scale):
            after = self.part(s)
            for k in self.scale[i]:
                if k not in after or not same(self.scale[i][k], after[k]):
                    raise Violation("scales-changed", f"{what}: {k} of scale transformation {i} ({type(s).__name__}) changed")
        for k, v in self.config.items():
            if getattr(m, k, None) != v:
                raise Violation("structure-changed", f"{what}: {k} changed from {v} to {getattr(m, k, None)}")
        if not torch.is_grad_enabled() or torch.get_default_dtype() != torch.float32:
            raise Violation("interpreter-changed", f"{what}: the gradient mode or the default type of the interpreter changed")


def twin(plan, model):
    """A newly built model with the same parameter values."""
    f = plan["fitted"]
    new = zoo.make_model(f["model"], f["latent"], f["seed"])
    new.load_state_dict({k: v.clone() for k, v in model.state_dict().items()})
    return new


def usable(run: Run, plan, model, data, what):
    """The model answers as a newly built one with its parameter values does."""
    other = twin(plan, model)
    if not all(torch.isfinite(p).all() for p in model.parameters()):
        run.probe("not finite")
        return
    theta = torch.randn(5, model.latent_variables, generator=zoo.generator(("c10 theta", plan["seed"])))
    resp = data[:5].clone()
    questions = {
        "item probabilities": lambda m: m.item_probabilities(theta),
        "expected scores": lambda m: m.expected_scores(theta),
        "information": lambda m: m.information(theta, item=False, rescale=False),
        "log-likelihood": lambda m: m.evaluate.log_likelihood(resp, theta, reduction="sum", level="all"),
    }
    for name, ask in questions.items():
        a, e = run.attempt(ask, model)
        b, refused = run.attempt(ask, other)
        if refused is not None:
            if numeric_failure(refused) or isinstance(refused, NotImplementedError):
                continue
            raise Violation("unexpected-exception", f"{name} of a newly built model: {describe(refused)}")
        if e is not None:
            raise Violation("unusable", f"{what}: afterwards {name}: {describe(e)}")
        bad = ops.differs(a, b)
        if bad is not None:
            raise Violation("unusable", f"{what}: afterwards {name} {bad}")
    if model.algorithm is not None:
        a, e = run.attempt(lambda: model.latent_scores(resp.clone(), theta_estimation="EAP", eap_theta_integration_points=9, device="cpu"))
        if e is not None and not numeric_failure(e):
            raise Violation("unusable", f"{what}: afterwards latent_scores: {describe(e)}")
    run.probe("evaluated")


def models(run: Run, w: World, plan):
    f = plan["fitted"]
    if plan["fresh"]:
        model = zoo.make_model(f["model"], f["latent"], f["seed"])
    else:
        model, _ = ops.build(f)
    kept = Kept(model)
    for i, e in enumerate(plan["events"]):
        job = Job(plan, e)
        if e["at"] == "rejected":
            how = job.spoil()
            _, refused = run.attempt(job.run, model)
            what = f"fit {i} ({e['algorithm']}) with wrong {how}"
            run.ev("rejected", what, describe(refused) if refused is not None else "accepted")
            if job.guard.changed() is not None:
                raise Violation("arguments-changed", f"{what}: {job.guard.changed()}")
            if refused is None:
                kept = Kept(model)
                continue
            run.fault("rejected")
            run.probe(f"rejected: {how}")
            kept.check(what)
            usable(run, plan, model, zoo.make_data(6, zoo.categories_of(f["model"]), e["seed"], 0.0), what)
            continue
        rehearsal = copy.deepcopy(model)
        what = interrupted(run, w, e, lambda: job.run(model), lambda: job.run(rehearsal), f"fit {i} ({e['algorithm']})")
        bad = job.guard.changed()
        if bad is not None:
            raise Violation("arguments-changed", f"{what}: {bad}")
        if what is None:
            continue
        if model.algorithm is not kept.algorithm and not run.faults:
            kept = Kept(model)               # this one finished
            continue
        kept.check(what)
        usable(run, plan, model, job.data, what)
        run.state(f["model"], e["algorithm"], e["kind"], e["at"], i)
    if not run.faults:
        return
    job = Job(plan, plan["last"])
    other = twin(plan, model)
    b, refused = run.attempt(job.run, other)
    a, e = run.attempt(job.run, model)
    label = f"after {[x['algorithm'] for x in plan['events']]} were interrupted, {plan['last']['algorithm']}"
    if refused is not None:
        if not numeric_failure(refused):
            raise Violation("unexpected-exception", f"{label} of a newly built model: {describe(refused)}")
        return
    if e is not None:
        raise Violation("spoiled", f"{label} fails: {describe(e)}")
    if model.algorithm is not a:
        raise Violation("spoiled", f"{label}: the model did not get the new algorithm")
    run.probe("compared")
    bad = zoo.same_state(zoo.param_snapshot(model), zoo.param_snapshot(other), exact=False)
    if bad is not None:
        raise Violation("spoiled", f"{label} ends with another {bad} than for a newly built model with the same parameter values")
    if not np.allclose([float(x) for x in a.training_history["train_loss"]], [float(x) for x in b.training_history["train_loss"]], rtol=1e-4, atol=1e-4, equal_nan=True):
        raise Violation("spoiled", f"{label} has another training history than for a newly built model with the same parameter values")
    if b.training_theta_scores is not None and not zoo.same_tensor(a.training_theta_scores.detach(), b.training_theta_scores.detach()):
        raise Violation("spoiled", f"{label} ends with other training scores than for a newly built model with the same parameter values")
    if len(model.scale) != len(kept.scales) or any(s is not t for s, t in zip(model.scale, kept.scales)):
        raise Violation("scales-changed", f"{label}: the scale transformations are others")


# -- scale transformations -------------------------------------------------------------------------------------------
def scales(run: Run, w: World, plan):
    seed = plan["seed"]
    theta = torch.randn(24, 1, generator=zoo.generator(("c10 scale", seed)))
    one, two = M.TwoParameterLogistic(latent_variables=1, items=4), M.TwoParameterLogistic(latent_variables=1, items=4)
    zoo.randomise(two, seed)

    def new():
        reseed(seed)
        if plan["scale"] == "flow":
            return R.Flow(1)
        return R.LinkCommonItems(one, two, [0, 1, 2], [1, 2, 3], method="spline" if plan["scale"] == "link" else "neuralnet")

    def train(scale, k):
        reseed(seed + 1)
        scale.fit(theta, max_epochs=k, batch_size=12, device="cpu")

    parameters = zoo.param_snapshot(one), zoo.param_snapshot(two)
    guard = zoo.Guard(theta=theta)
    scale = new()
    one.add_scale_transformation(scale)
    for i, e in enumerate(plan["events"]):
        e = {**e, "at": "op"} if e["at"] == "rejected" else e
        rehearsal = copy.deepcopy(scale)
        what = interrupted(run, w, e, lambda: train(scale, e["epochs"]), lambda: train(rehearsal, e["epochs"]), f"training {i} of a {plan['scale']}")
        bad = guard.changed()
        if bad is not None:
            raise Violation("arguments-changed", f"{what}: {bad}")
        if zoo.same_state(parameters[0], zoo.param_snapshot(one)) or zoo.same_state(parameters[1], zoo.param_snapshot(two)):
            raise Violation("parameters-changed", f"{what}: the parameters of a linked model changed")
        if not torch.is_grad_enabled() or one.scale != [scale]:
            raise Violation("scales-changed", f"{what}: the model lost its scale transformation")
        run.state("scale", plan["scale"], e["kind"], e["at"], i)
    if not run.faults:
        return
    other = new()
    if plan["scale"] != "flow":              # training goes on from where it was
        other._transformation.load_state_dict({k: v.clone() for k, v in scale._transformation.state_dict().items()})
    train(other, 2)
    train(scale, 2)
    run.probe("compared")
    x = torch.linspace(-2, 2, 9).view(-1, 1)
    a, b = one.transform_theta(x).detach(), other.transform(x).detach()
    if not zoo.same_tensor(a, b, rtol=1e-4, atol=1e-4):
        raise Violation("spoiled", f"a {plan['scale']} whose training was interrupted is trained to {a.reshape(-1).tolist()[:3]}, a new one to {b.reshape(-1).tolist()[:3]}")


def execute(run: Run) -> None:
    plan = run.plan
    with World(run) as w:
        torch.manual_seed(plan["seed"] % 2**31)
        try:
            (models if plan["what"] == "model" else scales)(run, w, plan)
        except Exception as e:  # noqa: BLE001
            if isinstance(e, Violation):
                raise
            if numeric_failure(e):
                run.probe("numeric failure")
                return
            raise Violation("unexpected-exception", describe(e)) from e
