"""C21: a used algorithm object, model or scale transformation is trained as a new one."""
from __future__ import annotations
import copy
import pickle

import numpy as np
import torch

from irtorch import models as M
from irtorch import rescale as R

from .. import ops, zoo
from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..torchops import Injected
from ..world import World
from .c10 import interrupted, reseed

ID = "C21"
QUICK_RUNS = 1000
MIN_RUNS = 80
LEVEL = "exploration"
TECHNIQUE = "seeded histories of one algorithm object (or scale transformation): fits that finish, stop early, diverge or are interrupted, copies, questions; then a fit compared with that of a new object"
LEVEL_NOTE = (
    "Sampled histories of 1-4 earlier uses over 21 models of 15 types and sizes, 4 algorithms, flows and links, with other models, data, sizes and settings. Compared: parameters, recorded history, "
    "latent scores, encoder, and answers by NN, EAP, sampling. The training data an algorithm keeps accumulates by design and is not compared."
)
RULE = "One case is an algorithm object with its earlier uses and a last fit, repeated with new objects of the same parameter values. Non-trivial: an earlier use trained and the last fits were compared."
STATE_MEASURE = "(algorithm, kinds of earlier uses, last model) combinations"
REAL_COMPONENTS = ["irtorch models, JML, MML, AE, VAE, encoders, scales", "torch optimizers and data loader"]
SIM_COMPONENTS = ["failing allocations and interrupts at torch operations and optimizer steps", "numerical divergence by large learning rates"]
ASSUMPTIONS = ["after seeding alike, two equal fits give equal results (C08)"]

USES = ("finish", "finish", "stop", "diverge", "interrupt", "interrupt", "ask", "deepcopy", "pickle")


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    algorithm = r.choice(["JML", "MML", "AE", "VAE", "AE", "VAE"])
    names = list(zoo.MODELS)
    shared = r.choice(names)

    def job():
        name = shared if r.random() < 0.6 else r.choice(names)
        return {
            "model": name, "latent": min(r.choice([1, 1, 2]), zoo.SPECS[name][1]), "new": r.random() < 0.5, "rows": r.choice([8, 11, 14]), "missing": r.choice([0.0, 0.2]), "epochs": r.choice([1, 2, 4]),
            "batch": r.choice([None, None, 4, 5]), "seed": r.randint(0, 10**6), "option": r.randint(0, 9), "one_hot": r.random() < 0.7, "imputation": r.choice(["zero", "mean"]), "bn": r.random() < 0.15,
        }

    uses = []
    for _ in range(r.choice([1, 2, 3] if tier == "quick" else [1, 2, 4, 6])):
        uses.append({"what": r.choice(USES), "job": job(), "at": r.choice(["op", "op", "before step", "after step"]), "pos": round(r.random(), 4), "kind": r.choice(Injected.KINDS), "q": r.choice(list(ops.QUESTIONS))})
    return {"seed": seed, "kind": r.choice(["model"] * 6 + ["scale"]), "scale": r.choice(["flow", "link", "linknn"]), "algorithm": algorithm, "uses": uses, "last": {**job(), "long": r.random() < 0.15}}


def shrinks(plan):
    u = plan["uses"]
    for i in range(len(u)):
        if len(u) > 1:
            yield {**plan, "uses": u[:i] + u[i + 1:]}
        for k, simple in (("epochs", 1), ("missing", 0.0), ("batch", None), ("option", 0), ("one_hot", True), ("imputation", "zero"), ("bn", False), ("model", "1pl"), ("latent", 1)):
            if u[i]["job"][k] != simple:
                yield {**plan, "uses": u[:i] + [{**u[i], "job": {**u[i]["job"], k: simple}}] + u[i + 1:]}
        if u[i]["what"] != "finish":
            yield {**plan, "uses": u[:i] + [{**u[i], "what": "finish"}] + u[i + 1:]}
    for k, simple in (("epochs", 1), ("missing", 0.0), ("batch", None), ("option", 0), ("long", False), ("one_hot", True), ("imputation", "zero"), ("bn", False)):
        if plan["last"][k] != simple:
            yield {**plan, "last": {**plan["last"], k: simple}}


def nontrivial(run: Run) -> bool:
    return run.probes["trained before"] > 0 and run.probes["compared"] > 0


class Job:
    def __init__(self, a: str, j: dict, use: str = "finish"):
        self.a, self.j, self.use = a, j, use
        self.data = zoo.make_data(j["rows"], zoo.categories_of(j["model"]), j["seed"], j["missing"], "nan" if j["seed"] % 2 else "-1")
        k = zoo.fit_kwargs(a, j["epochs"])
        g = zoo.generator(("c21", j["seed"]))
        if j["batch"] and a != "MML":
            k["batch_size"] = j["batch"]
        if a in ("AE", "VAE"):
            k.update(ops.fit_options({"algorithm": a, **j}))
            k["evaluation_interval_size"] = 2 + j["option"] % 3
        if a == "VAE":
            k.update(iw_samples=1 + j["option"] % 2, anneal=j["option"] % 3 > 0, annealing_iterations=1 + j["option"] % 5)
        if a == "JML" and j["option"] % 2:
            k["start_thetas"] = torch.randn(j["rows"], j["latent"], generator=g)
        if a == "MML":
            k["quadrature_points"] = 5 + j["option"] % 3
            k["integration_method"] = "gauss_hermite" if j["option"] % 3 == 0 else "quasi_mc"
            if j["option"] % 2:
                m = torch.randn(j["latent"], j["latent"], generator=g) * 0.3
                k["covariance_matrix"] = torch.eye(j["latent"]) + m @ m.T
        if use == "stop" or j.get("long"):
            k.update(max_epochs=40, learning_rate=0.4, learning_rate_updates_before_stopping=1)
            if a in ("JML", "MML"):
                k["learning_rate_update_patience"] = 0
            else:
                k["evaluation_interval_size"] = 2
        if use == "diverge":
            k.update(max_epochs=6, learning_rate=1e30)
        self.kwargs = k

    def run(self, model, algorithm):
        reseed(self.j["seed"])
        guard = zoo.Guard(**self.kwargs)
        model.fit(self.data.clone(), algorithm, **self.kwargs)
        if guard.changed() is not None:        # the same settings would train another model next time
            raise Violation("settings-changed", f"fitting: {guard.changed()}")


def new_model(j):
    return zoo.make_model(j["model"], j["latent"], j["seed"])


def twin(model, j, seed):
    other = zoo.make_model(j["model"], j["latent"], seed)
    other.load_state_dict({k: v.clone() for k, v in model.state_dict().items()})
    return other


def finite(model) -> bool:
    return all(torch.isfinite(p).all() for p in model.parameters())


def algorithms(run: Run, w: World, plan):
    name = plan["algorithm"]
    algorithm = zoo.make_algorithm(name)
    models = {}                                     # (name, latent) -> a model and the data it was last fitted to
    for i, u in enumerate(plan["uses"]):
        what, j = u["what"], u["job"]
        key = (j["model"], j["latent"])
        if what == "deepcopy":
            algorithm = copy.deepcopy(algorithm)
            continue
        if what == "pickle":
            algorithm = pickle.loads(pickle.dumps(algorithm))
            continue
        if what == "ask":
            fitted = [m for m in models.values() if m.algorithm is algorithm]
            if fitted:
                m = fitted[-1]
                f = {"model": j["model"], "latent": j["latent"], "seed": j["seed"], "missing": None}
                if tuple(m.item_categories) == tuple(zoo.categories_of(j["model"])):
                    run.attempt(ops.ask, u["q"], ops.context(f, m, None, 5), i)
            continue
        if key not in models or j["new"]:
            models[key] = new_model(j)
        job = Job(name, j, what)
        m = models[key]
        if what == "interrupt":
            rehearsal, spare = copy.deepcopy(m), copy.deepcopy(algorithm)
            interrupted(run, w, u, lambda: job.run(m, algorithm), lambda: job.run(rehearsal, spare), f"fit {i} ({name})")
        else:
            _, e = run.attempt(job.run, m, algorithm)
            if e is not None and not numeric_failure(e):
                raise Violation("spoiled", f"fit {i} ({what}) with a used {name} object: {describe(e)}")
        run.probe("trained before")
        if what == "diverge":
            run.fault("divergence")
        if not finite(m):
            del models[key]
    j = plan["last"]
    key = (j["model"], j["latent"])
    model = models[key] if key in models and not j["new"] else new_model(j)
    other, fresh = twin(model, j, j["seed"] + 1), zoo.make_algorithm(name)
    job = Job(name, j)
    kinds = [u["what"] for u in plan["uses"]]
    _, refused = run.attempt(job.run, other, fresh)
    _, e = run.attempt(job.run, model, algorithm)
    label = f"{name} object after {kinds}"
    if refused is not None:
        if not numeric_failure(refused):
            raise Violation("unexpected-exception", f"a new {name} object: {describe(refused)}")
        return
    if e is not None:
        raise Violation("spoiled", f"{label}: fit fails with {describe(e)}")
    run.state(name, kinds, j["model"])
    run.probe("compared")
    compare(run, label, job, model, other, algorithm, fresh)


def compare(run, label, job, model, other, a, b):
    bad = zoo.same_state(zoo.param_snapshot(model), zoo.param_snapshot(other), exact=False)
    if bad is not None:
        raise Violation("spoiled", f"{label}: the fit ends with another {bad} than with new objects")
    x, y = ([float(v) for v in z.training_history["train_loss"]] for z in (a, b))
    if len(x) != len(y) or not np.allclose(x, y, rtol=1e-4, atol=1e-4, equal_nan=True):
        raise Violation("spoiled", f"{label}: the recorded history has {len(x)} entries {x[:3]}, with new objects {len(y)} entries {y[:3]}")
    for what in ("training_theta_scores", "covariance_matrix"):
        s, t = getattr(a, what, None), getattr(b, what, None)
        if (s is None) != (t is None) or s is not None and not zoo.same_tensor(s.detach(), t.detach(), rtol=1e-4, atol=1e-4):
            raise Violation("spoiled", f"{label}: {what} differs from that of new objects")
    if hasattr(b, "encoder"):
        bad = zoo.same_state(zoo.param_snapshot(a.encoder), zoo.param_snapshot(b.encoder), exact=False)
        if bad is not None:
            raise Violation("spoiled", f"{label}: the encoder ends with another {bad} than with new objects")
    if not finite(other):
        return
    data = zoo.make_data(5, zoo.categories_of(job.j["model"]), job.j["seed"] + 3, 0.2, "nan")
    questions = {"EAP scores": lambda m: m.latent_scores(data.clone(), theta_estimation="EAP", eap_theta_integration_points=9, device="cpu", rescale=False)}
    if job.a in ("AE", "VAE"):
        questions["NN scores"] = lambda m: m.latent_scores(data.clone(), theta_estimation="NN", device="cpu", rescale=False)
    if job.a == "VAE":
        questions["samples"] = lambda m: m.algorithm.sample_latent_variables(m, 6, data.clone())
    for q, ask in questions.items():
        reseed(1)
        v, refused = run.attempt(ask, other)
        reseed(1)
        u, e = run.attempt(ask, model)
        if refused is not None:
            continue
        if e is not None:
            raise Violation("spoiled", f"{label}: {q}: {describe(e)}")
        bad = ops.differs(u, v)
        if bad is not None:
            raise Violation("spoiled", f"{label}: {q}: {bad} with new objects")
        run.probe("answers")


# -- scale transformations -------------------------------------------------------------------------------------------
def scales(run: Run, w: World, plan):
    seed = plan["seed"]
    one, two = M.TwoParameterLogistic(latent_variables=1, items=4), M.TwoParameterLogistic(latent_variables=1, items=4)
    zoo.randomise(one, seed)
    zoo.randomise(two, seed + 1)

    def new():
        reseed(seed)
        if plan["scale"] == "flow":
            return R.Flow(1)
        return R.LinkCommonItems(one, two, [0, 1, 2], [1, 2, 3], method="spline" if plan["scale"] == "link" else "neuralnet")

    def train(scale, j, use):
        theta = torch.randn(j["rows"] * 2, 1, generator=zoo.generator(("c21 scale", j["seed"]))) * (1 + j["option"] % 3)
        kwargs = {"max_epochs": j["epochs"], "batch_size": j["batch"], "device": "cpu"}
        if use == "stop":
            kwargs.update(max_epochs=40, learning_rate=0.4, learning_rate_updates_before_stopping=1, evaluation_interval_size=2)
        if use == "diverge":
            kwargs.update(max_epochs=6, learning_rate=1e30)
        reseed(j["seed"])
        scale.fit(theta, **kwargs)

    scale = new()
    for i, u in enumerate(plan["uses"]):
        what = u["what"]
        if what == "ask":
            run.attempt(scale.transform, torch.linspace(-2, 2, 5).view(-1, 1))
            continue
        if what in ("deepcopy", "pickle"):
            scale = copy.deepcopy(scale)
            continue
        if what == "interrupt":
            rehearsal = copy.deepcopy(scale)
            interrupted(run, w, u, lambda: train(scale, u["job"], what), lambda: train(rehearsal, u["job"], what), f"training {i} of a {plan['scale']}")
        else:
            _, e = run.attempt(train, scale, u["job"], what)
            if e is not None and not numeric_failure(e):
                raise Violation("spoiled", f"training {i} ({what}) of a used {plan['scale']}: {describe(e)}")
        run.probe("trained before")
    other = new()
    if plan["scale"] != "flow":              # training goes on from where it was
        other._transformation.load_state_dict({k: v.clone() for k, v in scale._transformation.state_dict().items()})
    _, refused = run.attempt(train, other, plan["last"], "finish")
    _, e = run.attempt(train, scale, plan["last"], "finish")
    label = f"a {plan['scale']} after {[u['what'] for u in plan['uses']]}"
    if refused is not None:
        if not numeric_failure(refused):
            raise Violation("unexpected-exception", f"{plan['scale']}: {describe(refused)}")
        return
    if e is not None:
        raise Violation("spoiled", f"{label}: training fails with {describe(e)}")
    run.probe("compared")
    run.state(plan["scale"], [u["what"] for u in plan["uses"]])
    x = torch.linspace(-2, 2, 9).view(-1, 1)
    a, b = scale.transform(x).detach(), other.transform(x).detach()
    if not b.isfinite().all():
        run.probe("not finite")
        return
    if not zoo.same_tensor(a, b, rtol=1e-4, atol=1e-4):
        raise Violation("spoiled", f"{label} is trained to {a.reshape(-1).tolist()[:3]}, a new one to {b.reshape(-1).tolist()[:3]}")


def execute(run: Run) -> None:
    plan = run.plan
    with World(run) as w:
        torch.manual_seed(plan["seed"] % 2**31)
        try:
            (algorithms if plan["kind"] == "model" else scales)(run, w, plan)
        except Exception as e:  # noqa: BLE001
            if isinstance(e, Violation):
                raise
            if numeric_failure(e):
                run.probe("numeric failure")
                return
            raise Violation("unexpected-exception", describe(e)) from e
