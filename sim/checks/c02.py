"""C02: save, restart, load gives the same fitted model; a failed load changes nothing."""
from __future__ import annotations
import copy
import io
import os
import pathlib
import random

import numpy as np
import torch

from .. import ops, zoo
from ..common import as_process, disk, reboot, rng_for
from ..core import Run, Violation, describe, generic_shrinks
from ..fs import REAL

ID = "C02"
QUICK_RUNS = 480
MIN_RUNS = 60
LEVEL = "exploration"
TECHNIQUE = "seeded histories of fit, rescale, save, process death and load over a simulated disk with read faults and damaged files"
LEVEL_NOTE = (
    "Sampled over 21 models of 15 types and sizes, 4 algorithms, stacks of up to 3 of 6 scale transformations, histories of the receiving model and 9 kinds of load fault. "
    "Parameters are compared exactly, answers to 1e-5. The restarted process shares the interpreter (same class definitions)."
)
RULE = (
    "One case is a history of fits, scale changes, saves, process deaths and loads into receivers with a history of their own, with read faults, "
    "damaged files and files of other models. Non-trivial: a load into a receiver that already held something else, or a failed load."
)
STATE_MEASURE = "(model, algorithm, scales, receiver history, fault) combinations"
REAL_COMPONENTS = ["irtorch models, algorithms, scales, save_model, load_model", "torch serialisation"]
SIM_COMPONENTS = ["system calls on files below the scratch root", "process death"]
ASSUMPTIONS = ["a damaged byte that torch.load does not notice is not irtorch's to notice"]
FAULTS = ["missing", "truncate", "empty", "flip", "eio", "kbi", "other", "other-items", "midway", "garbage"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    name = r.choice(list(zoo.MODELS))
    latent = r.choice([1, 1, 2])
    cycles = []
    for _ in range(r.choice([1, 2, 2, 3])):
        cycles.append({
            "algorithm": r.choice([None, "JML", "MML", "AE", "VAE"]), "missing": r.random() < 0.3, "epochs": r.choice([1, 2, 3]),
            "scales": [r.choice(zoo.SCALES) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))],
            "receiver": r.choice(["fresh", "fresh", "random", "fitted", "scaled", "previous", "self"]),
            "receiver_algorithm": r.choice(["JML", "MML", "AE", "VAE"]),
            "fault": r.choice([None, *FAULTS]) if r.random() < 0.75 else None, "pos": round(r.random(), 4), "die": r.random() < 0.5,
            "search": r.choice([None, None, None, "ML", "MAP"]), "one_hot": r.random() < 0.7, "imputation": r.choice(["zero", "mean"]), "bn": r.random() < 0.3,
            "option": r.randint(0, 11), "question": r.choice(list(ops.QUESTIONS)), "target": r.choice(["path", "path", "path", "Path", "buffer"]),
        })
    return {"seed": seed, "model": name, "latent": latent, "cycles": cycles, "buffer": r.choice([512, 8192])}


def shrinks(plan):
    yield from generic_shrinks(plan, ("cycles",), {"latent": 1})
    for i, c in enumerate(plan["cycles"]):
        for cand in generic_shrinks(c, ("scales",), {"epochs": 1, "bn": False, "one_hot": True, "option": 0, "target": "path", "missing": False}, ("algorithm", "fault")):
            yield {**plan, "cycles": plan["cycles"][:i] + [cand] + plan["cycles"][i + 1:]}
        if c["receiver"] != "fresh":
            yield {**plan, "cycles": plan["cycles"][:i] + [{**c, "receiver": "fresh"}] + plan["cycles"][i + 1:]}


def nontrivial(run: Run) -> bool:
    return bool(run.faults) or run.probes["used receiver"] > 0


def outcome(value, error):
    """Scores outside of what a scale transformation can handle may be refused. Then they have to be refused after loading as well."""
    return value if error is None else torch.tensor([float(ord(ch)) for ch in type(error).__name__])


def answers(run: Run, model, data, label: str, c: dict) -> dict:
    """What the model says about itself."""
    out = {}
    g = zoo.generator(("answers", run.plan["seed"]))
    theta = torch.randn(5, model.latent_variables, generator=g)
    with torch.no_grad():
        out["item_probabilities"] = run.call(f"{label}: item_probabilities", model.item_probabilities, theta)
        out["transform_theta"] = outcome(*run.attempt(model.transform_theta, theta.clone()))
    alg = type(model.algorithm).__name__
    search = c["search"]
    methods = ["EAP"] + ([search] if search else []) + (["NN"] if alg in ("AE", "VAE") else [])
    if model.algorithm is None:
        methods = ["ML"] if search else []
    for m in methods:
        torch.manual_seed(7)
        out[f"latent_scores {m}"] = outcome(*run.attempt(model.latent_scores, data.clone(), theta_estimation=m, device="cpu"))
    if model.algorithm is not None:
        out["history"] = torch.tensor([float(x) for x in model.algorithm.training_history["train_loss"]])
        t = getattr(model.algorithm, "training_theta_scores", None)
        if t is not None:
            out["training_theta_scores"] = t.detach()
        torch.manual_seed(run.plan["seed"])
        np.random.seed(run.plan["seed"] % 2**32)
        random.seed(run.plan["seed"])
        v, e = run.attempt(ops.ask, c["question"], ops.Ctx(model, data.clone(), torch.randn(len(data), model.latent_variables, generator=g)), run.plan["seed"])
        for i, x in enumerate([outcome(v, e)] if e is not None else ops.flatten(v)):
            out[f"question {c['question']} {i}"] = x.detach()
        for k in ("covariance_matrix", "item_means", "train_data"):
            t = getattr(model.algorithm, k, None)
            if t is not None:
                out[f"algorithm.{k}"] = t.detach().float()
    out["scales"] = torch.tensor([float(len(model.scale))])
    return out


def compare(run: Run, want: dict, got: dict, label: str) -> None:
    run.check_that(set(want) == set(got), "different-answers", f"{label}: answers {sorted(set(want) ^ set(got))} appeared or disappeared")
    for k in want:
        loose = k.startswith("question")
        run.check_that(zoo.same_tensor(want[k], got[k], rtol=1e-3 if loose else 1e-5, atol=1e-3 if loose else 1e-6), "different-answers", f"{label}: {k} differs after loading")


def picture(model):
    """Everything a failed load must leave alone."""
    return zoo.param_snapshot(model), model.algorithm, list(model.scale), [p.requires_grad for p in model.parameters()]


def same_picture(run: Run, model, before, label: str) -> None:
    state, algorithm, scale, grads = before
    run.check_that(zoo.same_state(state, zoo.param_snapshot(model)) is None, "failed-load-changed-model", f"{label}: a failed load changed the parameters")
    run.check_that(model.algorithm is algorithm, "failed-load-changed-model", f"{label}: a failed load changed the algorithm")
    run.check_that([id(s) for s in model.scale] == [id(s) for s in scale], "failed-load-changed-model", f"{label}: a failed load changed the scale transformations")
    run.check_that([p.requires_grad for p in model.parameters()] == grads, "failed-load-changed-model", f"{label}: a failed load changed requires_grad")


def execute(run: Run) -> None:
    plan = run.plan
    with disk(run) as w:
        cats = zoo.categories_of(plan["model"])
        w.fs.adopt()
        previous = None
        for k, c in enumerate(plan["cycles"]):
            cycle(run, w, k, c, cats, previous)
            previous = run.__dict__.pop("kept")


def build(run: Run, k, c, cats, tag):
    plan = run.plan
    model = zoo.make_model(plan["model"], plan["latent"], (plan["seed"], k, tag))
    return model, zoo.make_data(16, cats, (plan["seed"], k, tag), 0.1 if c["missing"] else 0.0)


def cycle(run: Run, w, k, c, cats, previous) -> None:
    plan = run.plan
    model, data = build(run, k, c, cats, "saved")
    torch.manual_seed(plan["seed"] % 2**31 + k)
    if c["algorithm"]:
        options = ops.fit_options({**c, "latent": model.latent_variables, "rows": len(data), "seed": plan["seed"] + k})
        run.call("fit", model.fit, data, zoo.make_algorithm(c["algorithm"]), **zoo.fit_kwargs(c["algorithm"], c["epochs"], **options))
    else:
        zoo.randomise(model, (plan["seed"], k))
    scales = zoo.scales_for(model, c["scales"])
    for j, s in enumerate(scales):
        model.add_scale_transformation(zoo.make_scale(s, model, (plan["seed"], k, j)))
    test = zoo.make_data(4, cats, (plan["seed"], k, "test"), 0.1 if c["missing"] else 0.0)
    path = os.path.join(w.fs.root, f"m{k}.pt")
    want = answers(run, model, test, f"saved model {k}", c)
    state = zoo.param_snapshot(model)
    buffer = None
    if c["target"] == "buffer":
        buffer = io.BytesIO()
        run.call("save_model", model.save_model, buffer)
        buffer.seek(0)
    run.call("save_model", model.save_model, pathlib.Path(path) if c["target"] == "Path" else path)
    run.check_that(zoo.same_state(state, zoo.param_snapshot(model)) is None, "save-changed-model", "saving changed the parameters")
    compare(run, want, answers(run, model, test, "after save", c), "the saved model itself")
    if c["die"]:
        run.fault("process-crash")
        w.main.dead = True
        reboot(w)

    receiver, rdata = build(run, k, c, cats, "receiver")
    kind = c["receiver"]
    if kind == "self":
        receiver = copy.deepcopy(model)
        zoo.randomise(receiver, (plan["seed"], k, "drift"))
    elif kind == "previous" and previous is not None:
        receiver = previous
    elif kind == "random":
        zoo.randomise(receiver, (plan["seed"], k, "other"))
    elif kind in ("fitted", "scaled"):
        run.call("fit", receiver.fit, rdata, zoo.make_algorithm(c["receiver_algorithm"]), **zoo.fit_kwargs(c["receiver_algorithm"], 1))
        if kind == "scaled":
            receiver.add_scale_transformation(zoo.make_scale("reverse", receiver, k))
            receiver.add_scale_transformation(zoo.make_scale("rank", receiver, k))
        receiver.evaluate  # noqa: B018
    if kind != "fresh":
        run.probe("used receiver")
    run.state(plan["model"], receiver.latent_variables, c["algorithm"], ",".join(scales), kind, c["fault"])
    run.ev("cycle", k, c["algorithm"], scales, kind, c["fault"])

    if c["fault"]:
        fail(run, w, k, c, path, receiver)
    run.call("load_model", receiver.load_model, buffer if buffer is not None else pathlib.Path(path) if c["target"] == "Path" else path)
    run.check_that(zoo.same_state(state, zoo.param_snapshot(receiver)) is None, "different-parameters", f"cycle {k}: the loaded parameters are not the saved ones")
    got_alg = None if receiver.algorithm is None else type(receiver.algorithm).__name__
    run.check_that(got_alg == c["algorithm"], "different-algorithm", f"cycle {k}: {c['algorithm']} was saved, {got_alg} is there after loading")
    run.check_that([type(s) for s in receiver.scale] == [type(s) for s in model.scale], "different-scales",
                   f"cycle {k}: scales {[type(s).__name__ for s in model.scale]} were saved, {[type(s).__name__ for s in receiver.scale]} are there after loading")
    compare(run, want, answers(run, receiver, test, f"loaded model {k}", c), f"cycle {k}")
    # the file does not tie the two models together
    zoo.randomise(model, (plan["seed"], k, "later"))
    run.check_that(zoo.same_state(state, zoo.param_snapshot(receiver)) is None, "shared-parameters", f"cycle {k}: the loaded model shares parameters with the saved one")
    run.kept = receiver


def fail(run: Run, w, k, c, path, receiver) -> None:
    """A load that meets trouble."""
    fault = c["fault"]
    before = picture(receiver)
    bad = os.path.join(w.fs.root, f"bad{k}.pt")
    with REAL["io_open"](path, "rb") as fh:
        content = fh.read()
    must_fail = True
    hook = None
    proc = w.main
    if fault == "missing":
        run.fault("file-missing")
    elif fault in ("truncate", "empty", "flip", "garbage"):
        run.fault(f"file-{fault}")
        n = int(c["pos"] * (len(content) - 1))
        damaged = {"truncate": content[:n], "empty": b"", "garbage": b"\x80\x02garbage" * 9, "flip": content[:n] + bytes([content[n] ^ 0x20]) + content[n + 1:]}[fault]
        must_fail = fault != "flip"
        with REAL["io_open"](bad, "wb") as fh:
            fh.write(damaged)
    elif fault in ("other", "other-items"):
        run.fault("file-of-other-model")
        import irtorch.models as M
        if fault == "other":
            other = zoo.make_model("gpc" if run.plan["model"] != "gpc" else "mononn", 1, k)
        else:
            other = M.NominalResponse(latent_variables=1, item_categories=[5, 3, 3, 3, 3])
        run.call("save_model", other.save_model, bad)
        must_fail = {n: v.shape for n, v in other.state_dict().items()} != {n: v.shape for n, v in receiver.state_dict().items()}
    else:
        with REAL["io_open"](bad, "wb") as fh:
            fh.write(content)
        if fault in ("eio", "kbi"):
            # count the reads of a load first
            probe = copy.deepcopy(receiver)
            start = proc.ops
            run.call("load_model", probe.load_model, bad)
            n = proc.ops - start
            proc.faults = [{"at": proc.ops + int(c["pos"] * n), "kind": fault}]
        elif fault == "midway":
            modules = list(receiver.modules())
            target = modules[min(len(modules) - 1, int(c["pos"] * len(modules)))]
            armed = [True]

            def interrupt(*_):
                if armed[0]:
                    armed[0] = False
                    run.fault("interrupt")
                    raise KeyboardInterrupt()

            hook = target.register_load_state_dict_pre_hook(interrupt)
    fired_before = sum(run.faults.values())
    result, error = as_process(w, lambda: receiver.load_model(bad))
    proc.faults = []
    if hook is not None:
        hook.remove()
    if fault in ("eio", "kbi", "midway"):
        must_fail = sum(run.faults.values()) > fired_before
    run.ev("failed load", fault, result, type(error).__name__)
    run.state("load", fault, result)
    if result == "ok":
        if must_fail:
            raise Violation("silent-failure", f"cycle {k}: loading a file with fault {fault} raised nothing")
        if fault == "flip":
            receiver.load_state_dict(before[0])
            receiver.algorithm, receiver.scale = before[1], before[2]
        return
    if not must_fail and fault not in ("flip",):
        raise Violation("unexpected-exception", f"cycle {k}: load_model raised {describe(error)} without cause")
    same_picture(run, receiver, before, f"cycle {k} ({fault})")
