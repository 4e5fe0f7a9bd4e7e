"""C20: a figure shows what the model answers, whenever it is asked for."""
from __future__ import annotations
import copy
import random

import numpy as np
import torch

from .. import ops, zoo
from ..common import disk, numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..torchops import Injected, Ops
from .c14 import CHANGES, change

ID = "C20"
QUICK_RUNS = 500
MIN_RUNS = 60
LEVEL = "exploration"
TECHNIQUE = "seeded histories of fits, rescaling, loads, questions and interrupted plots; the points of every figure compared with what a copy of the model answers at the plotted scores"
LEVEL_NOTE = (
    "Sampled histories of up to 10 steps over the 9 plotting methods and 7 kinds of change of the model, models with 1-3 latent variables and up to two scales. "
    "About a quarter of the plots are interrupted at a tensor operation and asked for again. All points of every figure are compared to 1e-3."
)
RULE = (
    "One case is a fitted model and a history of plots with their arguments, other questions and changes. Non-trivial: two figures were compared, one of them after a change, an interrupt or another question."
)
STATE_MEASURE = "(plot, number of latent variables, scales, last change) combinations"
REAL_COMPONENTS = ["irtorch plotter, models, evaluator, scales, algorithms", "plotly figures"]
SIM_COMPONENTS = ["failing allocations and interrupts at torch operations", "disk (healthy)"]
ASSUMPTIONS = ["points that differ by less than 1e-3 are the same", "points whose scores are all at the lowest value of the plotted scale may be shown once"]

NAMES = list(ops.PLOT_ARGS)


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    names = [n for n in zoo.SPECS if not n.endswith("-long")]
    f = ops.gen_fitted(r, names=names + ["2pl-wide", "gpc-wide", "gpc", "nominal"])
    f["latent"] = min(zoo.SPECS[f["model"]][1], r.choice([1, 2, 3]))
    steps = []
    for _ in range(r.choice([3, 5, 6] if tier == "quick" else [6, 8, 10])):
        k = r.random()
        if k < 0.25:
            steps.append({"do": r.choice(CHANGES), "seed": r.randint(0, 10**6)})
        elif k < 0.35:
            steps.append({"do": "ask", "q": r.choice(["item_probabilities", "information", "latent_scores", "transform_theta", "log_likelihood"]), "seed": r.randint(0, 10**6)})
        else:
            steps.append({"do": "plot", "q": r.choice(NAMES), "seed": r.randint(0, 10**6), "at": int(10 ** r.uniform(0, 2)) if r.random() < 0.25 else None, "kind": r.choice(Injected.KINDS)})
    return {"seed": seed, "fitted": f, "steps": steps}


def shrinks(plan):
    steps = plan["steps"]
    for i in range(len(steps)):
        yield {**plan, "steps": steps[:i] + steps[i + 1:]}
    for i, s in enumerate(steps):
        if s.get("at") is not None:
            yield {**plan, "steps": steps[:i] + [{**s, "at": None}] + steps[i + 1:]}
    for f in ops.shrink_fitted(plan["fitted"]):
        yield {**plan, "fitted": f}


def nontrivial(run: Run) -> bool:
    return run.probes["compared"] >= 2 and run.probes["changes"] + run.probes["asked"] + sum(run.faults.values()) > 0


# -- what a figure should show, from the documentation of its arguments ---------------------------------------------------
def grid(model, a: dict):
    """Latent scores to evaluate, on the original scale."""
    d = model.latent_variables
    shown = [v - 1 for v in a["latent_variables"]]
    others = [i for i in range(d) if i not in shown]
    new = bool(a["rescale"] and len(model.scale) and all(s.invertible for s in model.scale))
    training = model.algorithm.training_theta_scores
    ranges = [a.get("theta_range"), a.get("second_theta_range")][:len(shown)]
    if training is None:
        new = new and any(x is not None for x in ranges)
    else:
        training = model.transform_theta(training) if new else training
    points = torch.zeros(a["steps"] ** len(shown), d)
    axes = []
    for i, x in zip(shown, ranges):
        if x is None:
            x = (-3.0, 3.0) if training is None else (float(training[:, i].min()), float(training[:, i].max()))
        axes.append(torch.linspace(*x, a["steps"]))
    if len(shown) == 1:
        points[:, shown[0]] = axes[0]
    else:
        points[:, shown[0]] = axes[0].repeat_interleave(a["steps"])
        points[:, shown[1]] = axes[1].repeat(a["steps"])
    if others:
        fixed = a.get("fixed_thetas")
        if fixed is None:
            if training is not None:
                fixed = torch.stack([training[:, i].median() for i in others])
            else:
                zero = torch.zeros(1, d)
                fixed = (model.transform_theta(zero) if new else zero)[0, others]
        points[:, others] = fixed.float()
    return model.inverse_transform_theta(points) if new else points


def along(model, a: dict, theta):
    """What to show on the axes of the latent variables."""
    shown = [v - 1 for v in a["latent_variables"]]
    return (model.transform_theta(theta) if a["rescale"] and len(model.scale) else theta)[:, shown]


def entropies(model, a, theta):
    p = model.item_probabilities(theta)[:, a["item"] - 1, :]
    return -(p * torch.where(p > 0, p, torch.ones(())).log2()).sum(dim=1)


def log_likelihoods(model, a, theta):
    own = model.evaluate.log_likelihood(a["data"].repeat(len(theta), 1), theta, reduction="none")
    return own[:, [i - 1 for i in a["items"]]].sum(dim=1) if a.get("items") else own.sum(dim=1)


def informations(model, a, theta):
    how = {"degrees": a.get("degrees"), "rescale": a["rescale"]}
    if a.get("items"):
        return model.information(theta, item=True, **how)[:, [i - 1 for i in a["items"]]].sum(dim=1)
    return model.information(theta, item=False, **how)


def sum_scores(model, a, theta):
    if a.get("items"):
        return model.expected_scores(theta, return_item_scores=True)[:, [i - 1 for i in a["items"]]].sum(dim=1)
    return model.expected_scores(theta, return_item_scores=False)


CURVES = {"item_entropy": entropies, "log_likelihood": log_likelihoods, "information": informations, "expected_sum_score": sum_scores}


@torch.no_grad()
def check(run: Run, model, name: str, a: dict, fig, seed: int, label: str) -> None:
    shown = [t for t in ops.traces(fig) if t and not any(v.dim() == 0 for k, v in t.items() if k in ("y", "z"))]
    if name in CURVES:
        theta = grid(model, a)
        y = CURVES[name](model, a, theta)
        x = model.expected_scores(theta, return_item_scores=False).unsqueeze(1) if a.get("expected_sum_score") else along(model, a, theta)
        expect(len(shown) == 1, label, f"{len(shown)} curves or surfaces")
        curve(label, shown[0], x, y, a["steps"])
    elif name == "item_probabilities":
        theta = grid(model, a)
        x, item = along(model, a, theta), a["item"] - 1
        cats = int(model.item_categories[item])
        if a.get("plot_derivative"):
            y = model.probability_gradients(theta, a["rescale"])[:, item, :cats, a["latent_variables"][0] - 1]
        else:
            y = model.item_probabilities(theta)[:, item, :cats]
        shown = [t for t in shown if t["x"].numel() > 1 or not t["x"].isnan().all()]
        groups = []
        if a.get("plot_group_fit"):
            expect(len(shown) == 3 * cats, label, f"{len(shown)} sets of points for {cats} categories and their groups")
            data, own, means = model.evaluate.latent_group_probabilities(
                data=a["group_fit_data"], theta=a["group_fit_population_theta"], rescale=a["rescale"], latent_variable=1, groups=a["group_fit_groups"])
            for k in range(cats):
                groups += [(shown[3 * k + 1], means, data[:, item, k], f"data, category {k}"), (shown[3 * k + 2], means, own[:, item, k], f"model, category {k}")]
            shown = shown[::3]
        expect(len(shown) == cats, label, f"{len(shown)} curves or surfaces for {cats} categories")
        for k in range(cats):
            curve(f"{label}, category {k}", shown[k], x, y[:, k], a["steps"])
        for t, gx, gy, what in groups:
            same(f"{label}, groups of the {what}", t["x"], gx.flatten())
            same(f"{label}, groups of the {what}", t["y"], gy.flatten())
    elif name == "latent_score_distribution":
        a = dict(a)
        scores = a.pop("scores_to_plot", None)
        which = [v - 1 for v in a.pop("latent_variables")]
        if scores is None:
            data = a.pop("population_data", None)
            seeds(seed)
            scores = model.latent_scores(data=model.algorithm.train_data if data is None else data, **a)
        scores = scores[:, which]
        if len(which) == 1:
            same(label, shown[0]["x"], scores.flatten())
        else:
            s = scores.double().numpy()
            bins = int(np.log2(len(s))) + 1
            h, ex, ey = np.histogram2d(*scores.numpy().T, bins=bins, density=True)
            same(label, shown[0]["x"], torch.tensor((ex[:-1] + ex[1:]) / 2))
            same(label, shown[0]["y"], torch.tensor((ey[:-1] + ey[1:]) / 2))
            same(label, shown[0]["z"], torch.tensor(h.T))
    elif name == "training_history":
        for t, key in zip(shown, ("train_loss", "validation_loss")):
            loss = model.algorithm.training_history[key]
            same(label, t["y"], torch.tensor(loss, dtype=torch.float64))
            same(label, t["x"], torch.arange(1.0, len(loss) + 1))
    elif name == "item_latent_variable_relationships":
        theta = a.get("theta", model.algorithm.training_theta_scores)
        same(label, [t["z"] for t in ops.traces(fig) if "z" in t][0], model.expected_item_score_gradients(theta).mean(dim=0))
    elif name == "scale_transformations":
        v = a["input_latent_variable"]
        theta = grid(model, {"latent_variables": (v,), "rescale": False, "steps": a["steps"], "theta_range": a.get("input_theta_range"), "fixed_thetas": a.get("fixed_thetas")})
        x = model.transform_theta(theta)
        expect(len(shown) == model.latent_variables, label, f"{len(shown)} curves for {model.latent_variables} latent variables")
        for i, t in enumerate(shown):
            same(f"{label}, latent variable {i + 1}", t["x"], theta[:, v - 1])
            same(f"{label}, latent variable {i + 1}", t["y"], x[:, i])
    run.probe("compared")


def curve(label: str, t: dict, x, y, steps: int) -> None:
    x, y = x.double(), y.double().flatten()
    if x.shape[1] == 2:
        expect(t["z"].numel() == len(y), label, f"{t['z'].numel()} points, {len(y)} expected")
        square = lambda v: v.reshape(steps, steps)                    # noqa: E731
        want = (square(x[:, 0]), square(x[:, 1]), square(y))
        bad = None
        for turn in (False, True):
            bad = next((b for k, w in zip("xyz", want) if (b := off(t[k].reshape(steps, steps), w.T if turn else w)) is not None), None)
            if bad is None:
                return
        raise Violation("wrong-figure", f"{label}: {bad}")
    x = x.flatten()
    n, m = len(x), len(t["x"])
    expect(len(t["y"]) == m and 0 < m <= n, label, f"{m} points, {n} expected")
    bad = None
    for o in range(n - m + 1):
        bad = off(t["x"], x[o:o + m]) or off(t["y"], y[o:o + m])
        if bad is None:
            step = x[1:] - x[:-1]
            if not (step >= 0).all() and not (step <= 0).all():         # a scale that turns: the curve may start at its lowest point
                return
            left = torch.cat([x[:o], x[o + m:]])
            expect(not len(left) or bool(((left - x.min()).abs() < 1e-3).all()), label, f"points at {left.tolist()} are missing")
            expect(bool((t["x"] - x.min()).abs().min() < 1e-3), label, f"the point at {float(x.min()):.4g} is missing")
            return
    raise Violation("wrong-figure", f"{label}: {bad}" if m == n else f"{label}: the {m} points shown are not among those requested")


def off(got, want) -> str | None:
    return ops.differs(got.double(), want.double(), rtol=2e-3, atol=1e-3)


def same(label, got, want) -> None:
    bad = off(got, want)
    if bad is not None:
        raise Violation("wrong-figure", f"{label}: {bad}")


def expect(ok: bool, label: str, text: str) -> None:
    if not ok:
        raise Violation("wrong-figure", f"{label}: {text}")


# -- running ---------------------------------------------------------------------------------------------------------------
def seeds(seed: int) -> None:
    torch.manual_seed(seed)
    random.seed(seed)
    np.random.seed(seed)


def draw(model, name: str, a: dict, seed: int):
    seeds(seed)
    return getattr(model.plot, name)(**a)


def usable(model, name: str) -> bool:
    return ops.sound(model) and not (name == "training_history" and not any(model.algorithm.training_history.values()) or name == "scale_transformations" and not model.scale)


def execute(run: Run) -> None:
    plan = run.plan
    f = plan["fitted"]
    with disk(run) as w:
        try:
            model, data = ops.build(f)
        except Exception as e:  # noqa: BLE001
            if numeric_failure(e) or isinstance(e, NotImplementedError):
                run.probe("diverged fit")
                return
            raise Violation("unexpected-exception", f"fitting raised {describe(e)}") from e
        c = ops.context(f, model, data)
        last = "none"
        for i, s in enumerate(plan["steps"]):
            try:
                if s["do"] == "ask":
                    seeds(s["seed"])
                    ops.ask(s["q"], c, s["seed"])
                    run.probe("asked")
                    continue
                if s["do"] != "plot":
                    change(run, w, c, s)
                    model = c.model
                    run.probe("changes")
                    last = s["do"]
                    continue
            except Exception as e:  # noqa: BLE001
                if numeric_failure(e) or isinstance(e, NotImplementedError):
                    run.probe("refused")
                    continue
                raise Violation("unexpected-exception", f"step {i}, {s['do']} raised {describe(e)}") from e
            if not usable(model, s["q"]):
                continue
            figure(run, model, c, s, i)
            run.state(s["q"], model.latent_variables, len(model.scale), last)


def figure(run: Run, model, c, s, i) -> None:
    label = f"step {i}, {s['q']}"
    given = ops.PLOT_ARGS[s["q"]](c, random.Random(f"plot/{s['seed']}"))
    a = {k: v.clone() if isinstance(v, torch.Tensor) else v for k, v in given.items()}
    reference = copy.deepcopy(model)
    if s["at"] is not None:
        with Ops(s["at"], s["kind"], run) as m:
            run.attempt(draw, model, s["q"], given, s["seed"])
        run.ev("interrupted", s["q"], m.where)
    try:
        fig = draw(model, s["q"], given, s["seed"])
    except Exception as e:  # noqa: BLE001
        if numeric_failure(e) or isinstance(e, NotImplementedError):
            run.probe("refused")
            return
        raise Violation("unexpected-exception", f"{label} raised {describe(e)}") from e
    run.ev("figure", s["q"], len(fig.data))
    try:
        check(run, reference, s["q"], a, fig, s["seed"], f"{label} {words(a)}")
    except Exception as e:  # noqa: BLE001
        if isinstance(e, Violation):
            raise
        if numeric_failure(e) or isinstance(e, NotImplementedError):
            run.probe("refused")
            return
        raise Violation("unexpected-exception", f"{label}: what the figure shows cannot be computed: {describe(e)}") from e


def words(a: dict) -> str:
    return str({k: (tuple(v.shape) if v.numel() > 3 else v.tolist()) if isinstance(v, torch.Tensor) else v for k, v in a.items()})
