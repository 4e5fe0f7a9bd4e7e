"""Questions a user asks of a fitted model, through the public interface. Each is a function of a context and a parameter generator."""
from __future__ import annotations
import random

import pandas as pd
import torch

from . import zoo


class Ctx:
    """What a question is about: a fitted model, responses and latent scores on the original scale."""

    def __init__(self, model, data, theta):
        self.model, self.data, self.theta = model, data, theta

    @property
    def neural(self) -> bool:
        return hasattr(self.model.algorithm, "encoder")


def latent_scores(c, r):
    how = r.choice(["EAP", "EAP", "EAP", "ML", "MAP"] + (["NN"] * 4 if c.neural else []))
    se = how in ("ML", "NN") and r.random() < 0.5
    extra = {"eap_theta_integration_points": r.choice([None, 9, 15])} if how == "EAP" else {}
    return c.model.latent_scores(c.data, standard_errors=se, theta_estimation=how, device="cpu", rescale=r.random() < 0.6, **extra)


def latent_scores_fast(c, r):
    how = r.choice(["EAP"] + (["NN"] if c.neural else []))
    return c.model.latent_scores(c.data, theta_estimation=how, device="cpu", rescale=r.random() < 0.6)


def probabilities(c, r):
    return c.model.item_probabilities(c.theta)


def expected(c, r):
    return c.model.expected_scores(c.theta, return_item_scores=r.random() < 0.5)


def information(c, r):
    degrees = [r.choice([0, 30, 90]) for _ in range(c.model.latent_variables)] if c.model.latent_variables > 1 and r.random() < 0.4 else None
    return c.model.information(c.theta[:5], item=r.random() < 0.5, degrees=degrees, rescale=r.random() < 0.5)


def score_gradients(c, r):
    return c.model.expected_item_score_gradients(c.theta[:5], rescale_by_item_score=r.random() < 0.5, rescale=r.random() < 0.5)


def probability_gradients(c, r):
    return c.model.probability_gradients(c.theta[:5], rescale=r.random() < 0.5)


def directions(c, r):
    return c.model.item_theta_relationship_directions(c.theta)


def difficulty(c, r):
    return c.model.population_difficulty(c.theta)


def discrimination(c, r):
    return c.model.population_discrimination(c.theta[:5], rescale=r.random() < 0.5)


def sample(c, r):
    return c.model.sample_test_data(c.theta)


def transform(c, r):
    return c.model.transform_theta(c.theta)


def inverse(c, r):
    return c.model.inverse_transform_theta(c.model.transform_theta(c.theta[:6]))


def jacobian(c, r):
    return c.model.theta_transform_jacobian(c.theta[:5])


def _given(c, r):
    """Supplied latent scores, or how to get them. With or without data of one's own."""
    out = {}
    k = r.random()
    if k < 0.5:
        out["data"], out["theta"] = c.data, c.theta
    elif k < 0.8:
        out.update(data=c.data, theta_estimation="NN" if c.neural and r.random() < 0.5 else "EAP", device="cpu")
    else:
        out.update(theta_estimation="NN" if c.neural and r.random() < 0.5 else "EAP", device="cpu")
    return out


def residuals(c, r):
    return c.model.evaluate.residuals(average_over=r.choice(["none", "items", "respondents", "everything"]), **_given(c, r))


def group_residuals(c, r):
    g = _given(c, r)
    g.pop("device", None)
    return c.model.evaluate.group_fit_residuals(
        latent_variable=r.randint(1, c.model.latent_variables), standardize=r.random() < 0.5, groups=r.choice([2, 3]), rescale=r.random() < 0.5, **g)


def accuracy(c, r):
    return c.model.evaluate.accuracy(level=r.choice(["all", "item", "respondent"]), **_given(c, r))


def predictions(c, r):
    return c.model.evaluate.predictions(**_given(c, r))


def infit(c, r):
    return c.model.evaluate.infit_outfit(level=r.choice(["item", "respondent"]), **_given(c, r))


def log_likelihood(c, r):
    return c.model.evaluate.log_likelihood(reduction=r.choice(["sum", "mean", "none"]), level=r.choice(["all", "item", "respondent"]), **_given(c, r))


def group_log_likelihood(c, r):
    return c.model.evaluate.group_fit_log_likelihood(groups=r.choice([2, 3]), latent_variable=r.randint(1, c.model.latent_variables), **_given(c, r))


def group_probabilities(c, r):
    g = _given(c, r)
    g.pop("device", None)
    return c.model.evaluate.latent_group_probabilities(groups=r.choice([2, 3]), latent_variable=r.randint(1, c.model.latent_variables), rescale=r.random() < 0.5, **g)


def mutual_information(c, r):
    if c.model.items < 2:
        raise NotImplementedError("no pairs of items")
    return c.model.evaluate.mutual_information_difference(sample_hypothesis_test=r.random() < 0.4, samples=3, **_given(c, r))


def q3(c, r):
    if c.model.items < 2:
        raise NotImplementedError("no pairs of items")
    return c.model.evaluate.q3(sample_hypothesis_test=r.random() < 0.4, samples=3, **_given(c, r))


def sum_scores(c, r):
    how = r.choice(["data", "qmvn"] + (["encoder sampling"] if type(c.model.algorithm).__name__ == "VAE" else []))
    own = c.neural and r.random() < 0.5
    return c.model.evaluate.sum_score_probabilities(
        latent_density_method=how, population_data=c.data if own else None, trapezoidal_segments=r.choice([10, 25]), sample_size=20)


def density(c, r):
    c.model.evaluate.approximate_latent_density(c.theta, approximation="qmvn")
    return c.model.evaluate.latent_density.pdf(c.theta[:5])


def impute(c, r):
    from irtorch.utils import impute_missing
    method = r.choice(["zero", "mean", "random incorrect" if c.model.mc_correct is not None else "prior expected"])
    return impute_missing(c.data, method=method, model=c.model)


def split(c, r):
    from irtorch.utils import split_data
    return split_data(c.data, r.choice([0.5, 0.8]), shuffle=r.random() < 0.8)


def vigorish(c, r):
    from irtorch.utils import imv
    return imv(c.model, c.model, c.data, c.theta, c.theta + 0.3)


def save(c, r):
    import io
    buf = io.BytesIO()
    torch.save({k: v.clone() for k, v in c.model.state_dict().items()}, buf)
    return c.model.state_dict()


# -- plots ---------------------------------------------------------------------------------------------------------------
def _axes(c, r, two=0.35) -> dict:
    """What to plot: one or two latent variables, ranges, the values of the others."""
    d = c.model.latent_variables
    n = 2 if d > 1 and r.random() < two else 1
    which = r.sample(range(1, d + 1), n)
    out = {"latent_variables": tuple(which), "steps": r.choice([4, 7]) if n == 1 else 3, "rescale": r.random() < 0.7}
    if r.random() < 0.5:
        lo = round(r.uniform(-2.5, 0.5), 2)
        out["theta_range"] = (lo, round(lo + r.uniform(0.5, 2.5), 2))
    if n == 2 and r.random() < 0.5:
        lo = round(r.uniform(-2.5, 0.5), 2)
        out["second_theta_range"] = (lo, round(lo + r.uniform(0.5, 2.5), 2))
    if d > n and r.random() < 0.4:
        out["fixed_thetas"] = torch.tensor([round(r.uniform(-1, 1), 2) for _ in range(d - n)])
    return out


def _items(c, r, most=None) -> list[int]:
    return sorted(r.sample(range(1, c.model.items + 1), r.randint(1, most or c.model.items)))


def args_training_history(c, r):
    return {}


def args_latent_score_distribution(c, r):
    d = c.model.latent_variables
    out = {"latent_variables": tuple(r.sample(range(1, d + 1), r.randint(1, min(d, 2)))), "rescale": r.random() < 0.7}
    k = r.random()
    if k < 0.3:
        out["scores_to_plot"] = c.theta
    else:
        out.update(theta_estimation="NN" if c.neural and r.random() < 0.5 else "EAP", device="cpu")
        if k < 0.7:
            out["population_data"] = c.data
    return out


def args_item_entropy(c, r):
    return {"item": r.randint(1, c.model.items), **_axes(c, r)}


def args_log_likelihood(c, r):
    out = {"data": c.data[r.randrange(len(c.data))].reshape(1, -1), **_axes(c, r)}
    if r.random() < 0.3:
        out["items"] = _items(c, r)
    if len(out["latent_variables"]) == 1 and r.random() < 0.3:
        out["expected_sum_score"] = True
    return out


def args_relationships(c, r):
    return {"theta": c.theta} if c.model.algorithm.training_theta_scores is None or r.random() < 0.5 else {}


def args_item_probabilities(c, r):
    out = {"item": r.randint(1, c.model.items), **_axes(c, r)}
    if len(out["latent_variables"]) == 1:
        if r.random() < 0.25:
            out["plot_derivative"] = True
        if c.model.latent_variables == 1 and r.random() < 0.4:
            out.update(plot_group_fit=True, group_fit_groups=r.choice([2, 3]), group_fit_data=c.data, group_fit_population_theta=c.theta)
    if r.random() < 0.2:
        out["grayscale"] = True
    return out


def args_information(c, r):
    out = _axes(c, r)
    if c.model.latent_variables > 1 or r.random() < 0.2:
        out["degrees"] = [r.choice([0, 30, 90]) for _ in range(c.model.latent_variables)]
    if r.random() < 0.4:
        out["items"] = _items(c, r)
    return out


def args_expected_sum_score(c, r):
    out = _axes(c, r)
    if r.random() < 0.5:
        out["items"] = _items(c, r)
    return out


def args_scale_transformations(c, r):
    d = c.model.latent_variables
    out = {"input_latent_variable": r.randint(1, d), "steps": r.choice([4, 7])}
    if r.random() < 0.5:
        out["input_theta_range"] = (round(r.uniform(-2, 0), 2), round(r.uniform(0.5, 2), 2))
    if d > 1 and r.random() < 0.4:
        out["fixed_thetas"] = torch.tensor([round(r.uniform(-1, 1), 2) for _ in range(d - 1)])
    return out


PLOT_ARGS = {
    "training_history": args_training_history, "latent_score_distribution": args_latent_score_distribution, "item_entropy": args_item_entropy,
    "log_likelihood": args_log_likelihood, "item_latent_variable_relationships": args_relationships, "item_probabilities": args_item_probabilities,
    "information": args_information, "expected_sum_score": args_expected_sum_score, "scale_transformations": args_scale_transformations,
}


def sound(model) -> bool:
    """Whether a model, after what training did to it, has probabilities (see C19) and finite scores."""
    line = torch.linspace(-4, 4, 17).unsqueeze(1).repeat(1, model.latent_variables)
    with torch.no_grad():
        p = model.item_probabilities(line)
        return bool(p.isfinite().all() and p.min() > -1e-6 and model.transform_theta(line).isfinite().all())


def _plot(name):
    def question(c, r):
        if name == "training_history" and not any(c.model.algorithm.training_history.values()) or name == "scale_transformations" and not c.model.scale:
            raise NotImplementedError("nothing to plot")
        try:
            return getattr(c.model.plot, name)(**PLOT_ARGS[name](c, r))
        except Exception as e:
            if not sound(c.model):
                raise NotImplementedError("probabilities of the model are no probabilities") from e
            raise
    return question


def traces(fig) -> list[dict]:
    """The numbers a figure shows."""
    import numpy as np
    out = []
    for trace in fig.data:
        one = {}
        for k in ("x", "y", "z"):
            v = getattr(trace, k, None)
            if v is None:
                continue
            try:
                one[k] = torch.tensor(np.asarray([float("nan") if e is None else e for e in v] if not isinstance(v, np.ndarray) else v, dtype="float64"))
            except (TypeError, ValueError):
                one[k] = torch.tensor(float(len(v)))            # labels
        out.append(one)
    return out


QUESTIONS = {
    "latent_scores": latent_scores, "item_probabilities": probabilities, "expected_scores": expected, "information": information,
    "expected_item_score_gradients": score_gradients, "probability_gradients": probability_gradients, "item_theta_relationship_directions": directions,
    "population_difficulty": difficulty, "population_discrimination": discrimination, "sample_test_data": sample, "transform_theta": transform,
    "inverse_transform_theta": inverse, "theta_transform_jacobian": jacobian, "residuals": residuals, "group_fit_residuals": group_residuals,
    "accuracy": accuracy, "predictions": predictions, "infit_outfit": infit, "log_likelihood": log_likelihood,
    "group_fit_log_likelihood": group_log_likelihood, "latent_group_probabilities": group_probabilities,
    "mutual_information_difference": mutual_information, "q3": q3, "sum_score_probabilities": sum_scores, "impute_missing": impute, "split_data": split,
    "imv": vigorish,
}
PLOTS = {f"plot.{name}": _plot(name) for name in PLOT_ARGS}
QUESTIONS.update(PLOTS)
STORES = {"approximate_latent_density": density}       # documented to keep its result


def ask(name: str, c: Ctx, seed):
    """Ask a question with parameters that depend on the seed alone."""
    return (QUESTIONS.get(name) or STORES[name])(c, random.Random(f"ask/{name}/{seed}"))


def flatten(v) -> list[torch.Tensor]:
    if v is None:
        return []
    if isinstance(v, torch.Tensor):
        return [v.detach()]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in flatten(x)]
    if isinstance(v, dict):
        return [t for k in sorted(v) for t in flatten(v[k])]
    if isinstance(v, (pd.DataFrame, pd.Series)):
        frame = v if isinstance(v, pd.DataFrame) else v.to_frame()
        return [torch.tensor(frame.apply(pd.to_numeric, errors="coerce").to_numpy(dtype="float64"))]
    if isinstance(v, (int, float)):
        return [torch.tensor(float(v))]
    if hasattr(v, "data") and hasattr(v, "layout"):
        return [t for one in traces(v) for k in sorted(one) for t in [one[k]]]
    raise TypeError(type(v))


def differs(a, b, rtol=1e-3, atol=1e-4) -> str | None:
    x, y = flatten(a), flatten(b)
    if len(x) != len(y):
        return f"{len(x)} tensors, {len(y)} expected"
    for i, (s, t) in enumerate(zip(x, y)):
        if s.shape != t.shape:
            return f"shape {tuple(s.shape)}, {tuple(t.shape)} expected"
        s, t = s.double(), t.double()
        s, t = s.nan_to_num(nan=-777.0, posinf=1e30, neginf=-1e30), t.nan_to_num(nan=-777.0, posinf=1e30, neginf=-1e30)
        if not torch.allclose(s, t, rtol=rtol, atol=atol):
            k = (s - t).abs().argmax()
            return f"{s.reshape(-1)[k].item():.6g}, {t.reshape(-1)[k].item():.6g} expected"
    return None


# -- fitted models ---------------------------------------------------------------------------------------------------
FIT_ALGORITHMS = ("JML", "MML", "AE", "VAE", "MML")


def gen_fitted(r, scales=True, algorithms=FIT_ALGORITHMS, names=None) -> dict:
    name = r.choice(names or list(zoo.MODELS))
    latent = r.choice([1, 1, 2])
    algorithm = r.choice(algorithms)
    return {
        "model": name, "latent": min(latent, zoo.SPECS[name][1]), "algorithm": algorithm, "rows": r.choice([9, 14, 20]), "epochs": r.choice([1, 2, 3]),
        "missing": r.choice([None, None, "nan", "-1"]), "seed": r.randint(0, 10**6),
        "scales": r.sample(["reverse", "rank", "rotate", "flow", "link", "bit"], r.choice([0, 0, 1, 1, 2])) if scales else [],
        "one_hot": r.random() < 0.8, "imputation": r.choice(["zero", "mean"]), "bn": r.random() < 0.2,
        "option": r.randint(0, 11),
    }


def fit_options(f: dict) -> dict:
    """Settings of a fit."""
    option = f.get("option", 0)
    g = zoo.generator(("options", f["seed"], option))
    if f["algorithm"] == "MML":
        out = {}
        if option % 3 == 1:
            out["integration_method"] = "gauss_hermite"
        if option % 4 >= 2:
            a = torch.randn(f["latent"], f["latent"], generator=g) * 0.6
            out["covariance_matrix"] = torch.eye(f["latent"]) * 0.7 + a @ a.T
        return out
    if f["algorithm"] == "JML":
        return {"start_thetas": torch.randn(f["rows"], f["latent"], generator=g)} if option % 4 == 3 else {"batch_size": 5} if option % 4 == 2 else {}
    out = {"batch_normalization_encoder": True} if f.get("bn") else {}
    if option % 3 == 1:
        out["hidden_layers_encoder"] = [[8, 5], [6, 1], [7, 3, 2]][option // 3 % 3]
    if not f.get("one_hot", True):
        return {**out, "one_hot_encoded": False, "imputation_method": f.get("imputation", "zero")}
    return {**out, "imputation_method": "mean"} if f.get("imputation") == "mean" else out


def build(f: dict):
    """A fitted model with its training data. Depends on the description alone."""
    with torch.random.fork_rng():
        torch.manual_seed(f["seed"])
        model = zoo.make_model(f["model"], f["latent"], f["seed"])
        data = zoo.make_data(f["rows"], zoo.categories_of(f["model"]), f["seed"], 0.12 if f["missing"] else 0.0, f["missing"] or "nan")
        model.fit(data.clone(), zoo.make_algorithm(f["algorithm"]), **zoo.fit_kwargs(f["algorithm"], f["epochs"], **fit_options(f)))
        for s in zoo.scales_for(model, f["scales"]):
            model.add_scale_transformation(zoo.make_scale(s, model, f["seed"]))
    return model, data


def context(f: dict, model, data, n: int = 7) -> Ctx:
    other = zoo.make_data(n, zoo.categories_of(f["model"]), f["seed"] + 1, 0.12 if f["missing"] else 0.0, f["missing"] or "nan")
    theta = torch.randn(n, model.latent_variables, generator=zoo.generator(("theta", f["seed"]))) * 0.8
    return Ctx(model, other, theta)


def shrink_fitted(f: dict):
    for s in f["scales"]:
        yield {**f, "scales": [x for x in f["scales"] if x != s]}
    for key, simple in (("missing", None), ("latent", 1), ("epochs", 1), ("rows", 9), ("one_hot", True), ("imputation", "zero"), ("bn", False), ("option", 0)):
        if f.get(key, simple) != simple:
            yield {**f, key: simple}
