"""C16: random draws always yield valid, conserved data."""
from __future__ import annotations
from collections import Counter

import torch

from irtorch import models as M
from irtorch import rescale as R

from .. import cv, zoo
from ..common import rng_for
from ..core import Run, Violation, describe, generic_shrinks
from ..dice import POLICIES, Dice
from ..world import World

ID = "C16"
QUICK_RUNS = 1500
MIN_RUNS = 100
LEVEL = "exploration"
TECHNIQUE = "torch's random number generators replaced by seeded adversarial ones (extreme, rarest, evenly spread outcomes); validity, conservation and proportions of what irtorch makes of the draws"
LEVEL_NOTE = (
    "Sampled over 21 models of 15 types and sizes, extreme and ordinary scores, 5 imputation methods (public and during training), 1-12 respondents, all splits, folds of cross-validation, "
    "encoder sampling and guessing data. Six policies decide the draws; proportions are compared within 0.15 for 400 draws."
)
RULE = "One case is a sequence of 1-4 operations that draw random numbers, all under one policy. Non-trivial: a number was drawn by the policy."
STATE_MEASURE = "(operation, policy, shape) combinations"
REAL_COMPONENTS = ["irtorch sampling, imputation, splitting, folds, encoder sampling, guessing data"]
SIM_COMPONENTS = ["outcomes of torch.randint, randperm, multinomial, bernoulli, rand and randn"]
ASSUMPTIONS = ["a draw from a generator of single precision never has a probability below 1e-9"]

KINDS = ("sample", "sample", "sample", "proportions", "impute", "impute", "impute", "dataset", "split", "split", "folds", "encoder", "guessing")
METHODS = ("zero", "mean", "random incorrect", "prior expected")


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    ops = []
    for _ in range(r.choice([1, 1, 2, 3] if tier == "quick" else [2, 3, 4])):
        ops.append({"op": r.choice(KINDS), "seed": r.randint(0, 10**6), "model": r.choice(sorted(zoo.MODELS)), "latent": r.choice([1, 1, 2]), "rows": r.choice([1, 1, 2, 3, 5, 8, 12])})
    return {"seed": seed, "policy": r.choice(POLICIES), "ops": ops}


def shrinks(plan):
    for c in generic_shrinks(plan, ("ops",), {}):
        if c["ops"]:
            yield c
    for i, op in enumerate(plan["ops"]):
        for n in (1, 2, 3):
            if n < op["rows"]:
                yield {**plan, "ops": plan["ops"][:i] + [{**op, "rows": n}] + plan["ops"][i + 1:]}
    if plan["policy"] != "low":
        yield {**plan, "policy": "low"}


def nontrivial(run: Run) -> bool:
    return any(k.startswith("draws:") for k in run.probes)


def execute(run: Run) -> None:
    with World(run):
        for i, op in enumerate(run.plan["ops"]):
            torch.manual_seed(op["seed"])
            r = rng_for(op["seed"], f"C16/{op['op']}")
            dice = Dice(run.plan["policy"], op["seed"], run)
            run.ev(i, op["op"], op["model"], op["rows"])
            run.state(op["op"], run.plan["policy"], op["model"], op["rows"])
            OPS[op["op"]](run, op, r, dice)


def built(op: dict):
    """A model with parameters of its own. Not every threshold of a graded response model is one that fitting can lead to."""
    model = zoo.make_model(op["model"], op["latent"], op["seed"])
    if op["model"] not in ("grm", "grm-2", "mix-3"):
        zoo.randomise(model, op["seed"])
    return model


def whole(run: Run, label: str, data: torch.Tensor, categories: list[int]):
    if not data.isfinite().all() or not torch.equal(data, data.round()):
        raise Violation("invalid-category", f"{label}: values that are no response categories")
    for j, c in enumerate(categories):
        if (data[:, j] < 0).any() or (data[:, j] >= c).any():
            raise Violation("invalid-category", f"{label}: item {j} with {c} categories got {sorted(set(data[:, j].tolist()))}")


# -- sampling from the model -----------------------------------------------------------------------------------------
def sample(run: Run, op: dict, r, dice: Dice):
    model = built(op)
    theta = torch.randn(op["rows"], model.latent_variables, generator=zoo.generator(op["seed"])) * r.choice([0.5, 1, 3, 10])
    guard = zoo.Guard(theta=theta)
    with dice:
        got = run.call("sample_test_data", model.sample_test_data, theta)
    label = f"sample_test_data of {op['model']}, {dice.policy} draws"
    probs = model.item_probabilities(theta).detach()
    if tuple(got.shape) != (op["rows"], model.items):
        raise Violation("wrong-shape", f"{label}: {tuple(got.shape)} for {op['rows']} respondents and {model.items} items")
    whole(run, label, got, model.item_categories)
    p = probs.gather(2, got.long().unsqueeze(2)).squeeze(2)
    if not (p > 0).all():
        raise Violation("impossible-category", f"{label}: a response that has no positive probability")
    positive = probs > 1e-9
    if dice.policy == "low":
        want = positive.int().argmax(2)
    elif dice.policy == "high":
        want = probs.shape[2] - 1 - positive.flip(2).int().argmax(2)
    elif dice.policy == "rare":
        low = torch.where(positive, probs, torch.tensor(9.0)).min(2).values
        if run.probes["draws:multinomial"] and not torch.allclose(p, low, rtol=1e-3, atol=1e-7):
            raise Violation("wrong-respondent", f"{label}: the least likely response was drawn for every respondent and item, but the data hold others")
        want = None
    else:
        want = None
    if want is not None and run.probes["draws:multinomial"] and not torch.equal(want, got.long()):
        bad = (want != got.long()).nonzero()[0].tolist()
        raise Violation("wrong-respondent", f"{label}: respondent {bad[0]} got {int(got[bad[0], bad[1]])} on item {bad[1]}, drawn was {int(want[bad[0], bad[1]])}")
    changed = guard.changed()
    if changed:
        raise Violation("data-changed", f"{label}: {changed}")


def proportions(run: Run, op: dict, r, dice: Dice):
    """Responses of many respondents with the same score occur as often as the model says."""
    model = built(op)
    n = 400
    theta = torch.randn(2, model.latent_variables, generator=zoo.generator(op["seed"]))
    theta = theta.repeat_interleave(n, 0) if r.random() < 0.5 else theta.repeat(n, 1)
    dice.policy = "even"
    with dice:
        got = run.call("sample_test_data", model.sample_test_data, theta)
    for t in (theta[0], theta[-1]):
        rows = (theta == t).all(1)
        probs = model.item_probabilities(t.unsqueeze(0)).detach()[0]
        for j, c in enumerate(model.item_categories):
            for k in range(c):
                share = float((got[rows, j] == k).float().mean())
                if abs(share - float(probs[j, k])) > 0.15:
                    raise Violation("wrong-proportion", f"sample_test_data of {op['model']}: category {k} of item {j} has probability {float(probs[j, k]):.3f} but makes up {share:.3f} of {n} responses")


# -- imputation ------------------------------------------------------------------------------------------------------
def damaged(op: dict, r, categories: list[int], spare: bool) -> tuple[torch.Tensor, torch.Tensor]:
    """Responses of which some are missing. ``spare`` leaves at least one response of every item."""
    n = op["rows"]
    g = zoo.generator(("impute", op["seed"]))
    full = torch.stack([torch.randint(0, c, (n,), generator=g).float() for c in categories], 1)
    mask = torch.rand(full.shape, generator=g) < r.choice([0.0, 0.1, 0.3, 0.6, 1.0])
    if spare:
        keep = torch.randint(0, n, (len(categories),), generator=g)
        mask[keep, torch.arange(len(categories))] = False
    data = full.clone()
    code = r.choice(["nan", "-1", "both"])
    value = torch.full(full.shape, float("nan") if code == "nan" else -1.0)
    if code == "both":
        value[torch.rand(full.shape, generator=g) < 0.5] = float("nan")
    data[mask] = value[mask]
    return data, mask


def check_imputed(run: Run, label: str, data, mask, got, method, categories, mc, expected=None):
    if got.shape != data.shape:
        raise Violation("wrong-shape", f"{label}: shape {tuple(got.shape)} for {tuple(data.shape)}")
    if not torch.equal(got[~mask], data[~mask]):
        raise Violation("observed-changed", f"{label}: responses that were not missing changed")
    if not got.isfinite().all():
        raise Violation("not-imputed", f"{label}: missing responses are still missing")
    if method == "zero":
        ok = (got[mask] == 0).all()
    elif method == "mean":
        want = torch.where(mask, torch.tensor(float("nan")), data).nanmean(0).expand_as(data)
        ok = torch.allclose(got[mask], want[mask], atol=1e-5)
    elif method == "prior expected":
        ok = torch.equal(got[mask], expected.expand_as(data)[mask])
    else:
        whole(run, label, torch.where(mask, got, torch.tensor(0.0)), categories)
        ok = not (got == torch.tensor(mc).float())[mask].any()
    if not ok:
        bad = mask.nonzero()[0].tolist()
        raise Violation("wrong-imputation", f"{label}: imputed values are not what the method allows, e.g. {float(got[bad[0], bad[1]])} for item {bad[1]}")


def impute(run: Run, op: dict, r, dice: Dice):
    from irtorch.utils import impute_missing
    method = r.choice(METHODS + ("random incorrect",) * 3)
    name = op["model"]
    if method == "random incorrect":
        name = r.choice(["nested", "nested-bspline", "nominal-mc"])
    if method == "prior expected" and zoo.mc_correct_of(name) is not None:
        name = "gpc"
    categories, mc = zoo.categories_of(name), zoo.mc_correct_of(name)
    derive = method == "random incorrect" and r.random() < 0.3
    data, mask = damaged(op, r, categories, spare=method == "mean" or derive)
    kwargs, expected = {}, None
    if method == "random incorrect":
        if derive:
            data = torch.cat([data, torch.tensor(categories).float().unsqueeze(0) - 1])
            mask = torch.cat([mask, torch.zeros(1, len(categories), dtype=torch.bool)])
            kwargs = {"mc_correct": mc}
        elif r.random() < 0.5:
            kwargs = {"mc_correct": mc, "item_categories": categories}
        else:
            kwargs = {"model": zoo.make_model(name, 1, op["seed"])}
    elif method == "prior expected":
        model = built({**op, "model": name})
        kwargs = {"model": model}
        expected = model.expected_scores(torch.zeros(1, model.latent_variables), return_item_scores=True).detach().round()
    guard = zoo.Guard(data=data)
    label = f"impute_missing {method}, {dice.policy} draws"
    with dice:
        got = run.call(label, impute_missing, data, method=method, **kwargs)
    check_imputed(run, label, data, mask, got, method, categories, mc, expected)
    changed = guard.changed()
    if changed:
        raise Violation("data-changed", f"{label}: {changed}")
    if method == "random incorrect" and dice.policy == "even" and mask.any():
        spread(run, impute_missing, label, kwargs, categories, mc)


def spread(run: Run, fn, label, kwargs, categories, mc):
    """Every incorrect category can be drawn, in equal proportion."""
    n = 300
    data = torch.full((n, len(categories)), -1.0)
    data[0] = torch.tensor(categories).float() - 1
    with Dice("even", 0, run):
        got = run.call(label, fn, data, method="random incorrect", **kwargs)[1:]
    for j, c in enumerate(categories):
        for k in range(c):
            share = float((got[:, j] == k).float().mean())
            want = 0.0 if k == mc[j] else 1 / (c - 1)
            if abs(share - want) > 0.15:
                raise Violation("wrong-proportion", f"{label}: category {k} of item {j} makes up {share:.3f} of the imputed responses, should be {want:.3f}")


def dataset(run: Run, op: dict, r, dice: Dice):
    """The input of the encoder during training."""
    from irtorch.irt_dataset import PytorchIRTDataset
    name = r.choice(["nested", "nominal-mc", "gpc", "2pl"])
    categories, mc = zoo.categories_of(name), zoo.mc_correct_of(name)
    hot = r.random() < 0.4
    method = r.choice(["zero"] + (["mean"] if not hot else [None]) + (["random incorrect"] * 3 if mc else []))
    data, mask = damaged(op, r, categories, spare=True)
    kwargs = {"imputation_method": method, "one_hot_encoded": hot, "item_categories": categories, "mc_correct": mc}
    guard = zoo.Guard(data=data)
    label = f"encoder input, {method} imputation{', one-hot' if hot else ''}, {dice.policy} draws"
    with dice:
        ds = run.call(label, PytorchIRTDataset, data=data, **kwargs)
    if len(ds) != len(data):
        raise Violation("wrong-shape", f"{label}: {len(ds)} respondents instead of {len(data)}")
    rows = []
    for i in range(len(ds)):
        row, missing, inputs, index = ds[i]
        if index != i or not zoo.same_tensor(row, data[i], exact=True):
            raise Violation("wrong-respondent", f"{label}: entry {i} holds the responses of another respondent or changed ones")
        if not torch.equal(missing, mask[i]):
            raise Violation("wrong-mask", f"{label}: wrong mask of missing responses for respondent {i}")
        rows.append(inputs)
    inputs = torch.stack(rows)
    if hot:
        parts = torch.split(inputs, categories, 1)
        if not all(((p == 0) | (p == 1)).all() and (p.sum(1) <= 1).all() for p in parts):
            raise Violation("invalid-category", f"{label}: not one-hot")
        got = torch.stack([torch.where(p.sum(1) == 1, p.argmax(1).float(), torch.tensor(-1.0)) for p in parts], 1)
        if method is None:
            if not torch.equal(got, torch.where(mask, torch.tensor(-1.0), data)):
                raise Violation("wrong-imputation", f"{label}: the encoding is not that of the responses")
            inputs = None
        else:
            inputs = got
    if inputs is not None:
        check_imputed(run, label, data, mask, inputs, method, categories, mc)
    changed = guard.changed()
    if changed:
        raise Violation("data-changed", f"{label}: {changed}")


# -- splitting -------------------------------------------------------------------------------------------------------
def split(run: Run, op: dict, r, dice: Dice):
    from irtorch.utils import split_data
    n = r.choice([1, 2, 3, 5, 8, 12, 31])
    data = torch.arange(n).float().unsqueeze(1).repeat(1, 3) * torch.tensor([1.0, -1.0, 10.0]) + torch.tensor([0.0, 5.0, 2.0])
    if r.random() < 0.4:
        data = data[torch.randint(0, n, (n,), generator=zoo.generator(op["seed"]))]
        data[r.randrange(n), 1] = float("nan")
    ratio = r.choice([0.0, 0.1, 0.33, 0.5, 0.8, 0.9, 0.99, 1.0])
    shuffle = r.random() < 0.7
    guard = zoo.Guard(data=data)
    with dice:
        train, test = run.call("split_data", split_data, data, ratio, shuffle)
    label = f"split_data of {n} rows, ratio {ratio}{', shuffled' if shuffle else ''}, {dice.policy} draws"
    changed = guard.changed()
    if changed:
        raise Violation("data-changed", f"{label}: {changed}")
    if abs(len(train) - n * ratio) >= 1 or len(train) + len(test) != n:
        raise Violation("wrong-shape", f"{label}: {len(train)} and {len(test)} rows")
    both = [*map(key, train), *map(key, test)]
    if Counter(both) != Counter(map(key, data)):
        raise Violation("rows-not-conserved", f"{label}: rows were lost, repeated or broken")
    if not shuffle and both != [*map(key, data)]:
        raise Violation("rows-not-conserved", f"{label}: the order changed")


def key(row) -> tuple:
    return tuple("nan" if v != v else v for v in row.tolist())


def folds(run: Run, op: dict, r, dice: Dice):
    """Cross-validation trains and scores on folds that hold every respondent once."""
    from irtorch.utils import cross_validation
    categories = zoo.categories_of("gpc")
    n = r.choice([8, 9, 12, 15])
    count = r.choice([2, 3, 4])
    model = cv.make_probe("gpc", 1, op["seed"])
    data = zoo.make_data(n, categories, op["seed"])
    cv.RECORD = recorded = []
    try:
        with dice:
            run.call(
                "cross_validation", cross_validation, model, data, count, {"max_epochs": [1]}, theta_estimation="EAP", device="cpu", multiprocessing=False,
                algorithm=zoo.make_algorithm("MML"), quadrature_points=5,
            )
    finally:
        cv.RECORD = None
    label = f"folds of {n} respondents, {dice.policy} draws"
    want = cv.rows_of(data)
    scored = Counter()
    for e in recorded:
        for s in e["scored"]:
            scored += cv.rows_of(s)
            if cv.rows_of(s) + cv.rows_of(e["train"]) != want:
                raise Violation("rows-not-conserved", f"{label}: the training and test data of a fold are not all respondents")
    if scored != want:
        raise Violation("rows-not-conserved", f"{label}: not every respondent is in the test data of exactly one fold")


# -- encoder sampling, guessing --------------------------------------------------------------------------------------
class NoNoise(Dice):
    """No noise in normal draws."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if getattr(func, "__name__", "") == "randn_like":
            self.note("randn")
            return torch.zeros_like(args[0])
        return super().__torch_function__(func, types, args, kwargs)


def encoder(run: Run, op: dict, r, dice: Dice):
    name = r.choice(["gpc", "2pl", "nominal-mc"])
    model = zoo.make_model(name, op["latent"], op["seed"])
    data = zoo.make_data(9, zoo.categories_of(name), op["seed"], 0.2 if r.random() < 0.5 else 0.0)
    algorithm = zoo.make_algorithm("VAE")
    hot = r.random() < 0.5
    run.call("fit", model.fit, train_data=data, algorithm=algorithm, **zoo.fit_kwargs("VAE", 1, one_hot_encoded=hot, imputation_method="zero"))
    fresh = r.random() < 0.5
    other = zoo.make_data(7, zoo.categories_of(name), op["seed"] + 1) if fresh else data
    guard = zoo.Guard(data=data, other=other)
    size = op["rows"]
    with NoNoise(dice.policy, op["seed"], run):
        got = run.call("sample_latent_variables", algorithm.sample_latent_variables, model=model, sample_size=size, input_data=other if fresh else None)
    label = f"encoder sampling, {dice.policy} draws"
    if tuple(got.shape) != (size, model.latent_variables):
        raise Violation("wrong-shape", f"{label}: {tuple(got.shape)} for {size} samples")
    scores = model.latent_scores(other, theta_estimation="NN", device="cpu", rescale=False).detach()
    distance = torch.cdist(got, scores).min(1).values
    if not (distance < 1e-3 * (1 + scores.abs().max())).all():
        raise Violation("wrong-sample", f"{label}: without noise, a sampled score is not that of any respondent")
    changed = guard.changed()
    if changed:
        raise Violation("data-changed", f"{label}: {changed}")
    dice.draws += 1


class Guessed(M.NominalResponse):
    def latent_scores(self, data, *args, **kwargs):
        self.__dict__["_given"] = data.detach().clone()
        return torch.randn(data.shape[0], self.latent_variables, generator=zoo.generator("guessed"))


def guessing(run: Run, op: dict, r, dice: Dice):
    """Responses of guessing respondents, from which the bit scale derives its origin."""
    categories = [r.choice([2, 3, 4]) for _ in range(4)]
    mc = [r.randrange(c) for c in categories]
    model = Guessed(latent_variables=1, item_categories=categories, mc_correct=mc)
    zoo.randomise(model, op["seed"])
    chance = [round(r.choice([1 / c, 0.5, 0.3, 0.9, 0.0]), 4) for c in categories] if r.random() < 0.6 else None
    n = 400 if dice.policy == "even" else op["rows"] + 1
    theta = torch.randn(20, 1, generator=zoo.generator(op["seed"]))
    with dice:
        run.call("Bit", R.Bit, model, population_theta=theta, mc_start_theta_approx=True, guessing_probabilities=chance, guessing_iterations=n, theta_estimation="ML")
    got = model.__dict__["_given"]
    label = f"guessing data with probabilities {chance}, {dice.policy} draws"
    if tuple(got.shape) != (n, 4):
        raise Violation("wrong-shape", f"{label}: {tuple(got.shape)} for {n} respondents and 4 items")
    whole(run, label, got, categories)
    chance = chance or [1 / c for c in categories]
    for j, (c, m, p) in enumerate(zip(categories, mc, chance)):
        right = got[:, j] == m
        if p == 0 and right.any():
            raise Violation("impossible-category", f"{label}: a correct response to item {j}, which is never guessed")
        if dice.policy == "even":
            for k in range(c):
                share = float((got[:, j] == k).float().mean())
                want = p if k == m else (1 - p) / (c - 1)
                if abs(share - want) > 0.15:
                    raise Violation("wrong-proportion", f"{label}: category {k} of item {j} (correct: {m}) makes up {share:.3f}, should be {want:.3f}")


OPS = {"sample": sample, "proportions": proportions, "impute": impute, "dataset": dataset, "split": split, "folds": folds, "encoder": encoder, "guessing": guessing}

_ = describe
