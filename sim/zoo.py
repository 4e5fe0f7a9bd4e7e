"""Models, algorithms, scale transformations and data sets to run simulations with, and how to compare them.

Everything is built through the public interface of irtorch only.
"""
from __future__ import annotations
import copy
import hashlib
import random

import torch

import irtorch
from irtorch import estimation_algorithms as ALG
from irtorch import models as M
from irtorch import rescale as R

MISSING_OK = True
TINY = 3.5e-38


# -- data ----------------------------------------------------------------------------------------------------------
def generator(seed) -> torch.Generator:
    h = hashlib.sha256(str(seed).encode()).digest()
    g = torch.Generator()
    g.manual_seed(int.from_bytes(h[:7], "little"))
    return g


def make_data(n: int, categories: list[int], seed, missing: float = 0.0, code="nan", strength: float = 1.5) -> torch.Tensor:
    """Responses that depend on a latent variable. Every category of every item occurs."""
    g = generator(("data", seed))
    theta = torch.randn(n, generator=g)
    cols = []
    for j, c in enumerate(categories):
        noise = torch.randn(n, generator=g)
        z = strength * theta + noise
        col = torch.zeros(n)
        for k in range(1, c):
            cut = -1.2 + 2.4 * k / c + 0.3 * float(torch.randn(1, generator=g))
            col = col + (z > cut).float()
        order = torch.randperm(n, generator=g)
        col[order[:c]] = torch.arange(min(c, n)).float()
        cols.append(col)
    data = torch.stack(cols, dim=1)
    if missing:
        mask = torch.rand(data.shape, generator=g) < missing
        mask[torch.arange(n), torch.randint(0, len(categories), (n,), generator=g)] = False   # nobody misses everything
        value = float("nan") if code == "nan" else -1.0
        data[mask] = value
    return data


# -- models --------------------------------------------------------------------------------------------------------
BINARY = [2, 2, 2, 2]
POLY = [3, 2, 4, 3]
MC = [3, 3, 4, 3]

MODELS = {
    # name: (categories, max latent variables)
    "1pl": (BINARY, 1), "2pl": (BINARY, 2), "3pl": (BINARY, 2), "gpc": (POLY, 2), "grm": (POLY, 2), "nominal": (MC, 2),
    "nested": (MC, 2), "nested-bspline": (MC, 1), "mononn": (POLY, 2), "monobspline": (POLY, 1), "monopoly": (POLY, 2),
    "surprisal": (POLY, 1), "mix": (BINARY[:2] + POLY[:2], 1), "mononn-items": (POLY, 1), "nominal-mc": (MC, 1),
    # other numbers of items
    "2pl-7": ([2] * 7, 2), "gpc-6": ([2, 3, 5, 2, 4, 3], 2), "grm-2": ([3, 2], 1), "gpc-1": ([3], 1), "nested-5": ([3, 4, 3, 5, 3], 1), "mix-3": ([2, 2, 2, 3, 4, 3, 3], 1),
    # other settings
    "gpc-rel": (POLY, 2), "mononn-deep": (POLY, 2), "monopoly-items": (POLY, 2), "nested-nn": (MC, 1), "mix-nn": (POLY[:2] + MC[:2], 1), "3pl-rel": (BINARY, 2),
}
SPECS = {**MODELS, "2pl-long": ([2] * 240, 1), "gpc-long": ([4] * 120, 1),        # as long as real tests
         "2pl-wide": (BINARY, 3), "gpc-wide": (POLY, 3)}
SMOOTH = ("1pl", "2pl", "3pl", "gpc", "grm", "nominal", "monopoly")


def categories_of(name: str) -> list[int]:
    return list(SPECS[name][0])


def mc_correct_of(name: str):
    return [1, 0, 2, 1] if name in ("nested", "nested-bspline", "nominal-mc", "nested-nn") else [2, 0, 1, 3, 1] if name == "nested-5" else None


def make_model(name: str, latent: int = 1, seed=0, lib=None):
    """A model with parameters that depend on the seed alone. ``lib`` may provide subclasses of the models."""
    lib = lib or M
    cats, most = SPECS[name]
    cats = list(cats)
    latent = min(latent, most)
    with torch.random.fork_rng():
        torch.manual_seed(int.from_bytes(hashlib.sha256(f"model/{name}/{seed}".encode()).digest()[:6], "little"))
        if name == "1pl":
            return lib.OneParameterLogistic(items=4)
        if name in ("2pl", "2pl-wide", "2pl-7"):
            return lib.TwoParameterLogistic(latent_variables=latent, items=len(cats))
        if name == "2pl-long":
            return lib.TwoParameterLogistic(latent_variables=1, items=len(cats))
        if name == "gpc-long":
            return lib.GeneralizedPartialCredit(latent_variables=1, item_categories=cats)
        if name == "3pl":
            return lib.ThreeParameterLogistic(latent_variables=latent, items=4)
        if name in ("gpc", "gpc-wide", "gpc-6", "gpc-1"):
            return lib.GeneralizedPartialCredit(latent_variables=latent, item_categories=cats)
        if name in ("grm", "grm-2"):
            return lib.GradedResponse(latent_variables=latent, item_categories=cats)
        if name == "nominal":
            return lib.NominalResponse(latent_variables=latent, item_categories=cats)
        if name == "nominal-mc":
            return lib.NominalResponse(latent_variables=latent, item_categories=cats, mc_correct=mc_correct_of(name))
        if name == "nested-5":
            return lib.NestedLogit(
                mc_correct=mc_correct_of(name), correct_response_model=lib.ThreeParameterLogistic(latent_variables=latent, items=5),
                incorrect_response_model="nominal", latent_variables=latent, item_categories=cats,
            )
        relations = torch.tensor([[True, False], [True, True], [False, True], [True, True]])[:, :latent]
        relations = relations if latent > 1 else None
        if name == "gpc-rel":
            return lib.GeneralizedPartialCredit(latent_variables=latent, item_categories=cats, item_theta_relationships=relations)
        if name == "3pl-rel":
            return lib.ThreeParameterLogistic(latent_variables=latent, items=4, item_theta_relationships=relations)
        if name == "mononn-deep":
            return lib.MonotoneNN(
                latent_variables=latent, item_categories=cats, hidden_dim=[4, 2], use_bounded_activation=False, negative_latent_variable_item_relationships=False,
                item_theta_relationships=relations,
            )
        if name == "monopoly-items":
            return lib.MonotonePolynomial(
                latent_variables=latent, item_categories=cats, degree=5, separate="items", negative_latent_variable_item_relationships=False, item_theta_relationships=relations,
            )
        if name == "nested-nn":
            return lib.NestedLogit(
                mc_correct=mc_correct_of(name), correct_response_model=lib.MonotoneNN(latent_variables=latent, item_categories=[2] * 4, hidden_dim=[3]),
                incorrect_response_model="nominal", latent_variables=latent, item_categories=cats,
            )
        if name == "mix-nn":
            return lib.ModelMix([
                lib.MonotoneNN(latent_variables=latent, item_categories=cats[:2], hidden_dim=[3]),
                lib.NominalResponse(latent_variables=latent, item_categories=cats[2:]),
            ])
        if name in ("nested", "nested-bspline"):
            return lib.NestedLogit(
                mc_correct=mc_correct_of(name), correct_response_model=lib.TwoParameterLogistic(latent_variables=latent, items=4),
                incorrect_response_model="nominal" if name == "nested" else "bspline", latent_variables=latent, item_categories=cats,
            )
        if name == "mononn":
            return lib.MonotoneNN(latent_variables=latent, item_categories=cats, hidden_dim=[6])
        if name == "mononn-items":
            return lib.MonotoneNN(latent_variables=latent, item_categories=cats, hidden_dim=[6], separate="items")
        if name == "monobspline":
            return lib.MonotoneBSpline(latent_variables=1, item_categories=cats)
        if name == "monopoly":
            return lib.MonotonePolynomial(latent_variables=latent, item_categories=cats)
        if name == "surprisal":
            return lib.SurprisalSpline(latent_variables=1, item_categories=cats)
        if name == "mix-3":
            return lib.ModelMix([
                lib.TwoParameterLogistic(latent_variables=latent, items=3),
                lib.GradedResponse(latent_variables=latent, item_categories=cats[3:5]),
                lib.GeneralizedPartialCredit(latent_variables=latent, item_categories=cats[5:]),
            ])
        if name == "mix":
            return lib.ModelMix([
                lib.TwoParameterLogistic(latent_variables=latent, items=2),
                lib.GeneralizedPartialCredit(latent_variables=latent, item_categories=cats[2:]),
            ])
    raise KeyError(name)


def randomise(model, seed, scale=0.5) -> None:
    """Give every parameter a value that depends on the seed (as if the model had been fitted)."""
    g = generator(("params", seed))
    with torch.no_grad():
        for p in model.parameters():
            p.add_(torch.randn(p.shape, generator=g).to(p.dtype) * scale)


# -- algorithms ----------------------------------------------------------------------------------------------------
ALGORITHMS = ("JML", "MML", "AE", "VAE")
STOCHASTIC = ("AE", "VAE")


def make_algorithm(name: str):
    return getattr(ALG, name)()


def fit_kwargs(name: str, epochs: int = 3, **over) -> dict:
    base = {"max_epochs": epochs, "device": "cpu"}
    if name == "JML":
        base.update(learning_rate=0.1)
    elif name == "MML":
        base.update(learning_rate=0.1, quadrature_points=7)
    elif name == "AE":
        base.update(learning_rate=0.02, hidden_layers_encoder=[8], evaluation_interval_size=3, learning_rate_updates_before_stopping=50)
    elif name == "VAE":
        base.update(learning_rate=0.02, hidden_layers_encoder=[8], evaluation_interval_size=3, learning_rate_updates_before_stopping=50, iw_samples=2)
    base.update(over)
    return base


# -- scales --------------------------------------------------------------------------------------------------------
SCALES = ("reverse", "rank", "rotate", "flow", "link", "bit")


def make_scale(name: str, model, seed, theta=None):
    latent = model.latent_variables
    g = generator(("scale", name, seed))
    if theta is None:
        theta = torch.randn(40, latent, generator=g)
    kind = int(torch.randint(0, 6, (1,), generator=generator(("kind of scale", name, seed))))
    if name == "reverse":
        return R.Reverse([bool(b) for b in (torch.rand(latent, generator=g) < 0.5)] if latent > 1 else [True])
    if name == "rank":
        if kind < 3:
            return R.RankCDF(theta)
        return R.RankCDF(theta, [torch.distributions.Normal(float(k), 1.5 + k) for k in range(latent)])
    if name == "rotate":
        a = torch.randn(latent, latent, generator=g)
        q, _ = torch.linalg.qr(a)
        return R.Rotate(model, rotation_matrix=q)
    with torch.random.fork_rng():
        torch.manual_seed(int(torch.randint(0, 2**31 - 1, (1,), generator=g)))
        if name == "flow":
            scale = R.Flow(latent)
            scale.fit(theta, max_epochs=5, device="cpu", **({} if kind < 3 else {"batch_size": 16, "num_bins": 12}))
            return scale
        if name == "link":
            other = M.TwoParameterLogistic(latent_variables=1, items=4)
            base = M.TwoParameterLogistic(latent_variables=1, items=4)
            scale = R.LinkCommonItems(base, other, [0, 1, 2, 3], [0, 1, 2, 3], method="neuralnet" if kind == 5 else "spline", inverted=kind in (3, 5))
            scale.fit(theta, max_epochs=4, device="cpu")
            return scale
        if name == "bit-wide":
            return R.Bit(model, start_theta=torch.full((1, latent), -4.0), grid_points=2000)
        if name == "bit":
            items = list(range(0, len(model.item_categories), 2)) if kind in (3, 5) else None
            return R.Bit(model, population_theta=None if kind >= 4 else theta, start_theta=torch.full((1, latent), -4.0), items=items, grid_points=120)
    raise KeyError(name)


def scales_for(model, names) -> list[str]:
    """Which of the named scales can be used with the model."""
    out = []
    for n in names:
        if n == "link" and model.latent_variables != 1:
            continue
        if n == "rotate" and model.latent_variables < 2:
            continue
        out.append(n)
    return out


# -- comparing -----------------------------------------------------------------------------------------------------
def tensor_hash(t: torch.Tensor) -> str:
    t = t.detach().contiguous().cpu()
    h = hashlib.sha256(str((tuple(t.shape), str(t.dtype))).encode())
    h.update(t.numpy().tobytes())
    return h.hexdigest()[:16]


def param_snapshot(module) -> dict:
    return {k: v.detach().clone() for k, v in module.state_dict().items()}


def same_state(a: dict, b: dict, exact=True, rtol=1e-4, atol=1e-5) -> str | None:
    """None if equal, otherwise the name of something that differs."""
    if set(a) != set(b):
        return f"names {sorted(set(a) ^ set(b))}"
    for k in a:
        if a[k].shape != b[k].shape:
            return f"{k} shape"
        if exact:
            if not torch.equal(torch.nan_to_num(a[k].float(), nan=12345.0), torch.nan_to_num(b[k].float(), nan=12345.0)):
                return k
        elif not torch.allclose(a[k].float(), b[k].float(), rtol=rtol, atol=atol, equal_nan=True):
            d = (a[k].float() - b[k].float()).abs().max().item()
            return f"{k} (largest difference {d:.3g})"
    return None


def same_tensor(a, b, exact=False, rtol=1e-4, atol=1e-5) -> bool:
    if a.shape != b.shape:
        return False
    if exact:
        return torch.equal(torch.nan_to_num(a, nan=12345.0), torch.nan_to_num(b, nan=12345.0))
    return torch.allclose(a.float(), b.float(), rtol=rtol, atol=atol, equal_nan=True)


class Guard:
    """Remembers tensors and other arguments of the caller and tells whether they were changed."""

    def __init__(self, **given):
        tensors = {k: v for k, v in given.items() if isinstance(v, torch.Tensor)}
        self.other = {k: (v, copy.copy(v)) for k, v in given.items() if isinstance(v, (list, dict, set))}
        self.t = tensors
        self.before = {k: (v.detach().clone(), v.requires_grad, v.shape) for k, v in tensors.items()}

    def changed(self) -> str | None:
        for k, v in self.t.items():
            old, rg, shape = self.before[k]
            if v.shape != shape:
                return f"{k} changed shape"
            if v.requires_grad != rg:
                return f"requires_grad of {k} changed from {rg} to {v.requires_grad}"
            if not same_tensor(v.detach(), old, exact=True):
                return f"{k} was modified"
        for k, (now, before) in self.other.items():
            if now != before:
                return f"{k} was changed from {before} to {now}"
        return None


def silence() -> None:
    import logging
    logging.getLogger("irtorch").setLevel(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")


_ = (copy, random, irtorch)
