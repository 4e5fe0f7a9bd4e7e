"""C12: every response is used exactly once per epoch, with its own respondent; missing responses are not used at all."""
from __future__ import annotations
import copy
import math

import torch
from torch.nn.modules.module import register_module_forward_pre_hook

from irtorch.utils import get_item_categories

from .. import ops, zoo
from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..dice import POLICIES, Dice
from ..train import Script, make
from ..world import World

ID = "C12"
QUICK_RUNS = 2000
MIN_RUNS = 80
LEVEL = "exploration"
TECHNIQUE = "fits under a simulated order of respondents; rows and gradients of every optimizer step compared with a reference likelihood, fits under other codings of missing responses compared with each other"
LEVEL_NOTE = (
    "Sampled orders (sorted, reversed, interleaved, random), batch sizes 1 to n+2 and patterns of missing responses for 4 algorithms and 21 models of 15 types and sizes, up to 4 epochs. "
    "Every gradient of JML, AE and VAE is recomputed from item probabilities; marginal likelihoods are compared with those of single respondents."
)
RULE = (
    "One case is a data set with a pattern of missing responses, a trainer with a batch size, a policy for the order of respondents, and one of the checks: steps, coding, nobody, evaluation. "
    "Non-trivial: two or more batches per epoch, or missing responses."
)
STATE_MEASURE = "(check, trainer, model, size of the last batch, coding, order) combinations"
REAL_COMPONENTS = ["irtorch JML, MML, AE, VAE, data set, models, evaluator, utils", "torch data loader and optimizers"]
SIM_COMPONENTS = ["order of the shuffled respondents"]
ASSUMPTIONS = [
    "an autoencoder with batch normalization may leave out a last batch of fewer than 4 respondents",
    "losses of a batch may be scaled by any positive number, the same for all of its respondents",
]
CODES = ("nan", "-1", "mixed", "int", "double")


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    trainer = r.choice(["JML", "MML", "AE", "VAE", "AE", "VAE"])
    rows = r.choice([6, 9, 13, 16])
    name = r.choice(list(zoo.MODELS))
    one_hot = r.random() < 0.65
    methods = [None] * 2 + ["zero", "mean"] if one_hot else ["zero", "mean"]      # None would need complete data
    if zoo.mc_correct_of(name):
        methods.append("random incorrect")
    return {
        "seed": seed, "check": r.choice(["steps", "steps", "coding", "nobody", "evaluation"]), "trainer": trainer, "model": name, "latent": r.choice([1, 1, 2]), "rows": rows,
        "batch": r.choice([None, 1, 2, 4, 5, 7, rows - 1, rows, rows + 2]), "epochs": r.choice([1, 2, 3] if tier == "quick" else [2, 4]), "order": r.choice(POLICIES),
        "missing": r.choice([0.0, 0.1, 0.3, 0.6]), "code": r.choice(["nan", "-1", "mixed"]), "other": r.choice(CODES), "one_hot": one_hot, "imputation": r.choice(methods),
        "bn": r.random() < 0.25, "iw": r.choice([1, 2, 3]), "anneal": r.random() < 0.7, "start": r.random() < 0.5, "built": r.random() < 0.3,
        "question": r.choice(sorted(DATA_QUESTIONS)), "gauss": r.random() < 0.5,
        "steep": r.choice([1, 1, 10, 40]),
    }


def shrinks(plan):
    for key, simple in (("latent", 1), ("epochs", 1), ("missing", 0.0), ("bn", False), ("iw", 1), ("anneal", False), ("order", "low"), ("start", False), ("steep", 1), ("built", False), ("rows", 6),
                        ("batch", None), ("model", "1pl" if not zoo.mc_correct_of(plan["model"]) else plan["model"]), ("code", "nan")):
        if plan.get(key, simple) != simple and not (key == "rows" and plan["batch"] not in (None, 1, 2, 4, 5)):
            yield {**plan, key: simple}


def nontrivial(run: Run) -> bool:
    return run.probes["batches"] > 1 or run.probes["missing responses"] > 0


# -- data ------------------------------------------------------------------------------------------------------------
def responses(plan) -> tuple[torch.Tensor, torch.Tensor]:
    """(complete responses, which of them are missing). Every category of every item is observed."""
    cats = zoo.categories_of(plan["model"])
    full = zoo.make_data(plan["rows"], cats, plan["seed"])
    g = zoo.generator(("c12", plan["seed"]))
    missing = torch.rand(full.shape, generator=g) < plan["missing"]
    missing[torch.arange(full.shape[0]), torch.randint(0, full.shape[1], (full.shape[0],), generator=g)] = False
    for j, c in enumerate(cats):
        for k in range(c):
            i = int((full[:, j] == k).nonzero()[0])
            missing[i, j] = False
    return full, missing


def code(full: torch.Tensor, missing: torch.Tensor, how: str, seed=0) -> torch.Tensor:
    out = full.clone()
    if how == "nan":
        out[missing] = float("nan")
    elif how == "mixed":
        g = zoo.generator(("mixed", seed))
        out[missing] = torch.where(torch.rand(out.shape, generator=g) < 0.5, -1.0, float("nan"))[missing]
    else:
        out[missing] = -1.0
    if how == "double" and seed % 2:
        out[missing] = float("nan")
    return out.long() if how == "int" else out.double() if how == "double" else out


def settings(plan, data) -> dict:
    a = plan["trainer"]
    kwargs = {"max_epochs": plan["epochs"], "learning_rate": 0.05, "device": "cpu"}
    if a != "MML":
        kwargs["batch_size"] = plan["batch"]
    if a == "MML":
        kwargs.update(quadrature_points=6, integration_method="gauss_hermite" if plan["gauss"] else "quasi_mc")
    if a == "JML" and plan["start"]:
        kwargs["start_thetas"] = start(plan)
    if a in ("AE", "VAE"):
        kwargs.update(hidden_layers_encoder=[6], batch_normalization_encoder=plan["bn"], one_hot_encoded=plan["one_hot"], imputation_method=plan["imputation"],
                      evaluation_interval_size=3, learning_rate_updates_before_stopping=99)
    if a == "VAE":
        kwargs.update(iw_samples=plan["iw"], anneal=plan["anneal"], annealing_iterations=5)
    return kwargs


def start(plan) -> torch.Tensor:
    latent = min(plan["latent"], zoo.SPECS[plan["model"]][1])
    return torch.randn(plan["rows"], latent, generator=zoo.generator(("start", plan["seed"])))


def new_model(plan, data):
    """Built from the description or from the data, as users do."""
    if not plan["built"]:
        return make(plan["model"], plan["latent"], plan["seed"])
    from irtorch import models as M
    name, latent = plan["model"], min(plan["latent"], zoo.SPECS[plan["model"]][1])
    with torch.random.fork_rng():
        torch.manual_seed(plan["seed"])
        mc = zoo.mc_correct_of(name)
        cls = {"1pl": M.OneParameterLogistic, "2pl": M.TwoParameterLogistic, "3pl": M.ThreeParameterLogistic, "gpc": M.GeneralizedPartialCredit, "grm": M.GradedResponse, "nominal": M.NominalResponse,
               "nominal-mc": M.NominalResponse, "mononn": M.MonotoneNN, "monobspline": M.MonotoneBSpline, "monopoly": M.MonotonePolynomial, "surprisal": M.SurprisalSpline}.get(name)
        if cls is None:
            return make(plan["model"], plan["latent"], plan["seed"])
        if name in ("1pl", "monobspline", "surprisal"):
            return cls(data=data)
        return cls(data=data, latent_variables=latent, **({"mc_correct": mc} if mc else {}))


def fit(run: Run, plan, data, model=None, order=None):
    model = new_model(plan, data) if model is None else model
    algorithm = zoo.make_algorithm(plan["trainer"])
    torch.manual_seed(plan["seed"] % 2**31)
    kwargs = settings(plan, data)
    guard = zoo.Guard(data=data, **kwargs)
    with Dice(plan["order"], plan["seed"], run, only=("randperm",)):
        model.fit(data, algorithm, **kwargs)
    bad = guard.changed()
    if bad is not None:
        raise Violation("arguments-changed", f"fitting: {bad}")
    return model, algorithm


def result(model, algorithm) -> dict:
    out = {f"model {k}": v for k, v in zoo.param_snapshot(model).items()}
    if getattr(algorithm, "encoder", None) is not None:
        out.update({f"encoder {k}": v for k, v in zoo.param_snapshot(algorithm.encoder).items()})
    t = algorithm.training_theta_scores
    if t is not None:
        out["training theta scores"] = t.detach().clone()
    out["losses"] = torch.tensor([float(x) for x in algorithm.training_history["train_loss"]])
    return out


def same(a: dict, b: dict) -> str | None:
    if set(a) != set(b):
        return f"{sorted(set(a) ^ set(b))}"
    for k in a:
        if not zoo.same_tensor(a[k], b[k], rtol=1e-4, atol=1e-5):
            return k
    return None


# -- steps -----------------------------------------------------------------------------------------------------------
def log_p(model, theta, full, missing):
    """Log-likelihood of the observed responses of each respondent."""
    p = model.item_probabilities(theta)
    p = p.gather(2, full.long().unsqueeze(2)).squeeze(2)
    return torch.where(missing, torch.zeros_like(p), p.clamp(min=1e-30).log()).sum(dim=1), p.detach()[~missing]


class Steps:
    """What the trainer does in every optimizer step."""

    def __init__(self, run: Run, w: World, plan, full, missing):
        self.run, self.w, self.plan, self.full, self.missing = run, w, plan, full, missing
        self.n = full.shape[0]
        batch = plan["batch"] or self.n
        self.sizes = [min(batch, self.n - i) for i in range(0, self.n, batch)]
        self.dropped = 0
        if plan["trainer"] in ("AE", "VAE") and plan["bn"]:
            kept = [s for s in self.sizes if s >= 4]
            self.dropped, self.sizes = self.n - sum(kept), kept
        self.steps = 0
        self.used: list[int] = []
        self.x = self.theta = self.d = None
        self.inputs = None
        self.nan = False
        self.rows: list[int] = []

    def attach(self, model, algorithm, script):
        self.model, self.algorithm = model, algorithm
        script.watch = self.likelihood
        self.handle = register_module_forward_pre_hook(self.forward)
        self.w.pre_step_hooks.append(self.before_step)

    def detach(self):
        self.handle.remove()
        self.w.pre_step_hooks.remove(self.before_step)

    def forward(self, module, args):
        if not torch.is_grad_enabled() or not args:
            return
        if module is getattr(self.algorithm, "encoder", None):
            self.x = args[0].detach().clone()
        elif module is self.model:
            self.theta = args[0].detach().clone()

    def likelihood(self, data, output, mask, reduction, ll):
        if torch.is_grad_enabled():
            self.d = data.detach().float().clone()
            gone = self.d.isnan() | (self.d == -1)
            if mask is not None:
                gone |= mask.detach().view(self.d.shape)
            self.d[gone] = -1.0
            # The log-likelihood of a model whose thresholds cross is nan: training says so and ends
            self.nan = reduction != "none" and bool(torch.as_tensor(ll).isnan().any())

    # -- which respondents the batch has ---------------------------------------------------------------------------------
    def matches(self, i: int, x, d) -> bool:
        return torch.equal(d, torch.where(self.missing[i], -1.0, self.full[i])) and self.encodes(i, x)

    def encodes(self, i: int, x) -> bool:
        plan, cats = self.plan, zoo.categories_of(self.plan["model"])
        if plan["one_hot"]:
            parts = list(x.float().split(cats))
            for j, part in enumerate(parts):
                if self.missing[i, j]:
                    if plan["imputation"] is None:
                        if part.any():
                            return False
                    elif not self.allowed(j, part.argmax().float(), part.sum() == 1):
                        return False
                elif part.sum() != 1 or part.argmax() != self.full[i, j]:
                    return False
            return True
        for j in range(len(cats)):
            if self.missing[i, j]:
                if not self.allowed(j, x[j].float(), True):
                    return False
            elif x[j] != self.full[i, j]:
                return False
        return True

    def allowed(self, j: int, value, one: bool) -> bool:
        how = self.plan["imputation"]
        if not one:
            return False
        if how == "zero":
            return float(value) == 0
        if how == "mean":
            mean = self.full[~self.missing[:, j], j].mean()
            want = mean.round() if self.plan["one_hot"] else mean
            return abs(float(value) - float(want)) < 1e-4 or self.plan["one_hot"] and abs(float(mean) % 1 - 0.5) < 1e-4
        return float(value) != zoo.mc_correct_of(self.plan["model"])[j] and 0 <= float(value) < zoo.categories_of(self.plan["model"])[j]

    def identify(self) -> list[int]:
        """The respondent of each row of the batch. Every one can be used once per epoch."""
        b = self.x.shape[0]
        if self.d is None or self.d.shape[0] % b:
            raise Violation("wrong-batch", f"the encoder got {b} respondents, the likelihood {0 if self.d is None else self.d.shape[0]}")
        for k in range(self.d.shape[0] // b):
            if not torch.equal(self.d[:b], self.d[k * b: (k + 1) * b]):
                raise Violation("wrong-pairing", "the samples of a respondent are compared with responses of others")
        out = []
        free = [i for i in range(self.n) if i not in self.used]
        for k in range(b):
            i = next((i for i in free if self.matches(i, self.x[k], self.d[k])), None)
            if i is None:
                again = next((i for i in range(self.n) if self.matches(i, self.x[k], self.d[k])), None)
                if again is not None:
                    raise Violation("used-twice", f"step {self.steps}: respondent {again} is used again in the same epoch")
                raise Violation("wrong-pairing", f"step {self.steps}: row {k} of the batch has encoder input {self.x[k].tolist()} and responses {self.d[k].tolist()}, which no respondent has")
            free.remove(i)
            out.append(i)
        return out

    # -- at every optimizer step -----------------------------------------------------------------------------------------
    def before_step(self, optimizer):
        a = self.plan["trainer"]
        size = self.sizes[self.steps % len(self.sizes)]
        if self.steps % len(self.sizes) == 0:
            self.finish()
        if a == "JML":
            rows = self.joint()
        else:
            rows = self.identify()
        if len(rows) != size:
            raise Violation("wrong-batch", f"step {self.steps} has {len(rows)} respondents, {size} expected")
        self.used += rows
        self.steps += 1
        self.run.probe("batches" if len(self.sizes) > 1 else "whole epochs")
        if a == "AE":
            self.autoencoder(rows)
        elif a == "VAE":
            self.variational(rows)
        self.x = self.d = self.theta = None

    def finish(self):
        """End of an epoch: everybody was used once."""
        if self.steps == 0:
            return
        unused = [i for i in range(self.n) if i not in self.used]
        if unused and len(unused) != self.dropped:
            raise Violation("not-used", f"respondents {unused} were not used in the epoch that ended after step {self.steps}")
        self.used = []

    def compare(self, loss, got, params, what):
        want = torch.autograd.grad(loss, params, allow_unused=True)
        g, v = [], []
        for a, b, p in zip(got, want, params):
            g.append((torch.zeros_like(p) if a is None else a).detach().reshape(-1).double())
            v.append((torch.zeros_like(p) if b is None else b).detach().reshape(-1).double())
        g, v = torch.cat(g), torch.cat(v)
        if not torch.isfinite(g).all() or not torch.isfinite(v).all():
            self.run.probe("not finite")
            return
        self.run.probe("gradients")
        if v.norm() < 1e-4:
            return
        cosine = float(torch.dot(g, v) / (g.norm() * v.norm() + 1e-30))
        if cosine < 0.999:
            raise Violation("wrong-gradient", f"step {self.steps}: the gradient of {what} has a cosine of {cosine:.5f} with that of the likelihood of the respondents in the batch")

    def joint(self) -> list[int]:
        theta = next(p for g in self.algorithm.optimizer.param_groups for p in g["params"] if p.shape[0] == self.n and all(p is not q for q in self.model.parameters()))
        moved = theta.grad.abs().sum(dim=1).nonzero().reshape(-1).tolist()
        twice = [i for i in moved if i in self.used]
        if twice:
            raise Violation("used-twice", f"step {self.steps}: respondents {twice} are used again in the same epoch")
        rows = self.paired(theta.detach(), moved)
        params = list(self.model.parameters())
        model = copy.deepcopy(self.model)
        mine = list(model.parameters())
        t = theta.detach().clone().requires_grad_(True)
        ll, p = log_p(model, t, self.full, self.missing)
        if len(p) and float(p.min()) < 1e-6:
            self.run.probe("unlikely response")
            return rows
        self.compare(-ll[rows].sum(), [theta.grad, *[q.grad for q in params]], [t, *mine], "scores and parameters")
        return rows

    def paired(self, theta, moved) -> list[int]:
        """The respondent of each row of the batch. Those whose score gets a gradient come first."""
        if self.theta is None or self.d is None or self.theta.shape[0] != self.d.shape[0]:
            raise Violation("wrong-batch", f"step {self.steps}: the model got other respondents than the likelihood")
        out = []
        free = moved + [i for i in range(self.n) if i not in moved and i not in self.used]
        for k in range(self.d.shape[0]):
            i = next((i for i in free if torch.equal(self.theta[k], theta[i]) and torch.equal(self.d[k], torch.where(self.missing[i], -1.0, self.full[i]))), None)
            if i is None:
                raise Violation("wrong-pairing", f"step {self.steps}: row {k} of the batch has the score {self.theta[k].tolist()} and responses {self.d[k].tolist()}, as no respondent left in this epoch")
            free.remove(i)
            out.append(i)
        return out

    def autoencoder(self, rows):
        model, encoder = copy.deepcopy(self.model), copy.deepcopy(self.algorithm.encoder)
        params = [*encoder.parameters(), *model.parameters()]
        ll, p = log_p(model, encoder(self.x.float()), self.full[rows], self.missing[rows])
        if len(p) and float(p.min()) < 1e-6:
            self.run.probe("unlikely response")
            return
        real = [*self.algorithm.encoder.parameters(), *self.model.parameters()]
        self.compare(-ll.sum(), [q.grad for q in real], params, "encoder and model")

    def variational(self, rows):
        model, encoder = copy.deepcopy(self.model), copy.deepcopy(self.algorithm.encoder)
        params = [*encoder.parameters(), *model.parameters()]
        mean, logvar = encoder(self.x.float())
        b, k = len(rows), self.plan["iw"]
        if self.theta is None or self.theta.shape[0] != b * k:
            raise Violation("wrong-batch", f"step {self.steps}: {None if self.theta is None else self.theta.shape[0]} samples for {b} respondents")
        samples = self.theta.view(k, b, -1)
        std = torch.exp(0.5 * logvar)
        eps = ((samples - mean) / std).detach()
        if float(eps.abs().max()) > 7:
            raise Violation("wrong-pairing", f"step {self.steps}: samples are {float(eps.abs().max()):.1f} standard deviations away from the encoded respondent")
        theta = mean + eps * std
        ll, p = log_p(model, theta.reshape(b * k, -1), self.full[rows].repeat(k, 1), self.missing[rows].repeat(k, 1))
        if len(p) and float(p.min()) < 1e-6:
            self.run.probe("unlikely response")
            return
        ll = ll.view(k, b)
        a = self.algorithm.annealing_factor
        if k == 1:
            bound = ll[0] - a * 0.5 * (mean ** 2 + logvar.exp() - 1 - logvar).sum(dim=1)
        else:
            log_q = torch.distributions.Normal(mean, std).log_prob(theta).sum(dim=2)
            log_prior = torch.distributions.Normal(0.0, 1.0).log_prob(theta).sum(dim=2)
            bound = torch.logsumexp(ll - a * (log_q - log_prior), dim=0)
        real = [*self.algorithm.encoder.parameters(), *self.model.parameters()]
        self.compare(-bound.sum(), [q.grad for q in real], params, "encoder and model")


def steps(run: Run, w: World, plan, full, missing):
    if plan["trainer"] == "MML":
        return marginal(run, plan, full, missing)
    data = code(full, missing, plan["code"], plan["seed"])
    model = make(plan["model"], plan["latent"], plan["seed"])
    algorithm = zoo.make_algorithm(plan["trainer"])
    torch.manual_seed(plan["seed"] % 2**31)
    kwargs = settings(plan, data)
    guard = zoo.Guard(data=data, **kwargs)
    script, watch = Script(run, w), Steps(run, w, plan, full, missing)
    if not watch.sizes:
        run.probe("no batches")
        return
    watch.attach(model, algorithm, script)
    script.attach(model, algorithm)
    try:
        with Dice(plan["order"], plan["seed"], run, only=("randperm",)):
            model.fit(data, algorithm, **kwargs)
    finally:
        script.detach()
        watch.detach()
    if watch.steps % len(watch.sizes) == 0:
        watch.finish()
    if watch.nan:
        run.probe("nan likelihood")
    elif watch.steps != plan["epochs"] * len(watch.sizes) and all(torch.isfinite(p).all() for p in model.parameters()):
        raise Violation("not-used", f"{watch.steps} optimizer steps in {plan['epochs']} epochs of {len(watch.sizes)} batches")
    bad = guard.changed()
    if bad is not None:
        raise Violation("arguments-changed", f"fitting: {bad}")


def marginal(run: Run, plan, full, missing):
    """The marginal likelihood of a group is the sum of those of its members."""
    plan = {**plan, "epochs": 1}
    data = code(full, missing, plan["code"], plan["seed"])

    def loss(rows):
        model = make(plan["model"], plan["latent"], plan["seed"])
        if plan.get("steep", 1) > 1:        # likelihoods that differ by many orders of magnitude
            with torch.no_grad():
                for q in model.parameters():
                    q.mul_(plan["steep"])
        _, algorithm = fit(run, {**plan, "built": False}, data[rows].clone(), model)
        return float(algorithm.training_history["train_loss"][0])

    whole = loss(list(range(plan["rows"])))
    g = zoo.generator(("groups", plan["seed"]))
    perm = torch.randperm(plan["rows"], generator=g).tolist()
    cut = 1 + int(torch.randint(0, plan["rows"] - 1, (1,), generator=g))
    parts = [loss(perm[:cut]), loss(perm[cut:])] if plan["seed"] % 2 else [loss([i]) for i in range(plan["rows"])]
    run.probe("whole epochs")
    if not all(math.isfinite(x) for x in parts):
        run.probe("no likelihood")
        return
    if not math.isfinite(whole) or abs(sum(parts) - whole) > 1e-3 * (1 + abs(whole)):
        raise Violation("wrong-likelihood", f"the marginal log-likelihood of {plan['rows']} respondents is {-whole:.5f}, the sum over parts of them {-sum(parts):.5f}")
    again = loss(perm)
    if not abs(again - whole) <= 1e-3 * (1 + abs(whole)):
        raise Violation("wrong-likelihood", f"the marginal log-likelihood depends on the order of the respondents: {-whole:.5f}, {-again:.5f}")
    # against the definition
    model = make(plan["model"], plan["latent"], plan["seed"])
    if plan["gauss"] and model.latent_variables == 1 and plan.get("steep", 1) == 1:
        import numpy as np
        x, wt = np.polynomial.hermite.hermgauss(6)
        points = torch.tensor(x * 2 ** 0.5, dtype=torch.float32).view(-1, 1)
        weights = torch.tensor(wt / np.pi ** 0.5)
        p = model.item_probabilities(points).detach().double()
        total = 0.0
        for i in range(plan["rows"]):
            like = weights.clone()
            for j in range(full.shape[1]):
                if not missing[i, j]:
                    like = like * p[:, j, int(full[i, j])]
            total += float(like.sum().log())
        if abs(total + whole) > 1e-3 * (1 + abs(whole)):
            raise Violation("wrong-likelihood", f"the marginal log-likelihood is {-whole:.5f}, {total:.5f} by definition")


# -- coding ----------------------------------------------------------------------------------------------------------
def coding(run: Run, w: World, plan, full, missing):
    a = code(full, missing, plan["code"], plan["seed"])
    b = code(full, missing, plan["other"] if plan["other"] != plan["code"] else "int", plan["seed"] + 1)
    model, algorithm = fit(run, plan, a)
    one = result(model, algorithm)
    two = result(*fit(run, plan, b))
    if plan["trainer"] in ("AE", "VAE") and plan["imputation"] != "random incorrect" and all(t.isfinite().all() for t in one.values()):
        own = model.latent_scores(a.clone(), theta_estimation="NN", device="cpu", rescale=False)
        run.probe("training scores")
        if not zoo.same_tensor(own, one["training theta scores"], rtol=1e-3, atol=1e-4):
            raise Violation("wrong-scores", "the scores kept for the respondents of the training data are not theirs")
    bad = same(one, two)
    if bad is not None:
        raise Violation("coding-matters", f"{bad} depends on whether missing responses are coded as {plan['code']} or {plan['other']}")


def nobody(run: Run, w: World, plan, full, missing):
    """Respondents who answered nothing do not change what is estimated from the others; what stands in place of a missing response does not matter."""
    data = code(full, missing, plan["code"], plan["seed"])
    model = make(plan["model"], plan["latent"], plan["seed"])
    g = zoo.generator(("nobody", plan["seed"]))
    theta = torch.randn(plan["rows"], model.latent_variables, generator=g)
    out = model(theta)
    answers = []
    for k in range(3):
        noise = torch.stack([torch.randint(0, c, (plan["rows"],), generator=g).float() for c in zoo.categories_of(plan["model"])], dim=1)
        stand_in = {0: data, 1: torch.where(missing, noise, full), 2: code(full, missing, "-1")}[k]
        answers.append(model.log_likelihood(stand_in.clone(), out, missing_mask=missing.clone(), loss_reduction="sum").detach())
    want, p = log_p(model, theta, full, missing)
    if len(p) and float(p.min()) > 1e-6:
        for k, ll in enumerate(answers):
            if not zoo.same_tensor(ll, want.sum().detach(), rtol=1e-3, atol=1e-3):
                raise Violation("missing-counts", f"log-likelihood is {float(ll):.5f}, that of the observed responses {float(want.sum()):.5f}, with {['the data', 'valid responses', '-1'][k]} in place of missing responses")
    if plan["trainer"] not in ("JML", "MML"):
        return
    extra = torch.full((3, full.shape[1]), float("nan") if plan["code"] == "nan" else -1.0)
    kw = settings(plan, data)
    kw["max_epochs"] = 1
    results = []
    for d in (data, torch.cat([data[:4], extra, data[4:]])):
        m = make(plan["model"], plan["latent"], plan["seed"])
        alg = zoo.make_algorithm(plan["trainer"])
        if plan["trainer"] == "JML":
            s = start(plan)
            kw["start_thetas"] = s if d is data else torch.cat([s[:4], torch.zeros(3, s.shape[1]), s[4:]])
            kw["batch_size"] = None
        torch.manual_seed(1)
        first = []

        def gradient(optimizer):
            if not first:
                first.append(torch.cat([torch.zeros(q.numel()) if q.grad is None else q.grad.detach().reshape(-1).clone() for q in m.parameters()]).double())

        w.pre_step_hooks.append(gradient)
        try:
            m.fit(d.clone(), alg, **kw)
        finally:
            w.pre_step_hooks.remove(gradient)
        results.append(first[0])
        run.probe("missing responses")
    a, b = results
    if not torch.isfinite(a).all() or float(a.norm()) < 1e-4:
        return
    cosine = float(torch.dot(a, b) / (a.norm() * b.norm() + 1e-30))
    if cosine < 0.9995:
        raise Violation("missing-counts", f"respondents without a single response change the direction of the first gradient: its cosine with that of the others alone is {cosine:.5f}")


# -- evaluation ------------------------------------------------------------------------------------------------------
DATA_QUESTIONS = ("latent_scores", "latent_scores", "residuals", "group_fit_residuals", "accuracy", "predictions", "infit_outfit", "log_likelihood", "group_fit_log_likelihood",
                  "latent_group_probabilities", "mutual_information_difference", "q3", "sum_score_probabilities", "imv", "impute_missing")


def evaluation(run: Run, w: World, plan, full, missing):
    """Answers do not depend on how missing responses are marked."""
    f = {"model": plan["model"], "latent": plan["latent"], "algorithm": plan["trainer"], "rows": plan["rows"], "epochs": 1, "missing": None, "seed": plan["seed"], "scales": [],
         "one_hot": plan["one_hot"]}
    model, _ = ops.build(f)
    theta = torch.randn(plan["rows"], model.latent_variables, generator=zoo.generator(("theta", plan["seed"])))
    answers = []
    other = plan["other"] if plan["other"] != plan["code"] else "mixed" if plan["code"] != "mixed" else "nan"
    cats = [get_item_categories(code(full, missing, how, plan["seed"])) for how in (plan["code"], other)]
    if cats[0] != cats[1] or cats[0] != zoo.categories_of(plan["model"]):
        raise Violation("coding-matters", f"items have {cats} categories when missing responses are coded as {plan['code']} or {other}, {zoo.categories_of(plan['model'])} expected")
    for how in (plan["code"], other):
        c = ops.Ctx(model, code(full, missing, how, plan["seed"]), theta)
        torch.manual_seed(3)
        v, e = run.attempt(ops.ask, plan["question"], c, plan["seed"])
        sparse = plan["question"] == "mutual_information_difference" and "must sum to 1" in str(e)          # a pair of items nobody answered both of
        if e is not None and not (sparse or numeric_failure(e) or isinstance(e, NotImplementedError)):
            raise Violation("unexpected-exception", f"{plan['question']} with missing responses coded as {how}: {describe(e)}")
        answers.append(None if e is not None else v)
    if (answers[0] is None) != (answers[1] is None):
        raise Violation("coding-matters", f"{plan['question']} fails when missing responses are coded as {plan['code'] if answers[0] is None else other}")
    if answers[0] is None:
        return
    bad = ops.differs(*answers)
    if bad is not None:
        raise Violation("coding-matters", f"{plan['question']} depends on whether missing responses are coded as {plan['code']} or {other}: {bad}")


def execute(run: Run) -> None:
    plan = run.plan
    full, missing = responses(plan)
    if missing.any():
        run.probe("missing responses")
    batch = plan["batch"] or plan["rows"]
    with World(run) as w:
        torch.manual_seed(plan["seed"] % 2**31)
        try:
            {"steps": steps, "coding": coding, "nobody": nobody, "evaluation": evaluation}[plan["check"]](run, w, plan, full, missing)
        except Exception as e:  # noqa: BLE001
            if isinstance(e, Violation):
                raise
            if numeric_failure(e):
                run.probe("numeric failure")
                return
            raise Violation("unexpected-exception", f"{plan['check']}: {describe(e)}") from e
    run.state(plan["check"], plan["trainer"], plan["model"], plan["rows"] % batch if batch < plan["rows"] else 0, plan["code"], plan["order"])
    run.ev(plan["check"], plan["trainer"], plan["model"])
