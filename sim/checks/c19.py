"""C19: what a model declares about itself holds after every training step, whatever training does."""
from __future__ import annotations
import copy

import torch

from .. import zoo
from ..common import as_process, disk, numeric_failure, reboot, rng_for
from ..core import Run, Violation, describe
from ..torchops import Injected
from ..train import GRAD_FAULTS, LIB, LOSS_FAULTS, Script
from .c10 import Interrupt

ID = "C19"
QUICK_RUNS = 900
MIN_RUNS = 100
LEVEL = "exploration"
TECHNIQUE = "seeded histories of training under loss and gradient faults, interrupts, refits, copies, saves and loads; the constraints of the model checked on grids of scores after every optimizer step"
LEVEL_NOTE = (
    "Sampled over 12 model types with their options (relationships between items and latent variables, separate networks, negative relationships, multiple choice, degrees), 4 algorithms "
    "and learning rates from 0.05 to 3. The state after every optimizer step is put into a newly built model and evaluated on grids; tolerance 1e-4. "
    "Not claimed while parameters are not finite or beyond 1e3."
)
RULE = (
    "One case is a model with its options and a history of fits (some interrupted, with NaN, infinite, spiking losses and non-finite or huge gradients), copies, saves and loads. "
    "Non-trivial: at least two optimizer steps were checked."
)
STATE_MEASURE = "(model, options, algorithm, faults fired) combinations"
REAL_COMPONENTS = ["irtorch models, torch modules, JML, MML, AE, VAE, save and load", "torch optimizers"]
SIM_COMPONENTS = ["losses and gradients met by the trainer", "interrupts at torch operations and optimizer steps", "disk (healthy)"]
ASSUMPTIONS = ["rounding moves an expected item score by less than 1e-4 while parameters stay below 1e3"]

KINDS = ("1pl", "2pl", "3pl", "gpc", "grm", "nominal", "nested", "mononn", "mononn", "mononn", "monopoly", "monopoly", "monobspline", "surprisal", "mix")


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    kind = r.choice(KINDS)
    latent = 1 if kind == "1pl" else r.choice([1, 2, 2, 3])
    cats = [2] * 4 if kind in ("1pl", "2pl", "3pl") else [r.choice([2, 3, 3, 4]) for _ in range(4)]
    model = {
        "kind": kind, "latent": latent, "cats": cats, "seed": r.randint(0, 999),
        "relations": [[True] * latent for _ in cats] if latent == 1 or r.random() < 0.35 else [_row(r, latent) for _ in cats],
        "separate": r.choice(["items", "categories"]), "negative": r.random() < 0.6, "bounded": r.random() < 0.6, "layers": r.choice([1, 1, 2]), "degree": r.choice([1, 3, 5]),
        "mc": r.random() < 0.35, "correct": [r.randrange(c) for c in cats], "base": r.choice(["2pl", "3pl", "mononn"]), "incorrect": r.choice(["nominal", "bspline"]),
        "parts": [r.choice(["gpc", "mononn", "monopoly"]) for _ in range(2)],
    }
    history = []
    for _ in range(r.choice([1, 1, 2, 2, 3] if tier == "quick" else [2, 3, 4, 5])):
        algorithm = r.choice(["JML", "JML", "MML", "AE", "VAE"])
        epochs = r.choice([2, 3, 6] if tier == "quick" else [4, 8, 16])
        rows = r.choice([10, 14])
        batch = r.choice([None, None, 5]) if algorithm != "MML" else None
        steps = epochs * (1 if batch is None else -(-rows // batch))
        faults = [
            {"step": r.randrange(steps), "kind": r.choice(LOSS_FAULTS + GRAD_FAULTS + ("huge-grad", "spike")), "size": round(0.3 + r.random(), 4)} for _ in range(r.choice([0, 1, 2, 3]))
        ]
        interrupt = None
        if r.random() < 0.25:
            interrupt = {"at": r.choice(["op", "before step", "after step"]), "pos": round(r.random(), 4), "kind": r.choice(Injected.KINDS)}
        history.append({
            "algorithm": algorithm, "epochs": epochs, "rows": rows, "batch": batch, "lr": r.choice([0.05, 0.3, 1.0, 3.0]), "faults": faults, "interrupt": interrupt,
            "seed": r.randint(0, 10**6), "missing": r.choice([0.0, 0.0, 0.2]), "flip": r.random() < 0.5, "hole": r.random() < 0.12, "then": r.choice([None, None, "copy", "load"]),
        })
    return {"seed": seed, "model": model, "history": history}


def _row(r, latent):
    row = [r.random() < 0.5 for _ in range(latent)]
    if not any(row):
        row[r.randrange(latent)] = True
    return row


def shrinks(plan):
    h = plan["history"]
    for i in range(len(h)):
        if len(h) > 1:
            yield {**plan, "history": h[:i] + h[i + 1:]}
        for j in range(len(h[i]["faults"])):
            yield {**plan, "history": h[:i] + [{**h[i], "faults": h[i]["faults"][:j] + h[i]["faults"][j + 1:]}] + h[i + 1:]}
        for key, simple in (("interrupt", None), ("epochs", 1), ("batch", None), ("missing", 0.0), ("flip", False), ("hole", False), ("then", None)):
            if h[i][key] != simple:
                yield {**plan, "history": h[:i] + [{**h[i], key: simple}] + h[i + 1:]}
    m = plan["model"]
    for key, simple in (("mc", False), ("layers", 1), ("degree", 3), ("negative", False), ("base", "2pl")):
        if m[key] != simple:
            yield {**plan, "model": {**m, key: simple}}
    if m["latent"] > 1:
        yield {**plan, "model": {**m, "latent": m["latent"] - 1, "relations": [[True] * (m["latent"] - 1) for _ in m["cats"]]}}


def nontrivial(run: Run) -> bool:
    return run.probes["checked"] >= 2


# -- models ------------------------------------------------------------------------------------------------------------
def build(m: dict):
    with torch.random.fork_rng():
        torch.manual_seed(m["seed"])
        return part(m, m["kind"], m["cats"], m["relations"])


def part(m, kind, cats, relations):
    latent = m["latent"]
    rel = torch.tensor(relations)
    cats = list(cats)
    if kind == "1pl":
        return LIB.OneParameterLogistic(items=len(cats))
    if kind == "2pl":
        return LIB.TwoParameterLogistic(latent_variables=latent, items=len(cats), item_theta_relationships=rel)
    if kind == "3pl":
        return LIB.ThreeParameterLogistic(latent_variables=latent, items=len(cats), item_theta_relationships=rel)
    if kind == "gpc":
        return LIB.GeneralizedPartialCredit(latent_variables=latent, item_categories=cats, item_theta_relationships=rel)
    if kind == "grm":
        return LIB.GradedResponse(latent_variables=latent, item_categories=cats, item_theta_relationships=rel)
    if kind == "nominal":
        return LIB.NominalResponse(latent_variables=latent, item_categories=cats, item_theta_relationships=rel, mc_correct=list(m["correct"]) if m["mc"] else None)
    if kind == "nested":
        base = part(m, m["base"], [2] * len(cats), relations)
        return LIB.NestedLogit(mc_correct=list(m["correct"]), correct_response_model=base, incorrect_response_model=m["incorrect"], latent_variables=latent, item_categories=cats, item_theta_relationships=rel)
    if kind == "mononn":
        return LIB.MonotoneNN(
            latent_variables=latent, item_categories=cats, hidden_dim=[6] * m["layers"], mc_correct=list(m["correct"]) if m["mc"] and m["kind"] == "mononn" else None, item_theta_relationships=rel,
            separate=m["separate"], negative_latent_variable_item_relationships=m["negative"], use_bounded_activation=m["bounded"],
        )
    if kind == "monopoly":
        return LIB.MonotonePolynomial(
            latent_variables=latent, item_categories=cats, degree=m["degree"], item_theta_relationships=rel, separate=m["separate"], negative_latent_variable_item_relationships=m["negative"],
        )
    if kind == "monobspline":
        return LIB.MonotoneBSpline(latent_variables=latent, item_categories=cats, separate=m["separate"])
    if kind == "surprisal":
        return LIB.SurprisalSpline(latent_variables=latent, item_categories=cats, item_theta_relationships=rel)
    half = len(cats) // 2
    return LIB.ModelMix([part(m, m["parts"][0], cats[:half], relations[:half]), part(m, m["parts"][1], cats[half:], relations[half:])])


def scores(m, p):
    """What must be monotone in the latent variables: (respondents, items)."""
    if m["kind"] == "nominal":
        return None
    if m["kind"] == "nested" or m["kind"] == "mononn" and m["mc"]:
        return torch.stack([p[:, j, c] for j, c in enumerate(m["correct"])], dim=1)
    return (p * torch.arange(p.shape[2])).sum(dim=2)


# -- invariants ----------------------------------------------------------------------------------------------------------
TOL = 1e-4


class Invariants:
    def __init__(self, run: Run, m: dict):
        self.run, self.m = run, m
        g = zoo.generator(("c19", m["seed"]))
        latent = m["latent"]
        base = torch.randn(3, latent, generator=g) * 1.5
        base[0] = 0.0
        self.line = torch.tensor([-20.0, -6.0, -3.0, -1.5, -0.5, 0.0, 0.4, 1.0, 2.0, 4.0, 7.0, 20.0])
        rows = []
        for d in range(latent):
            for b in base:
                block = b.repeat(len(self.line), 1)
                block[:, d] = self.line
                rows.append(block)
        self.theta = torch.cat(rows)
        self.shape = (latent, len(base), len(self.line))
        self.twin = build(m)
        self.twin.eval()
        self.late = None                # a violation that is reported at the end of the run, so that all else is checked too

    def state(self, state: dict, what: str):
        """The invariants of a newly built model with these parameter values."""
        if not all(t.isfinite().all() for t in state.values() if t.is_floating_point()):
            self.run.probe("not finite")
            return
        self.twin.load_state_dict(state)
        self.check(self.twin, what)

    @torch.no_grad()
    def check(self, model, what: str):
        m = self.m
        own = [p for p in model.parameters()]
        if not all(p.isfinite().all() for p in own) or max(float(p.abs().max()) for p in own if p.numel()) > 1e3:
            self.run.probe("extreme")
            return
        before = torch.is_grad_enabled()
        output = model(self.theta)
        p = model.item_probabilities(self.theta)
        self.run.probe("checked")
        name = type(model).__mro__[2].__name__
        items, most = len(m["cats"]), max(m["cats"])
        if tuple(p.shape) != (len(self.theta), items, most):
            raise Violation("shape", f"{what}: probabilities of shape {tuple(p.shape)}")
        sane = torch.where(output.isfinite(), output, torch.zeros(())).abs().max() < 2e4
        if not p.isfinite().all():
            if not sane:
                self.run.probe("extreme output")
                return
            raise Violation("invalid-probability", f"{what}: probabilities of {name} are not finite although its parameters are")
        for j, c in enumerate(m["cats"]):
            if c < most and p[:, j, c:].abs().max() > 1e-6:
                raise Violation("impossible-category", f"{what}: item {j} of {name} has {c} categories but responds with another with probability {float(p[:, j, c:].max()):.3g}")
        total = p.sum(dim=2)
        if (total - 1).abs().max() > 1e-3:
            raise Violation("invalid-probability", f"{what}: the probabilities of an item of {name} sum to {float(total.flatten()[(total - 1).abs().argmax()]):.5g}")
        if p.min() < -1e-5:
            j = int((p.amin(dim=(0, 2))).argmin())
            text = f"{what}: {name} responds to item {j} with probability {float(p.min()):.3g}"
            if m["kind"] == "grm" and what != "as built" and disordered(model, j):
                self.late = self.late or Violation("negative-probability", f"{text}, thresholds out of order")
            else:
                raise Violation("negative-probability", text)
        grid = p.view(*self.shape, items, most)
        related = torch.tensor(m["relations"])
        if m["kind"] == "nested":            # the correct response has a model of its own with the same relationships
            pass
        if m["kind"] not in ("monobspline", "1pl"):
            spread = (grid.amax(dim=2) - grid.amin(dim=2)).amax(dim=(1, 3))           # (latent, items)
            for d in range(m["latent"]):
                for j in range(items):
                    if not related[j, d] and spread[d, j] > TOL / 10:
                        raise Violation("unrelated", f"{what}: item {j} of {name} depends on latent variable {d} although it was declared unrelated (probabilities differ by {float(spread[d, j]):.3g})")
        s = scores(m, p)
        if s is not None and sane:
            self.monotone(model, s.view(*self.shape, items), related, what, name)
        getattr(self, f"of_{m['kind']}", lambda *a: None)(model, p, what)
        if torch.is_grad_enabled() != before:
            raise Violation("interpreter-changed", f"{what}: the gradient mode changed")

    def monotone(self, model, s, related, what, name):
        step = s[:, :, 1:] - s[:, :, :-1]                                               # (latent, base, line, items)
        up, down = step.amax(dim=2), step.amin(dim=2)
        tol = TOL * max(1, max(self.m["cats"]) - 1)
        bad = (up > tol) & (down < -tol)
        if bad.any():
            d, _, j = bad.nonzero()[0].tolist()
            raise Violation("not-monotone", f"{what}: the expected score of item {j} of {name} rises by {float(up[bad][0]):.3g} and falls by {float(-down[bad][0]):.3g} along latent variable {d}")
        rises, falls = (up > tol).any(dim=1), (down < -tol).any(dim=1)                  # (latent, items)
        if (rises & falls).any():
            d, j = (rises & falls).nonzero()[0].tolist()
            raise Violation("not-monotone", f"{what}: item {j} of {name} rises with latent variable {d} for some values of the others and falls for others")
        if name in ("SurprisalSpline", "ModelMix"):
            return
        told = model.item_theta_relationship_directions(self.theta)
        if tuple(told.shape) != tuple(related.shape):
            raise Violation("wrong-direction", f"{what}: directions of {name} have shape {tuple(told.shape)}")
        for j in range(related.shape[0]):
            for d in range(related.shape[1]):
                t = float(told[j, d])
                if t not in (-1.0, 0.0, 1.0) or t <= 0 and rises[d, j] or t >= 0 and falls[d, j]:
                    raise Violation("wrong-direction", f"{what}: {name} reports direction {t:g} for item {j} and latent variable {d}, whose expected score {'rises' if rises[d, j] else 'falls' if falls[d, j] else 'is constant'}")
                if self.m["kind"] not in ("monobspline", "1pl") and not related[j, d] and t != 0:
                    raise Violation("wrong-direction", f"{what}: {name} reports direction {t:g} for item {j} and latent variable {d}, which are unrelated")

    # -- of single models ------------------------------------------------------------------------------------------------
    def of_1pl(self, model, p, what):
        inside = (p[:, :, 1] > 1e-3) & (p[:, :, 1] < 1 - 1e-3)
        offset = p[:, :, 1].logit() - self.theta
        for j in range(p.shape[1]):
            o = offset[inside[:, j], j]
            if o.numel() > 1 and o.max() - o.min() > 1e-2:
                raise Violation("slope", f"{what}: item {j} of the one parameter model does not have the common slope")

    def of_3pl(self, model, p, what):
        guess = torch.tensor(model.item_parameters().iloc[:, -1].to_numpy()).float()
        if (guess < 0).any() or (guess > 1).any():
            raise Violation("guessing", f"{what}: guessing parameters {guess.tolist()}")
        if (p[:, :, 1] < guess - TOL).any():
            raise Violation("guessing", f"{what}: an item is answered correctly with less than its guessing probability")

    def of_nested(self, model, p, what):
        own = model.correct_response_model.item_probabilities(self.theta)[:, :, 1]
        if (scores(self.m, p) - own).abs().max() > TOL:
            raise Violation("nested", f"{what}: the probability of a correct response is not that of the model for correct responses")

    def of_mix(self, model, p, what):
        at = 0
        for one in model.models:
            q = one.item_probabilities(self.theta)
            if (p[:, at:at + q.shape[1], :q.shape[2]] - q).abs().max() > TOL:
                raise Violation("mix", f"{what}: the probabilities of the mix are not those of its models")
            at += q.shape[1]


def disordered(model, j) -> bool:
    """Whether the thresholds of an item of a graded response model, as reported, are out of order."""
    table = model.item_parameters()
    d = table[[c for c in table.columns if str(c).startswith("d")]].to_numpy()[j]
    own = [x for x in d[:model.item_categories[j] - 1]]
    return any(b > a for a, b in zip(own, own[1:]))


# -- running -------------------------------------------------------------------------------------------------------------
class Watch(Script):
    def __init__(self, run, w, events, invariants, label):
        super().__init__(run, w, events)
        self.invariants, self.label = invariants, label

    def _after(self, optimizer):
        self.step += 1
        self.run.ev("step", self.step)
        with torch.random.fork_rng():
            self.invariants.state(zoo.param_snapshot(self.model), f"{self.label}, after step {self.step}")


def data_of(m, h):
    data = zoo.make_data(h["rows"], m["cats"], h["seed"], h["missing"], "nan", strength=-1.5 if h["flip"] else 1.5)
    if h["flip"]:                                     # some items are negatively related
        data[:, ::2] = torch.where(data[:, ::2].isnan(), data[:, ::2], torch.tensor(m["cats"][::2]) - 1 - data[:, ::2])
    if h["hole"]:                                     # a category nobody chose
        for j, c in enumerate(m["cats"]):
            if c > 2:
                data[:, j] = torch.where(data[:, j] == 1, torch.tensor(float(c - 1)), data[:, j])
    return data


def kwargs_of(h) -> dict:
    out = zoo.fit_kwargs(h["algorithm"], h["epochs"], learning_rate=h["lr"])
    if h["algorithm"] == "MML":
        out["quadrature_points"] = 5
    elif h["batch"]:
        out["batch_size"] = h["batch"]
    return out


def fit(run, w, model, m, h, invariants, label):
    data = data_of(m, h)
    algorithm = zoo.make_algorithm(h["algorithm"])
    watch = Watch(run, w, [dict(f) for f in h["faults"]], invariants, label)
    watch.attach(model, algorithm)
    try:
        torch.manual_seed(h["seed"])
        if h["interrupt"] is None:
            _, e = run.attempt(model.fit, data, algorithm, **kwargs_of(h))
            if e is not None:
                if numeric_failure(e):
                    run.probe("failed")
                    return False
                raise Violation("unexpected-exception", f"{label} raised {describe(e)}")
        else:
            n = 60 * h["epochs"] if h["interrupt"]["at"] == "op" else h["epochs"]
            with Interrupt(run, w, h["interrupt"], int(h["interrupt"]["pos"] * n)) as it:
                _, e = run.attempt(model.fit, data, algorithm, **kwargs_of(h))
            if e is not None and it.error is None and not numeric_failure(e):
                raise Violation("unexpected-exception", f"{label} raised {describe(e)}")
    finally:
        watch.detach()
    run.state(m["kind"], m["latent"], m["separate"], m["negative"], h["algorithm"], sorted(f["kind"] for f in h["faults"]))
    return True


def execute(run: Run) -> None:
    plan = run.plan
    m = plan["model"]
    with disk(run) as w:
        torch.manual_seed(plan["seed"] % 2**31)
        model = run.call("building the model", build, m)
        invariants = Invariants(run, m)
        try:
            invariants.check(model, "as built")
            for i, h in enumerate(plan["history"]):
                label = f"fit {i} ({h['algorithm']})"
                fit(run, w, model, m, h, invariants, label)
                if not all(p.isfinite().all() for p in model.parameters()):
                    break
                invariants.check(model, f"after {label}")
                if h["then"] == "copy":
                    model = copy.deepcopy(model)
                    invariants.check(model, f"copied after {label}")
                elif h["then"] == "load":
                    path = w.fs.root + "/model.pt"
                    as_process(w, lambda: model.save_model(path))
                    reboot(w)
                    other = build(m)
                    how, v = as_process(w, lambda: other.load_model(path))
                    if how != "ok":
                        raise Violation("unexpected-exception", f"loading raised {describe(v) if v is not None else how}")
                    model = other
                    invariants.check(model, f"loaded after {label}")
        except Exception as e:  # noqa: BLE001
            if isinstance(e, Violation):
                raise
            if numeric_failure(e):
                run.probe("numeric failure")
                return
            raise Violation("unexpected-exception", describe(e)) from e
        if invariants.late is not None:
            raise invariants.late
