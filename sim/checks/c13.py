"""C13: stacked scale transformations act as their composition, in any history."""
from __future__ import annotations
import copy
import os
import random

import torch

from irtorch import rescale as R
from irtorch import models as M

from .. import ops, zoo
from ..common import disk, numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..torchops import Injected, Ops

ID = "C13"
QUICK_RUNS = 400
MIN_RUNS = 40
LEVEL = "exploration"
TECHNIQUE = "seeded histories of adding, detaching, saving, loading, copying, refitting and interrupted transformations, checked against a reference composition and line integrals of the Jacobian"
LEVEL_NOTE = (
    "Sampled histories of 3-8 steps over 7 kinds of transformation on fitted models of 15 types. After each step the composition, the inverse, the Jacobian (line integral), "
    "the scores on both scales and the gradients, information and standard errors on the transformed scale are compared with the references."
)
RULE = (
    "One case is a fitted model and a history of changes to its scale transformations, with interrupted calls in between. "
    "Non-trivial: two or more transformations were stacked at some point, or a transformation survived a load, a copy, a refit or an interrupt."
)
STATE_MEASURE = "(stack of transformations, last step) combinations"
REAL_COMPONENTS = ["irtorch models, scale transformations, evaluator, torch serialisation"]
SIM_COMPONENTS = ["disk", "failing allocations and interrupts at torch operations"]
ASSUMPTIONS = [
    "Jacobians are claimed where a transformation is differentiable and its own grid has points (bit scores: above the starting score, inside the grid)",
    "the deep copies of the transformations taken when they were added transform scores correctly on their own; reversals and rotations are recomputed instead",
]
KINDS = ("reverse", "rotate", "flow", "link", "linknn", "bit", "rank")


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    f = ops.gen_fitted(r, scales=False)
    f["algorithm"] = r.choice(["JML", "MML", "AE", "VAE", "VAE"])
    steps = []
    for _ in range(r.choice([3, 4, 5] if tier == "quick" else [4, 6, 8])):
        k = r.random()
        if k < 0.6 or not steps:
            steps.append({"do": "add", "kind": r.choice([*KINDS[:5], *KINDS[:6], *KINDS]), "seed": r.randint(0, 10**6)})
        else:
            steps.append({"do": r.choice(["load", "load", "copy", "refit", "detach", "interrupt", "interrupt"]), "seed": r.randint(0, 10**6), "pos": round(r.random(), 4),
                          "kind": r.choice(Injected.KINDS), "what": r.choice(["transform", "inverse", "jacobian", "gradients", "scores"])})
    return {"seed": seed, "fitted": f, "steps": steps, "grad": r.random() < 0.5, "how": r.choice(["EAP", "EAP", "NN", "NN", "NN", "ML"])}


def shrinks(plan):
    steps = plan["steps"]
    for i in range(len(steps)):
        if len(steps) > 1:
            yield {**plan, "steps": steps[:i] + steps[i + 1:]}
    for f in ops.shrink_fitted(plan["fitted"]):
        yield {**plan, "fitted": f}


def nontrivial(run: Run) -> bool:
    return run.probes["stacked"] > 0 or run.probes["survived"] > 0 or bool(run.faults)


# -- references ------------------------------------------------------------------------------------------------------
class Ref:
    """What an attached transformation does to scores, remembered apart from the model."""

    def __init__(self, kind, scale, low=-50.0, high=50.0, formula=None, back=None):
        self.kind, self.low, self.high, self.formula, self.back = kind, low, high, formula, back
        self.copy = copy.deepcopy(scale)

    def refresh(self, scale):
        """Bit scores are those of the model as it is now."""
        if self.kind == "bit":
            self.copy = copy.deepcopy(scale)

    def __call__(self, theta):
        return self.formula(theta) if self.formula else self.copy.transform(theta)

    def inverse(self, theta):
        return self.back(theta) if self.back else self.copy.inverse(theta)

    def invertible(self):
        return self.kind in ("reverse", "rotate", "flow", "link")

    def differentiable(self, model):
        return self.kind != "rank" and not (self.kind == "bit" and model.latent_variables > 1)


def make(model, kind, seed):
    """A transformation and its reference."""
    latent = model.latent_variables
    g = zoo.generator(("c13", kind, seed))
    theta = torch.randn(40, latent, generator=g)
    r = random.Random(f"c13/{kind}/{seed}")
    if kind == "reverse":
        which = [r.random() < 0.6 for _ in range(latent)]
        sign = torch.tensor([[-1.0 if w else 1.0 for w in which]])
        return R.Reverse(which), lambda s: Ref(kind, s, formula=lambda t: t * sign, back=lambda t: t * sign)
    if kind == "rotate":
        a = torch.randn(latent, latent, generator=g)
        q = torch.linalg.qr(a)[0]
        if r.random() < 0.6:               # oblique
            q = q + 0.4 * torch.randn(latent, latent, generator=g)
            if torch.linalg.det(q).abs() < 0.2:
                q = torch.linalg.qr(a)[0]
        return R.Rotate(model, rotation_matrix=q.clone()), lambda s: Ref(kind, s, formula=lambda t: t @ q, back=lambda t: t @ torch.linalg.inv(q))
    with torch.random.fork_rng():
        torch.manual_seed(seed)
        if kind == "flow":
            scale = R.Flow(latent)
            scale.fit(theta * r.choice([1, 2.5]) + r.choice([0, 0.7]), max_epochs=r.choice([3, 30]), device="cpu", num_bins=r.choice([8, 50]))
        elif kind in ("link", "linknn"):
            one, two = M.TwoParameterLogistic(latent_variables=1, items=4), M.TwoParameterLogistic(latent_variables=1, items=5)
            zoo.randomise(two, seed)
            scale = R.LinkCommonItems(one, two, [0, 1, 2], [2, 3, 4], method="spline" if kind == "link" else "neuralnet", inverted=r.random() < 0.4)
            scale.fit(theta, max_epochs=r.choice([3, 20]), learning_rate=0.05, device="cpu")
        elif kind == "bit":
            population = theta * 1.3 if r.random() < 0.4 else None
            items = sorted(r.sample(range(model.items), min(model.items, r.choice([1, 2, 3])))) if r.random() < 0.5 else None
            scale = R.Bit(model, population_theta=population, items=items, grid_points=1500)
            lo = -6.5 if population is None else float(population.min(dim=0).values.max())
            hi = 6.5 if population is None else float(population.max(dim=0).values.min())
            return scale, lambda s: Ref(kind, s, low=lo, high=hi)
        elif kind == "rank":
            scale = R.RankCDF(theta)
    return scale, lambda s: Ref(kind, s)


def usable(kind, model) -> bool:
    return not (kind in ("link", "linknn") and model.latent_variables != 1)


def fold(refs, theta):
    for ref in refs:
        theta = ref(theta)
    return theta


# -- checks ----------------------------------------------------------------------------------------------------------
def close(a, b, rtol=1e-4, atol=1e-4) -> bool:
    return a.shape == b.shape and torch.allclose(a.double(), b.double(), rtol=rtol, atol=atol, equal_nan=True)


def gap(a, b) -> str:
    if a.shape != b.shape:
        return f"shape {tuple(a.shape)}, {tuple(b.shape)} expected"
    d = (a.double() - b.double()).abs().nan_to_num(nan=1e30)
    k = int(d.argmax())
    return f"{a.reshape(-1)[k].item():.6g}, {b.reshape(-1)[k].item():.6g} expected"


class State:
    def __init__(self, run, model, data, plan):
        self.run, self.model, self.data, self.refs, self.plan = run, model, data, [], plan
        g = zoo.generator(("c13 theta", plan["seed"]))
        self.theta = (torch.randn(4, model.latent_variables, generator=g) * 1.2).clamp(-3, 3)
        self.resp = zoo.make_data(4, zoo.categories_of(plan["fitted"]["model"]), (plan["seed"], "resp"))
        self.baseline()

    def baseline(self):
        """What the model says about the original scale when nothing is attached."""
        bare = copy.deepcopy(self.model)
        bare.detach_scale_transformations()
        self.bare, self.known = bare, {}
        self.how = self.method(False)
        with torch.enable_grad():
            self.gradients = bare.expected_item_score_gradients(self.theta, rescale=True)
            self.slopes = bare.probability_gradients(self.theta, rescale=True).detach()
            self.info = bare.information(self.theta, item=False, rescale=True)

    def method(self, last: bool) -> str:
        """Searching for scores is slow, so that it is done at the end of a history only."""
        how = self.plan["how"]
        if how == "NN":
            return how if hasattr(self.bare.algorithm, "encoder") else "EAP"
        return how if last else "EAP"

    def own(self):
        if self.how not in self.known:
            self.known[self.how] = self.scores(self.bare, False)
        return self.known[self.how]

    def scores(self, model, rescale, se=False):
        torch.manual_seed(5)
        extra = {"eap_theta_integration_points": 9} if self.how == "EAP" else {}
        return model.latent_scores(self.resp.clone(), theta_estimation=self.how, device="cpu", rescale=rescale, standard_errors=se, **extra)


def fail(state, kind, text):
    raise Violation(kind, f"{' > '.join(r.kind for r in state.refs) or 'no transformation'}: {text}")


def inspect(state: State) -> None:
    run, model, refs, theta = state.run, state.model, state.refs, state.theta
    if len(model.scale) != len(refs):
        fail(state, "wrong-stack", f"{len(model.scale)} transformations attached, {len(refs)} expected")
    differentiable = all(r.differentiable(model) for r in refs)
    with torch.set_grad_enabled(state.plan["grad"]):
        keep = theta.clone()
        want = fold(refs, theta.clone()).detach()
        got = model.transform_theta(theta).detach()
        if not torch.isfinite(want).all():
            run.probe("not finite")
            return
        if not close(got, want):
            fail(state, "not-the-composition", f"transformed scores are {gap(got, want)}")
        run.probe("composed")
        if all(r.invertible() for r in refs):
            back = model.inverse_transform_theta(got.clone()).detach()
            again = fold(refs, back).detach()
            if not close(again, got, 1e-3, 2e-3):
                fail(state, "not-inverted", f"transforming the restored scores gives {gap(again, got)}")
        else:
            try:
                model.inverse_transform_theta(got.clone())
            except NotImplementedError:
                pass
            else:
                fail(state, "not-inverted", "the inverse of a transformation that has none was computed")
        own = state.scores(model, False)
        if not close(own, state.own(), 1e-3, 1e-3):
            fail(state, "original-scores-changed", f"scores on the original scale are {gap(own, state.own())}")
        scaled = state.scores(model, True)
        expected = fold(refs, own).detach()
        if not close(scaled, expected, 1e-3, 1e-3):
            fail(state, "not-the-composition", f"scores on the transformed scale are {gap(scaled, expected)}")
        if not differentiable:
            refused(state)
        else:
            jacobian(state, want)
    if not torch.equal(theta, keep):
        fail(state, "arguments-changed", "the scores of the caller changed")


def refused(state: State) -> None:
    model, theta = state.model, state.theta
    for name, fn in (("jacobian", lambda: model.theta_transform_jacobian(theta)), ("gradients", lambda: model.probability_gradients(theta))):
        try:
            fn()
        except NotImplementedError:
            continue
        fail(state, "wrong-jacobian", f"{name} was computed although a transformation has no derivative")
    own = model.probability_gradients(theta, rescale=False).detach()
    if not close(own, state.slopes, 1e-3, 1e-4):
        fail(state, "wrong-gradients", f"probability gradients on the original scale are {gap(own, state.slopes)}")


def inside(refs, theta) -> torch.Tensor:
    """Rows that stay where every transformation has its grid."""
    ok = torch.ones(theta.shape[0], dtype=torch.bool)
    for ref in refs:
        ok &= ((theta > ref.low) & (theta < ref.high)).all(dim=1)
        theta = ref(theta)
    return ok


def jacobian(state: State, transformed) -> None:
    run, model, refs, theta = state.run, state.model, state.refs, state.theta
    # T(b) - T(a) is the integral of J along the line from a to b
    g = zoo.generator(("c13 line", state.plan["seed"], len(refs)))
    step = torch.randn(theta.shape, generator=g) * 0.3
    n = 81
    w = torch.linspace(0, 1, n).view(n, 1, 1)
    line = (theta + w * step).reshape(-1, theta.shape[1])
    ok = inside(refs, line).view(n, -1).all(dim=0)
    jac = model.theta_transform_jacobian(line.clone()).detach()
    latent = model.latent_variables
    if jac.shape != (line.shape[0], latent, latent):
        fail(state, "wrong-jacobian", f"the jacobian has shape {tuple(jac.shape)}")
    j = jac.view(n, -1, latent, latent)
    speed = torch.einsum("nrij,rj->nri", j, step)
    integral = torch.trapezoid(speed, dx=1.0 / (n - 1), dim=0)
    ends = model.transform_theta(torch.cat([theta, theta + step])).detach()
    real = ends[theta.shape[0]:] - ends[: theta.shape[0]]
    size = torch.trapezoid(speed.abs(), dx=1.0 / (n - 1), dim=0)
    wrong = ((integral - real).abs() > 0.02 * size + 2e-3 + 1e-5 * ends.abs().amax()) & ok.unsqueeze(1)
    if wrong.any():
        k = tuple(int(i) for i in wrong.nonzero()[0])
        fail(state, "wrong-jacobian", f"from {theta[k[0]].tolist()} to {(theta + step)[k[0]].tolist()} the transformed score {k[1]} moves by {real[k].item():.5g}, the jacobian says {integral[k].item():.5g}")
    run.probe("jacobians")
    derived(state, j[0])


def derived(state: State, j) -> None:
    """Gradients, information and standard errors on the transformed scale follow from the jacobian."""
    run, model, theta = state.run, state.model, state.theta
    sv = torch.linalg.svdvals(j.double())
    good = (sv[:, -1] > 1e-2) & (sv[:, 0] < 1e2)
    jt = j.transpose(1, 2)
    g = model.expected_item_score_gradients(theta, rescale=True).detach()
    back = torch.einsum("rab,rib->ria", jt, g)
    if not close(back[good], state.gradients[good], 1e-2, 1e-3):
        fail(state, "wrong-gradients", f"expected score gradients, taken back to the original scale: {gap(back[good], state.gradients[good])}")
    s = model.probability_gradients(theta, rescale=True).detach()
    back = torch.einsum("rab,rikb->rika", jt, s)
    if not close(back[good], state.slopes[good], 1e-2, 1e-3):
        fail(state, "wrong-gradients", f"probability gradients, taken back to the original scale: {gap(back[good], state.slopes[good])}")
    own = model.probability_gradients(theta, rescale=False).detach()
    if not close(own, state.slopes, 1e-3, 1e-4):
        fail(state, "wrong-gradients", f"probability gradients on the original scale are {gap(own, state.slopes)}")
    info = model.information(theta, item=False, rescale=True)
    back = jt @ info @ j
    if not close(back[good], state.info[good], 2e-2, 1e-3 * (1 + float(state.info.abs().amax()))):
        fail(state, "wrong-information", f"information, taken back to the original scale: {gap(back[good], state.info[good])}")
    if model.latent_variables > 1:
        degrees = [30, 60]
        c = torch.tensor(degrees).float().deg2rad().cos()
        direct = model.information(theta, item=False, degrees=degrees, rescale=True)
        want = torch.einsum("i,rij,j->r", c, info, c)
        if not close(direct[good], want[good], 1e-2, 1e-3 * (1 + float(want[good].abs().amax()) if good.any() else 1.0)):
            fail(state, "wrong-information", f"information in a direction is {gap(direct[good], want[good])}")
    own = model.information(theta, item=False, rescale=False)
    if not close(own, state.info, 1e-3, 1e-3):
        fail(state, "wrong-information", f"information on the original scale is {gap(own, state.info)}")
    if state.how in ("NN", "ML"):
        errors(state)


def errors(state: State) -> None:
    model = state.model
    a, se = state.scores(model, False, se=True)
    b, scaled = state.scores(model, True, se=True)
    a = a.detach()
    if not close(b.detach(), fold(state.refs, a).detach(), 1e-3, 1e-3):
        fail(state, "not-the-composition", "scores reported with standard errors differ")
    if not inside(state.refs, a).all():
        return
    j = model.theta_transform_jacobian(a).detach()
    if not torch.isfinite(j).all() or not torch.isfinite(se).all():
        return
    if hasattr(model.algorithm, "latent_mean_se") and state.how == "NN":
        want = torch.einsum("rij,rj,rij->ri", j.double(), se.detach().double() ** 2, j.double()).sqrt()
    elif model.latent_variables == 1:
        want = j[:, :, 0].abs() * se.detach()
    else:
        return
    good = (torch.linalg.svdvals(j.double())[:, -1] > 1e-2) & (se.detach() < 1e2).all(dim=1)
    state.run.probe("standard errors")
    if not close(scaled.detach()[good], want[good], 2e-2, 1e-3):
        fail(state, "wrong-standard-errors", f"standard errors on the transformed scale are {gap(scaled.detach()[good], want[good])}")


# -- histories -------------------------------------------------------------------------------------------------------
def execute(run: Run) -> None:
    plan = run.plan
    with disk(run) as w:
        w.fs.adopt()
        try:
            model, data = ops.build(plan["fitted"])
        except Exception as e:  # noqa: BLE001
            if not numeric_failure(e):
                raise Violation("unexpected-exception", f"building the fitted model raised {describe(e)}") from e
            run.probe("diverged fit")
            return
        if not all(torch.isfinite(p).all() for p in model.parameters()):
            run.probe("diverged fit")
            return
        state = State(run, model, data, plan)
        for i, step in enumerate(plan["steps"]):
            try:
                if not take(run, w, state, step, i):
                    continue
                state.how = state.method(i == len(plan["steps"]) - 1)
                inspect(state)
            except Exception as e:  # noqa: BLE001
                if isinstance(e, Violation):
                    raise
                if numeric_failure(e):
                    run.probe("numeric failure")
                    return
                raise Violation("unexpected-exception", f"step {i} ({step['do']}), {' > '.join(r.kind for r in state.refs)}: {describe(e)}") from e
            run.state(">".join(r.kind for r in state.refs), step["do"])
            run.ev(step["do"], [r.kind for r in state.refs])
            if len(state.refs) > 1:
                run.probe("stacked")


def take(run: Run, w, state: State, step, i) -> bool:
    model, s = state.model, step["seed"]
    torch.manual_seed(s)
    do = step["do"]
    if do == "add":
        if not usable(step["kind"], model):
            return False
        scale, ref = make(model, step["kind"], s)
        state.refs.append(ref(scale))
        model.add_scale_transformation(scale)
        run.probe(step["kind"])
        return True
    if do == "detach":
        model.detach_scale_transformations()
        state.refs = []
        return True
    if state.refs:
        run.probe("survived")
    if do == "copy":
        state.model = copy.deepcopy(model)
        return True
    if do == "load":
        path = os.path.join(w.fs.root, f"m{i}.pt")
        model.save_model(path)
        f = state.plan["fitted"]
        other = zoo.make_model(f["model"], f["latent"], s)
        if s % 2:
            other.add_scale_transformation(R.Reverse([True] * model.latent_variables))
        other.load_model(path)
        zoo.randomise(model, s)                 # the file does not tie the two models together
        model.detach_scale_transformations()
        state.model = other
        return True
    if do == "refit":
        f = state.plan["fitted"]
        data = zoo.make_data(11, zoo.categories_of(f["model"]), s)
        algorithm = random.Random(s).choice(["JML", "MML", "VAE"])
        kept = copy.deepcopy(model)
        model.fit(data, zoo.make_algorithm(algorithm), **zoo.fit_kwargs(algorithm, 2))
        if not all(torch.isfinite(p).all() for p in model.parameters()):
            state.model = kept
        for ref, scale in zip(state.refs, state.model.scale):
            ref.refresh(scale)
        state.baseline()
        return True
    if do == "interrupt":
        theta = state.theta
        calls = {
            "transform": lambda: model.transform_theta(theta), "inverse": lambda: model.inverse_transform_theta(theta),
            "jacobian": lambda: model.theta_transform_jacobian(theta), "gradients": lambda: model.expected_item_score_gradients(theta),
            "scores": lambda: state.scores(model, True),
        }
        fn = calls[step["what"]]
        with Ops() as count:
            run.attempt(fn)
        with Ops(int(step["pos"] * max(count.n, 1)), step["kind"], run) as m:
            run.attempt(fn)
        run.ev("interrupted", step["what"], m.where)
        return True
    raise ValueError(do)
