"""C11: scoring and evaluating changes nothing, even when it is interrupted."""
from __future__ import annotations

import torch

from .. import ops, zoo
from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe, generic_shrinks
from ..torchops import Injected, Ops, count_ops, is_injected
from ..watch import Picture
from ..world import World, rng_restore, rng_snapshot

ID = "C11"
QUICK_RUNS = 1000
MIN_RUNS = 60
LEVEL = "exploration"
TECHNIQUE = "seeded sequences of read-only calls with interrupts and failing allocations at chosen tensor operations, state compared before and after"
LEVEL_NOTE = (
    "Sampled sequences of 2-6 of 36 public read-only calls on fitted models of 15 types (4 algorithms, up to 2 scale transformations). About half of the calls are "
    "interrupted at one of their allocating tensor operations; in place updates and views are no crash points. Everything public is compared exactly."
)
RULE = (
    "One case is a fitted model, tensors of the caller (contiguous or slices of larger tensors, with or without requires_grad) and a sequence of questions, each "
    "possibly interrupted at a tensor operation and then asked again. Non-trivial: an interrupt fired, or at least three questions were answered."
)
STATE_MEASURE = "(question, fault kind, interrupted operation, outcome) combinations"
REAL_COMPONENTS = ["irtorch models, evaluator, scales, utils"]
SIM_COMPONENTS = ["failing allocations and interrupts at torch operations"]
ASSUMPTIONS = ["trouble meets operations that need memory; in place updates and views complete"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    f = ops.gen_fitted(r)
    names = list(ops.QUESTIONS)
    calls = []
    for _ in range(r.choice([2, 3, 4] if tier == "quick" else [3, 5, 8])):
        q = r.choice(names + ["latent_scores"] * 4 + ["sample_test_data", "residuals"])
        fault = None
        if r.random() < 0.55:
            fault = {"kind": r.choice(Injected.KINDS), "pos": round(r.random(), 4)}
        calls.append({"q": q, "seed": r.randint(0, 10**6), "fault": fault})
    return {
        "seed": seed, "fitted": f, "calls": calls, "theta": r.choice(["plain", "plain", "slice", "grad", "leaf-slice"]), "data": r.choice(["plain", "slice", "transposed"]),
        "rows": r.choice([7, 7, 7, 1, 3]), "frozen": r.choice([0, 0, 1, 2, 3]),
    }


def shrinks(plan):
    yield from generic_shrinks(plan, ("calls",), {})
    for i, c in enumerate(plan["calls"]):
        if c["fault"]:
            yield {**plan, "calls": plan["calls"][:i] + [{**c, "fault": None}] + plan["calls"][i + 1:]}
    if plan["frozen"]:
        yield {**plan, "frozen": 0}
    for key in ("theta", "data"):
        if plan[key] != "plain":
            yield {**plan, key: "plain"}
    for f in ops.shrink_fitted(plan["fitted"]):
        yield {**plan, "fitted": f}


def nontrivial(run: Run) -> bool:
    return bool(run.faults) or run.probes["answered"] >= 3


class Caller:
    """Tensors as a user may hold them."""

    def __init__(self, run, model, data):
        plan = run.plan
        self.c = ops.context(plan["fitted"], model, data, max(plan["rows"], 7))
        n = plan["rows"]
        theta, resp = self.c.theta[:n].clone(), self.c.data[:n].clone()
        if n < 7 and resp.isnan().any():
            resp = torch.where(torch.isnan(resp), torch.zeros_like(resp), resp)
        guard = {}
        if plan["theta"] in ("slice", "leaf-slice"):
            big = torch.cat([theta, theta * 2 + 1], dim=0)
            if plan["theta"] == "leaf-slice":
                big.requires_grad_(True)
            guard["tensor that theta is a part of"] = big
            theta = big[:n]
            if plan["theta"] == "leaf-slice":
                theta = theta.detach()           # shares memory with the caller's parameter
        elif plan["theta"] == "grad":
            theta.requires_grad_(True)
        if plan["data"] == "slice":
            big = torch.cat([resp, resp], dim=1)
            guard["tensor that data is a part of"] = big
            resp = big[:, : resp.shape[1]]
        elif plan["data"] == "transposed":
            big = resp.t().contiguous()
            guard["tensor that data is a view of"] = big
            resp = big.t()
        self.c.theta, self.c.data = theta, resp
        self.guard = zoo.Guard(theta=theta, data=resp, train_data=data, **guard)
        self.grad = plan["theta"] == "grad"


def may_fail(e: BaseException, caller: Caller) -> bool:
    if isinstance(e, NotImplementedError) or numeric_failure(e):
        return True
    return caller.grad and isinstance(e, RuntimeError) and "requires grad" in str(e)


def unchanged(run: Run, picture: Picture, caller: Caller, label: str) -> None:
    bad = picture.changed()
    if bad is not None:
        raise Violation(bad[0], f"{label}: {bad[1]}")
    bad = caller.guard.changed()
    if bad is not None:
        raise Violation("arguments-changed", f"{label}: {bad}")


def answer(run: Run, caller: Caller, call: dict, label: str):
    v, e = run.attempt(ops.ask, call["q"], caller.c, call["seed"])
    if e is not None and not may_fail(e, caller):
        raise Violation("unexpected-exception", f"{label} raised {describe(e)}")
    return v, e


def execute(run: Run) -> None:
    plan = run.plan
    with World(run):
        try:
            model, data = ops.build(plan["fitted"])
        except Exception as e:  # noqa: BLE001
            if not numeric_failure(e):
                raise Violation("unexpected-exception", f"building the fitted model raised {describe(e)}") from e
            run.probe("diverged fit")
            return
        if not all(torch.isfinite(p).all() for p in model.parameters()):
            run.probe("diverged fit")
            return
        torch.manual_seed(plan["seed"])
        caller = Caller(run, model, data)
        parameters = list(model.parameters())
        for k in rng_for(plan["seed"], "frozen").sample(range(len(parameters)), min(plan["frozen"], len(parameters))):
            parameters[k].requires_grad_(False)
        if run.plan["rows"] < 3:
            run.probe("single respondent")
        picture = Picture(model)
        unchanged(run, picture, caller, "nothing was asked")
        for i, call in enumerate(plan["calls"]):
            ask(run, caller, picture, call, f"call {i} ({call['q']})")


def ask(run: Run, caller: Caller, picture: Picture, call: dict, label: str) -> None:
    before = rng_snapshot()
    n, m = 0, None
    if run.plan["rows"] < 7 and call["q"] not in SMALL:
        return
    if call["fault"]:
        n = count_ops(lambda: ops.ask(call["q"], caller.c, call["seed"]))
        unchanged(run, picture, caller, label)
        rng_restore(before)
    if call["fault"] and n:
        at = min(n - 1, int(call["fault"]["pos"] * n))
        with Ops(at, call["fault"]["kind"], run) as m:
            v, e = run.attempt(ops.ask, call["q"], caller.c, call["seed"])
        what = f"{label}, {call['fault']['kind']} at operation {at} of {n} ({m.where})"
        run.ev(label, call["fault"]["kind"], at, n, "raised" if e is not None else "returned")
        run.state(call["q"], call["fault"]["kind"], m.where, e is not None)
        unchanged(run, picture, caller, what)
        if m.error is not None:
            if e is not None and not is_injected(e, m.error):
                if not (isinstance(e, NotImplementedError) or may_fail(e, caller)):
                    raise Violation("wrong-error", f"{what}: raised {describe(e)} instead of the original error")
            elif e is None and call["fault"]["kind"] == "kbi":
                raise Violation("hidden-interrupt", f"{what}: the interrupt was swallowed")
        rng_restore(before)
    want, refused = answer(run, caller, call, label)
    unchanged(run, picture, caller, label)
    if refused is None:
        run.probe("answered")
        if m is not None and m.error is not None and e is None:
            bad = shapes(v, want)
            if bad:
                raise Violation("invalid-result", f"{what}: survived with {bad}")
    run.state(call["q"], "plain", type(refused).__name__)
    run.ev(label, "answered" if refused is None else type(refused).__name__)


# questions that make sense for a handful of respondents
SMALL = {
    "latent_scores", "item_probabilities", "expected_scores", "information", "expected_item_score_gradients", "probability_gradients", "transform_theta",
    "sample_test_data", "inverse_transform_theta", "population_difficulty", "population_discrimination", "theta_transform_jacobian", "log_likelihood",
}


def shapes(got, want) -> str | None:
    a, b = ops.flatten(got), ops.flatten(want)
    if [t.shape for t in a] != [t.shape for t in b]:
        return f"shapes {[tuple(t.shape) for t in a]} instead of {[tuple(t.shape) for t in b]}"
    for x, y in zip(a, b):
        if torch.isnan(x.double()).sum() > torch.isnan(y.double()).sum():
            return "values that are not numbers"
    return None
