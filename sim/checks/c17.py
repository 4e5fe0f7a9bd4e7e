"""C17: a respondent's score does not depend on who else is scored, nor on when."""
from __future__ import annotations

import torch

from .. import ops, zoo
from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..torchops import Injected, Ops, is_injected
from ..world import World

ID = "C17"
QUICK_RUNS = 800
MIN_RUNS = 80
LEVEL = "exploration"
TECHNIQUE = "seeded splits of the respondents into chunks scored in any order, with interrupts, retries and other questions in between, checked against one batch"
LEVEL_NOTE = (
    "Sampled over 21 models of 15 types and sizes, 4 algorithms, up to 2 scale transformations, 15 questions with one answer per respondent, 1-24 respondents with duplicates and missing "
    "responses. Chunks are also given as slices and, for one respondent, as a vector. Compared to 1e-3. ML and MAP scores are not claimed (joint optimisation)."
)
RULE = (
    "One case is a fitted model, respondents and a question; the respondents are permuted, split into chunks and scored at different times, chunks possibly interrupted "
    "and retried, with other questions in between. Non-trivial: at least two chunks."
)
STATE_MEASURE = "(question, chunk sizes, events in between) combinations"
REAL_COMPONENTS = ["irtorch models, evaluator, scales"]
SIM_COMPONENTS = ["order and time of the chunks", "failing allocations and interrupts at torch operations"]
ASSUMPTIONS = ["rounding differs between batch sizes by less than 1e-3"]


def eap(m, d, t, p):
    return m.latent_scores(d, theta_estimation="EAP", device="cpu", rescale=p["rescale"], eap_theta_integration_points=p["points"])


def nn(m, d, t, p):
    return m.latent_scores(d, theta_estimation="NN", device="cpu", rescale=p["rescale"])


def nn_se(m, d, t, p):
    return m.latent_scores(d, theta_estimation="NN", standard_errors=True, device="cpu", rescale=p["rescale"])


QUESTIONS = {
    "EAP": eap, "NN": nn, "NN with standard errors": nn_se,
    "item_probabilities": lambda m, d, t, p: m.item_probabilities(t),
    "expected_scores": lambda m, d, t, p: m.expected_scores(t, return_item_scores=p["flag"]),
    "information": lambda m, d, t, p: m.information(t, item=p["flag"], rescale=p["rescale"]),
    "expected_item_score_gradients": lambda m, d, t, p: m.expected_item_score_gradients(t, rescale=p["rescale"]),
    "probability_gradients": lambda m, d, t, p: m.probability_gradients(t, rescale=p["rescale"]),
    "transform_theta": lambda m, d, t, p: m.transform_theta(t),
    "jacobian": lambda m, d, t, p: m.theta_transform_jacobian(t),
    "log_likelihood": lambda m, d, t, p: m.evaluate.log_likelihood(d, t, reduction="none", level="respondent"),
    "log_likelihood sums": lambda m, d, t, p: m.evaluate.log_likelihood(d, t, reduction=p["reduction"], level="respondent"),
    "log_likelihood by EAP": lambda m, d, t, p: m.evaluate.log_likelihood(d, reduction="sum", level="respondent", theta_estimation="EAP", device="cpu"),
    "residuals": lambda m, d, t, p: m.evaluate.residuals(d, t, average_over="items" if p["flag"] else "none"),
    "residuals by EAP": lambda m, d, t, p: m.evaluate.residuals(d, theta_estimation="EAP", device="cpu"),
    "infit and outfit": lambda m, d, t, p: m.evaluate.infit_outfit(d, t, level="respondent"),
    "accuracy": lambda m, d, t, p: m.evaluate.accuracy(d, t, level="respondent"),
    "prior expected": lambda m, d, t, p: impute(m, d),
}
WEIGHTS = {"EAP": 6, "NN": 6, "NN with standard errors": 3, "transform_theta": 3}


def impute(m, d):
    from irtorch.utils import impute_missing
    return impute_missing(d, method="zero")


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    long = r.random() < 0.1          # many items, of which some respondents see few
    f = ops.gen_fitted(r, scales=not long, algorithms=("MML", "AE", "JML") if long else ops.FIT_ALGORITHMS, names=["2pl-long", "gpc-long"] if long else None)
    scores = not long and r.random() < 0.15         # transformed scores of several latent variables
    if scores:
        name = r.choice([m for m in zoo.MODELS if zoo.SPECS[m][1] > 1])
        f = {**f, "model": name, "latent": 2, "scales": r.sample(["reverse", "rotate", "flow", "rank"], r.choice([0, 0, 1])) + ["bit-wide"]}
    names = [q for q in QUESTIONS if not q.startswith("NN") or f["algorithm"] in ("AE", "VAE")]
    n = r.choice([2, 5, 9, 14] if tier == "quick" else [5, 14, 24, 60])
    jobs = []
    for _ in range(r.choice([1, 2])):
        order = list(range(n))
        r.shuffle(order)
        if r.random() < 0.3:
            order += [r.randrange(n) for _ in range(3)]              # some are scored twice
        chunks, k = [], 0
        while k < len(order):
            size = r.choice([1, 1, 2, 3, 5, n])
            chunks.append({
                "rows": order[k:k + size], "at": int(10 ** r.uniform(0, 2.6)) if r.random() < 0.2 else None, "kind": r.choice(Injected.KINDS),
                "between": r.choice([None, None, r.choice(list(ops.QUESTIONS))]), "layout": r.choice(["plain", "slice", "transposed", "vector"]),
            })
            k += size
        jobs.append({
            "q": r.choices(names, [WEIGHTS.get(q, 1) for q in names])[0] if not scores else "transform_theta", "chunks": chunks,
            "p": {"rescale": r.random() < 0.5 or scores, "flag": r.random() < 0.5, "points": r.choice([None, 9, 21]), "reduction": r.choice(["sum", "mean"])},
        })
    return {"seed": seed, "fitted": f, "n": n, "jobs": jobs}


def shrinks(plan):
    for i, j in enumerate(plan["jobs"]):
        if len(plan["jobs"]) > 1:
            yield {**plan, "jobs": plan["jobs"][:i] + plan["jobs"][i + 1:]}
        for k, c in enumerate(j["chunks"]):
            def put(new):
                return {**plan, "jobs": plan["jobs"][:i] + [{**j, "chunks": j["chunks"][:k] + new + j["chunks"][k + 1:]}] + plan["jobs"][i + 1:]}
            if len(j["chunks"]) > 1:
                yield put([])
            for key, simple in (("at", None), ("between", None), ("layout", "plain")):
                if c[key] != simple:
                    yield put([{**c, key: simple}])
            if len(c["rows"]) > 1:
                yield put([{**c, "rows": c["rows"][: len(c["rows"]) // 2]}])
    for f in ops.shrink_fitted(plan["fitted"]):
        yield {**plan, "fitted": f}


def nontrivial(run: Run) -> bool:
    return run.probes["chunks"] >= 2


def laid_out(x: torch.Tensor, layout: str, vector: bool) -> torch.Tensor:
    if layout == "slice":
        return torch.cat([x + 7, x, x + 7], dim=1)[:, x.shape[1]: 2 * x.shape[1]]
    if layout == "transposed":
        return x.t().contiguous().t()
    if layout == "vector" and vector and x.shape[0] == 1:
        return x[0].clone()
    return x.clone()


def may_fail(e) -> bool:
    return isinstance(e, NotImplementedError) or numeric_failure(e)


def execute(run: Run) -> None:
    plan = run.plan
    f = plan["fitted"]
    with World(run):
        try:
            model, data = ops.build(f)
        except Exception as e:  # noqa: BLE001
            if not numeric_failure(e):
                raise Violation("unexpected-exception", f"building the fitted model raised {describe(e)}") from e
            run.probe("diverged fit")
            return
        c = ops.context(f, model, data, max(plan["n"], 4))
        test, theta = c.data[: plan["n"]], c.theta[: plan["n"]]
        if f["model"].endswith("-long"):
            r = rng_for(f["seed"], "C17 few")
            for row in test:
                few = r.choice([1, 2, 10, 100, row.numel(), row.numel()])
                row[few:] = -1.0
        for j in plan["jobs"]:
            job(run, model, c, test, theta, j)


def job(run: Run, model, c, test, theta, j) -> None:
    ask = QUESTIONS[j["q"]]
    whole, e = run.attempt(ask, model, test.clone(), theta.clone(), j["p"])
    if e is not None:
        if may_fail(e):
            return
        raise Violation("unexpected-exception", f"{j['q']} raised {describe(e)}")
    want = ops.flatten(whole)
    for t in want:
        if t.dim() == 0 or t.shape[0] != test.shape[0]:
            raise Violation("wrong-shape", f"{j['q']}: shape {tuple(t.shape)} for {test.shape[0]} respondents")
        if j["q"] == "EAP" and not t.isfinite().all() and not j["p"]["rescale"]:
            raise Violation("not-a-score", f"EAP scores of respondents {(~t.isfinite().all(dim=1)).nonzero().reshape(-1).tolist()} are not finite")
    run.state(j["q"], [len(k["rows"]) for k in j["chunks"]], [k["between"] for k in j["chunks"]])
    for k, chunk in enumerate(j["chunks"]):
        if chunk["between"]:
            v, e = run.attempt(ops.ask, chunk["between"], c, k)
            run.probe("between")
        rows = torch.tensor(chunk["rows"])
        label = f"{j['q']} of respondents {chunk['rows']} ({chunk['layout']})"

        def score():
            return ask(model, laid_out(test[rows], chunk["layout"], j["q"] in ("EAP", "NN", "NN with standard errors")), theta[rows].clone(), j["p"])

        if chunk["at"] is not None:
            with Ops(chunk["at"], chunk["kind"], run) as m:
                _, e = run.attempt(score)
            if m.error is not None and e is not None and not is_injected(e, m.error) and not may_fail(e):
                raise Violation("unexpected-exception", f"{label}, interrupted, raised {describe(e)}")
        part, e = run.attempt(score)
        if e is not None:
            raise Violation("unexpected-exception", f"{label} raised {describe(e)}, all of them together did not")
        run.probe("chunks")
        got = ops.flatten(part)
        run.ev(j["q"], chunk["rows"], chunk["at"])
        for g, t in zip(got, want):
            ref = t[rows]
            if g.shape != ref.shape:
                raise Violation("wrong-shape", f"{label}: shape {tuple(g.shape)}, {tuple(ref.shape)} expected")
        wide = "bit-wide" in run.plan["fitted"]["scales"]       # a sum over a grid of 2000 points, which those scored together refine
        bad = ops.differs(got, [t[rows] for t in want], **({"rtol": 1e-2, "atol": 1e-2} if wide else {}))
        if bad is not None:
            raise Violation("depends-on-others", f"{label}: {bad} (scored together with all others)")


_ = zoo
