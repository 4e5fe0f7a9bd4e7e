"""C14: the answer to a question depends on the model only, not on what was asked before."""
from __future__ import annotations
import contextlib
import copy
import os
import pickle
import random

import torch

from .. import ops, zoo
from ..common import disk, numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..fork import elsewhere
from ..torchops import Injected, Ops

ID = "C14"
QUICK_RUNS = 300
MIN_RUNS = 40
LEVEL = "exploration"
TECHNIQUE = "seeded histories of questions, interrupted questions, refits, loads and rescaling, every answer compared with that of an unquestioned twin in another process"
LEVEL_NOTE = (
    "Sampled histories of up to 12 steps over 36 public questions and 9 kinds of change of the model or the caller's tensors. The twin lives in a fork of a process that never asked anything "
    "and undergoes only the changes, so answers kept outside of the model are noticed too. Answers are compared to 1e-3."
)
RULE = (
    "One case is a fitted model, a history of questions (some interrupted at a tensor operation), repeated questions and changes (refit, load, new scale, detached "
    "scales, changed parameters, stored density). Non-trivial: a question was asked after another one and after a change or an interrupt, or repeated."
)
STATE_MEASURE = "(question, previous question, last change) triples"
REAL_COMPONENTS = ["irtorch models, evaluator, scales, utils, algorithms"]
SIM_COMPONENTS = ["failing allocations and interrupts at torch operations", "disk (healthy)"]
ASSUMPTIONS = ["an answer that differs by less than 1e-3 is the same answer", "approximate_latent_density stores its result, as documented"]
CHANGES = ["refit", "load", "scale", "detach", "parameters", "store", "train", "edit", "edit", "other", "copy", "copy"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    f = ops.gen_fitted(r)
    names = list(ops.QUESTIONS)
    steps, asked = [], []
    favourites = r.sample(names, 3)
    for _ in range(r.choice([4, 6, 8] if tier == "quick" else [8, 12, 16])):
        k = r.random()
        if k < 0.27 and steps:
            steps.append({"do": r.choice(CHANGES), "seed": r.randint(0, 10**6)})
        elif k < 0.5 and asked:
            steps.append({"do": "ask", **r.choice(asked), "at": None})
        else:
            q = {"q": r.choice(favourites + names + ["sum_score_probabilities", "latent_scores", "latent_scores"]), "seed": r.randint(0, 10**6)}
            asked.append(q)
            steps.append({"do": "ask", **q, "at": int(10 ** r.uniform(0, 3)) if r.random() < 0.25 else None, "kind": r.choice(Injected.KINDS)})
    return {"seed": seed, "fitted": f, "steps": steps}


def shrinks(plan):
    steps = plan["steps"]
    for i in range(len(steps)):
        yield {**plan, "steps": steps[:i] + steps[i + 1:]}
    for i, s in enumerate(steps):
        if s.get("at") is not None:
            yield {**plan, "steps": steps[:i] + [{**s, "at": None}] + steps[i + 1:]}
    for f in ops.shrink_fitted(plan["fitted"]):
        yield {**plan, "fitted": f}


def nontrivial(run: Run) -> bool:
    return run.probes["compared"] >= 2 and (run.probes["changes"] + run.probes["repeated"] + sum(run.faults.values()) > 0)


def fresh(run: Run):
    f = run.plan["fitted"]
    model, data = ops.build(f)
    return model, data, ops.context(f, model, data)


def change(run: Run, w, c, step, disturb=False) -> None:
    """Something that may change answers. Depends on the step and the state of the model alone."""
    model = c.model
    f, s, what = run.plan["fitted"], step["seed"], step["do"]
    r = random.Random(f"change/{s}")
    torch.manual_seed(s)
    if what == "refit":
        algorithm = r.choice(["JML", "MML", "AE", "VAE"])
        data = zoo.make_data(r.choice([9, 15]), zoo.categories_of(f["model"]), s, 0.1 if f["missing"] else 0.0, f["missing"] or "nan")
        model.fit(data, zoo.make_algorithm(algorithm), **zoo.fit_kwargs(algorithm, r.choice([1, 2])))
    elif what == "load":
        with torch.random.fork_rng():
            other, _ = ops.build({**f, "seed": s, "algorithm": r.choice(["JML", "MML", "AE", "VAE"]), "scales": f["scales"][:1]})
        path = os.path.join(w.fs.root, f"m{s}.pt")
        other.save_model(path)
        model.load_model(path)
    elif what == "scale":
        for name in zoo.scales_for(model, [r.choice(zoo.SCALES)]):
            model.add_scale_transformation(zoo.make_scale(name, model, s))
    elif what == "detach":
        model.detach_scale_transformations()
    elif what == "parameters":
        zoo.randomise(model, s, 0.3)
    elif what == "store":
        ops.ask("approximate_latent_density", c, s)
    elif what == "copy":           # go on with a copy; what becomes of the original does not matter to it
        c.model = copy.deepcopy(model) if s % 3 else pickle.loads(pickle.dumps(model))
        if disturb:
            zoo.randomise(model, s, 1.0)
            if s % 2:
                model.detach_scale_transformations()
                with contextlib.suppress(Exception):
                    model.fit(c.data.clone(), zoo.make_algorithm("JML"), **zoo.fit_kwargs("JML", 1))
            else:
                for scale in model.scale:
                    for p in scale.parameters() if isinstance(scale, torch.nn.Module) else ():
                        p.data.add_(1.0)
                t = model.algorithm.training_theta_scores
                if t is not None:
                    t.detach().add_(1.0)
            run.probe("original changed after copying")
    elif what == "edit":           # the caller reuses tensors for other values
        g = zoo.generator(("edit", s))
        c.theta.copy_(torch.randn(c.theta.shape, generator=g))
        c.data.copy_(zoo.make_data(len(c.data), zoo.categories_of(f["model"]), s, 0.12 if f["missing"] else 0.0, f["missing"] or "nan"))
    elif what == "other":          # other respondents, perhaps as many as before
        new = ops.context({**f, "seed": s}, model, None, r.choice([len(c.theta), len(c.theta), 9]))
        c.theta, c.data = new.theta, new.data
    elif what == "train":          # train in place, as the user's own loop would
        if model.algorithm.training_theta_scores is not None:
            g = zoo.generator(("train", s))
            model.algorithm.training_theta_scores = model.algorithm.training_theta_scores + 0.3 * torch.randn(model.algorithm.training_theta_scores.shape, generator=g)


def question(model, c, step) -> tuple:
    """What a user gets: an answer, or the kind of error."""
    torch.manual_seed(step["seed"])
    random.seed(step["seed"])
    import numpy as np
    np.random.seed(step["seed"])
    try:
        return "answer", [t.clone() for t in ops.flatten(ops.ask(step["q"], c, step["seed"]))]
    except Exception as e:  # noqa: BLE001
        if isinstance(e, NotImplementedError) or numeric_failure(e):
            return "refused", type(e).__name__
        return "failed", describe(e)


def history(run: Run) -> list:
    """The questioned model: all steps."""
    out = []
    with disk(run) as w:
        model, data, c = fresh(run)
        last, previous, seen = "none", "none", set()
        for step in run.plan["steps"]:
            if step["do"] != "ask":
                change(run, w, c, step, True)
                run.probe("changes")
                run.ev(step["do"])
                last = step["do"]
                continue
            if step["at"] is not None:
                with Ops(step["at"], step["kind"], run) as m:
                    run.attempt(question, c.model, c, step)
                run.ev("interrupted", step["q"], step["at"], m.where)
            key = (step["q"], step["seed"])
            if key in seen:
                run.probe("repeated")
            seen.add(key)
            a = question(c.model, c, step)
            run.ev("ask", step["q"], a[0])
            run.state(step["q"], previous, last)
            previous = step["q"]
            out.append(a)
    return out


def twin(run: Run, upto: int):
    """The model that is asked one question only, in another process."""
    with disk(run) as w:
        model, data, c = fresh(run)
        for step in run.plan["steps"][:upto]:
            if step["do"] != "ask":
                change(run, w, c, step)
        return question(c.model, c, run.plan["steps"][upto])


def execute(run: Run) -> None:
    steps = run.plan["steps"]
    asks = [i for i, s in enumerate(steps) if s["do"] == "ask"]
    got, e = run.attempt(lambda: elsewhere(run, safely(history), "questioned"))
    if e is not None:
        raise e
    if got[0] == "diverged":
        run.probe("diverged fit")
        return
    for (i, a) in zip(asks, got[1]):
        b = elsewhere(run, safely(lambda r, i=i: twin(r, i)), "twin")
        if b[0] == "diverged":
            raise Violation("different-answer", f"step {i}: the twin cannot be built: {b[1]}")
        compare(run, steps[i], i, a, b[1])


def safely(fn):
    def inner(run):
        try:
            return "ok", fn(run)
        except Exception as e:  # noqa: BLE001
            from ..core import HarnessError
            if isinstance(e, (Violation, HarnessError)):
                raise
            if numeric_failure(e) or isinstance(e, NotImplementedError):
                return "diverged", describe(e)
            raise Violation("unexpected-exception", describe(e)) from e
    return inner


def compare(run: Run, step, i, a, b) -> None:
    label = f"step {i}, {step['q']}"
    if a[0] == "failed" or b[0] == "failed":
        if a[0] != b[0]:
            raise Violation("different-answer", f"{label}: {a[0]} {a[1] if a[0] != 'answer' else ''} here, {b[0]} {b[1] if b[0] != 'answer' else ''} when asked first")
        raise Violation("unexpected-exception", f"{label} raised {a[1]}")
    if a[0] != b[0]:
        raise Violation("different-answer", f"{label}: {a[0]} here, {b[0]} when asked first")
    if a[0] == "answer":
        bad = ops.differs(a[1], b[1])
        if bad is not None:
            raise Violation("different-answer", f"{label}: {bad} (from the model that was never asked anything)")
    run.probe("compared")
