"""C08: after setting the seed, results repeat whatever ran before."""
from __future__ import annotations
import random

import numpy as np
import torch

import irtorch
from irtorch import rescale as R
from irtorch import models as M

from .. import ops, zoo
from ..common import numeric_failure, rng_for
from ..core import Run, Violation, describe
from ..cv import KINDS
from ..fork import elsewhere
from ..pool import PoolConfig
from ..torchops import Injected, Ops
from ..world import World

ID = "C08"
QUICK_RUNS = 420
MIN_RUNS = 60
LEVEL = "exploration"
TECHNIQUE = "one program of stochastic operations after the same seed, run in forked processes with different seeded histories (interrupted work, foreign draws, other schedules), results compared"
LEVEL_NOTE = (
    "Sampled programs of 2-6 of 17 stochastic operations after two different histories of 0-5 operations and once more in the same process. "
    "Compared to 1e-3 at the end and after every operation."
)
RULE = (
    "One case is a program and two histories. The histories contain the same kind of operations (also interrupted ones), draws from Python, NumPy and PyTorch and other seeds. "
    "Non-trivial: the program has at least two operations and the histories differ."
)
STATE_MEASURE = "(operations of the program, operations of the histories) combinations"
REAL_COMPONENTS = ["irtorch models, algorithms, scales, evaluator, utils", "generators of Python, NumPy and PyTorch"]
SIM_COMPONENTS = ["process pools (workers are virtual processes)", "interrupts at torch operations", "clock"]
ASSUMPTIONS = ["the same operation on the same numbers gives the same result to 1e-3 in the same build of torch"]

BUILDABLE = ["1pl", "2pl", "3pl", "gpc", "grm", "nominal", "nested", "nested-bspline", "mononn", "mononn-items", "monobspline", "monopoly", "surprisal", "mix"]


class Machine:
    """What a program works on."""

    def __init__(self, run: Run, w: World, tag: str):
        self.run, self.w, self.tag = run, w, tag
        self.model = None
        self.name = None
        self.data = None
        self.algorithm = None


def data_of(name, r, missing=True):
    code = r.choice([None, None, "nan", "-1"]) if missing else None
    return zoo.make_data(r.choice([9, 14, 20]), zoo.categories_of(name), r.randint(0, 999), 0.15 if code else 0.0, code or "nan")


def build(name, latent):
    """As a user builds a model: initial parameters come from the global generators."""
    fork, torch.random.fork_rng = torch.random.fork_rng, _nothing
    seed, torch.manual_seed = torch.manual_seed, lambda *_: None
    try:
        return zoo.make_model(name, latent)
    finally:
        torch.random.fork_rng, torch.manual_seed = fork, seed


class _nothing:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def op_build(m: Machine, r):
    m.name = r.choice(BUILDABLE)
    m.model = build(m.name, r.choice([1, 2]))
    m.algorithm = None
    return list(m.model.parameters())


def need(m: Machine, r):
    if m.model is None:
        op_build(m, r)


def op_fit(m: Machine, r):
    need(m, r)
    m.algorithm = r.choice(["JML", "AE", "VAE", "VAE", "MML"])
    m.data = data_of(m.name, r)
    over = {}
    if m.algorithm != "MML":
        over["batch_size"] = r.choice([None, 4, 7])
    if m.algorithm in ("AE", "VAE"):
        over["batch_normalization_encoder"] = r.random() < 0.4
    m.model.fit(m.data, zoo.make_algorithm(m.algorithm), **zoo.fit_kwargs(m.algorithm, r.choice([1, 2, 4]), **over))
    return [list(m.model.parameters()), m.model.algorithm.training_theta_scores, m.model.algorithm.training_history["train_loss"]]


def fitted(m: Machine, r):
    if m.algorithm is None:
        op_fit(m, r)


def op_sample(m: Machine, r):
    need(m, r)
    return m.model.sample_test_data(torch.linspace(-2, 2, 12).unsqueeze(1).expand(12, m.model.latent_variables).contiguous())


def op_scores(m: Machine, r):
    fitted(m, r)
    how = r.choice(["EAP", "EAP", "ML", "MAP"] + (["NN"] if m.algorithm in ("AE", "VAE") else []))
    return m.model.latent_scores(m.data, theta_estimation=how, device="cpu")


def op_large(m: Machine, r):
    """More respondents than can be compared with the whole training data."""
    model = zoo.make_model("grm-2", 1, r.randint(0, 99))
    data = zoo.make_data(1020, zoo.categories_of("grm-2"), r.randint(0, 99))
    model.fit(data, zoo.make_algorithm("JML"), **zoo.fit_kwargs("JML", 1))
    return model.latent_scores(data[:1000], theta_estimation=r.choice(["ML", "MAP"]), device="cpu")


def op_impute(m: Machine, r):
    name = r.choice(["gpc", "nominal-mc"])
    data = zoo.make_data(15, zoo.categories_of(name), r.randint(0, 999), 0.4)
    if name == "gpc":
        return irtorch.utils.impute_missing(data, method="mean")
    return irtorch.utils.impute_missing(data, method="random incorrect", mc_correct=zoo.mc_correct_of(name), item_categories=zoo.categories_of(name))


def op_split(m: Machine, r):
    return list(irtorch.utils.split_data(zoo.make_data(17, zoo.BINARY, 5), r.choice([0.5, 0.8])))


def op_cv(m: Machine, r):
    from irtorch.utils import cross_validation
    name = r.choice(KINDS)
    model = build(name, 1)
    algorithm = r.choice(["MML", "AE", "VAE"])
    m.w.pool = PoolConfig(m.w, r.choice([1, 2, 4]), choose=chooser(m))
    try:
        table = cross_validation(
            model, data_of(name, r), 2, {"learning_rate": [0.05, 0.2]}, theta_estimation="EAP", device="cpu", cores_to_use=2, multiprocessing=r.random() < 0.5,
            algorithm=zoo.make_algorithm(algorithm), **{k: v for k, v in zoo.fit_kwargs(algorithm, 2).items() if k not in ("device", "learning_rate")})
    finally:
        m.w.pool = None
    return table


def op_multiple(m: Machine, r):
    from irtorch.utils import fit_multiple_models_cpu
    names = r.choice([["gpc", "grm", "mononn"], ["2pl", "1pl"], ["nominal", "nested"]])
    models = [build(n, 1) for n in names]
    algorithm = r.choice(["JML", "AE", "VAE"])
    m.w.pool = PoolConfig(m.w, r.choice([1, 2, 4]), choose=chooser(m))
    try:
        out = fit_multiple_models_cpu(models, data_of(names[0], r), cores_to_use=2, algorithm=zoo.make_algorithm(algorithm),
                                      **{k: v for k, v in zoo.fit_kwargs(algorithm, 2).items() if k != "device"})
    finally:
        m.w.pool = None
    return [list(x.parameters()) for x in out]


def op_ask(m: Machine, r):
    fitted(m, r)
    q = r.choice(["mutual_information_difference", "q3", "sum_score_probabilities", "sample_test_data", "group_fit_log_likelihood", "residuals", "sum_score_probabilities"])
    theta = torch.linspace(-1.5, 1.5, 8).unsqueeze(1).expand(8, m.model.latent_variables).contiguous()
    return ops.QUESTIONS[q](ops.Ctx(m.model, m.data[:8], theta), random.Random(r.randint(0, 999)))


def op_encoder_sampling(m: Machine, r):
    need(m, r)
    m.algorithm = "VAE"
    m.data = data_of(m.name, r)
    m.model.fit(m.data, zoo.make_algorithm("VAE"), **zoo.fit_kwargs("VAE", 2))
    return m.model.evaluate.sum_score_probabilities(latent_density_method="encoder sampling", population_data=m.data if r.random() < 0.5 else None, sample_size=12)


def op_density(m: Machine, r):
    fitted(m, r)
    theta = torch.linspace(-2, 2, 30).unsqueeze(1).expand(30, m.model.latent_variables) + torch.linspace(0, 1, 30).unsqueeze(1) ** 2
    how = r.choice(["gmm", "gmm", "qmvn"])
    m.model.evaluate.approximate_latent_density(theta.contiguous(), approximation=how, **({"cv_n_components": [2, 3]} if how == "gmm" else {}))
    out = m.model.evaluate.latent_density.pdf(theta[:6].contiguous())
    return out


def op_flow(m: Machine, r):
    theta = torch.linspace(-2, 2, 18).unsqueeze(1).repeat(1, 2) ** torch.tensor([1, 3])
    scale = R.Flow(2)
    scale.fit(theta, max_epochs=4, batch_size=r.choice([None, 5]), device="cpu")
    return scale.transform(theta)


def op_link(m: Machine, r):
    a, b = M.TwoParameterLogistic(latent_variables=1, items=4), M.TwoParameterLogistic(latent_variables=1, items=4)
    for k, x in enumerate((a, b)):
        zoo.randomise(x, k)
    scale = R.LinkCommonItems(a, b, [0, 1, 2, 3], [0, 1, 2, 3], method=r.choice(["spline", "neuralnet"]))
    theta = torch.linspace(-2, 2, 15).unsqueeze(1)
    scale.fit(theta, max_epochs=4, batch_size=r.choice([None, 4]), device="cpu")
    return scale.transform(theta)


def op_bit(m: Machine, r):
    model = zoo.make_model("nominal-mc", 1, 4)
    scale = R.Bit(model, mc_start_theta_approx=True, guessing_iterations=40, theta_estimation=r.choice(["ML", "EAP"]), grid_points=60)
    return scale.transform(torch.linspace(-2, 2, 7).unsqueeze(1))


def op_draw(m: Machine, r):
    out = []
    for _ in range(r.choice([1, 2, 3])):
        k = r.choice(["random", "gauss", "numpy", "normal", "torch", "randn", "perm"])
        out.append({
            "random": random.random, "gauss": lambda: random.gauss(0, 1), "numpy": lambda: float(np.random.random()), "normal": lambda: float(np.random.normal()),
            "torch": lambda: torch.rand(3), "randn": lambda: torch.randn(r.choice([1, 3, 17])), "perm": lambda: torch.randperm(7).float(),
        }[k]())
    return out


def op_seed(m: Machine, r):
    irtorch.set_seed(r.randint(0, 2**31))
    return []


def op_state(m: Machine, r):
    """The user sets or restores states of the generators."""
    k = r.choice(["torch", "numpy", "python", "fork"])
    if k == "torch":
        s = torch.get_rng_state()
        torch.randn(3)
        torch.set_rng_state(s)
    elif k == "numpy":
        np.random.seed(r.randint(0, 99))
        np.random.normal()
    elif k == "python":
        random.seed(r.randint(0, 99))
        random.gauss(0, 1)
    else:
        with torch.random.fork_rng():
            torch.manual_seed(3)
            torch.randn(5)
    return []


OPS = {
    "build": op_build, "fit": op_fit, "sample": op_sample, "scores": op_scores, "large scores": op_large, "impute": op_impute, "split": op_split, "cross_validation": op_cv,
    "fit_multiple_models_cpu": op_multiple, "evaluate": op_ask, "encoder sampling": op_encoder_sampling, "density": op_density, "flow": op_flow,
    "link": op_link, "bit": op_bit, "draw": op_draw,
}
BEFORE = {**OPS, "seed": op_seed, "generator state": op_state}
SLOW = ("large scores", "cross_validation", "fit_multiple_models_cpu", "density")


def chooser(m: Machine):
    rng = random.Random(f"schedule/{m.run.plan['seed']}/{m.tag}")
    return lambda names: rng.randrange(len(names))


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)

    def pick(table, n, faults):
        out = []
        names = [x for x in table for _ in range(1 if x in SLOW else 3)]
        for _ in range(n):
            fault = {"at": int(10 ** r.uniform(0, 3)), "kind": r.choice(Injected.KINDS)} if faults and r.random() < 0.35 else None
            out.append({"op": r.choice(names), "seed": r.randint(0, 10**6), "fault": fault})
        return out

    top = [2, 3, 4] if tier == "quick" else [3, 5, 8]
    return {
        "seed": seed, "set_seed": r.choice([0, 1, 42, 2**31, 2**32 - 1, r.randint(0, 2**31)]), "program": pick(OPS, r.choice(top), False),
        "histories": [pick(BEFORE, r.choice([0, 1, 2]), True), pick(BEFORE, r.choice([1, 2, 4] if tier == "quick" else [1, 3, 6]), True)], "again": r.random() < 0.4,
    }


def shrinks(plan):
    for i in range(len(plan["program"])):
        if len(plan["program"]) > 1:
            yield {**plan, "program": plan["program"][:i] + plan["program"][i + 1:]}
    for h in (0, 1):
        for i, x in enumerate(plan["histories"][h]):
            def put(new):
                hs = list(plan["histories"])
                hs[h] = hs[h][:i] + new + hs[h][i + 1:]
                return {**plan, "histories": hs}
            yield put([])
            if x["fault"]:
                yield put([{**x, "fault": None}])
    if plan["again"]:
        yield {**plan, "again": False}


def nontrivial(run: Run) -> bool:
    p = run.plan
    return len(p["program"]) >= 2 and p["histories"][0] != p["histories"][1]


def history(m: Machine, steps) -> None:
    for x in steps:
        r = random.Random(f"op/{x['seed']}")
        if x["fault"]:
            with Ops(x["fault"]["at"], x["fault"]["kind"], m.run) as o:
                m.run.attempt(BEFORE[x["op"]], m, r)
            m.run.ev("before", x["op"], o.where)
        else:
            m.run.attempt(BEFORE[x["op"]], m, r)
            m.run.ev("before", x["op"])


def program(m: Machine) -> list:
    """Results of the operations, None for one that failed (which is the end)."""
    out = []
    irtorch.set_seed(m.run.plan["set_seed"])
    m.model = m.algorithm = m.name = m.data = None
    for x in m.run.plan["program"]:
        v, e = m.run.attempt(OPS[x["op"]], m, random.Random(f"op/{x['seed']}"))
        if e is not None:
            if not (isinstance(e, NotImplementedError) or numeric_failure(e)):
                raise Violation("unexpected-exception", f"{x['op']} raised {describe(e)}")
            out.append(f"error {type(e).__name__}")
            m.run.probe("failed operation")
            break
        out.append([t.clone() for t in ops.flatten(v)])
        m.run.ev("op", x["op"])
    out.append([torch.rand(4), torch.tensor(random.random()), torch.tensor(np.random.random())])      # where the generators are
    return out


def whole(run: Run, k: int, times: int) -> list:
    out = []
    with World(run) as w:
        m = Machine(run, w, str(k))
        history(m, run.plan["histories"][k])
        for _ in range(times):
            out.append([[t.tolist() for t in x] if not isinstance(x, str) else x for x in program(m)])
    return out


def execute(run: Run) -> None:
    plan = run.plan
    first = elsewhere(run, lambda r: whole(r, 0, 2 if plan["again"] else 1), "history 0")
    second = elsewhere(run, lambda r: whole(r, 1, 1), "history 1")
    run.state([x["op"] for x in plan["program"]], [[x["op"] for x in h] for h in plan["histories"]])
    names = [x["op"] for x in plan["program"]]
    same(names, first[0], second[0], "another history")
    if plan["again"]:
        same(names, first[0], first[1], "the program itself as the history")
        run.probe("again")


def same(names, a, b, label) -> None:
    for i, (x, y) in enumerate(zip(a, b)):
        what = names[i] if i < len(a) - 1 else "the state of the generators"
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                raise Violation("not-reproducible", f"after set_seed and {label}: {what} gave {x if isinstance(x, str) else 'a result'} and {y if isinstance(y, str) else 'a result'}")
            continue
        bad = ops.differs([torch.tensor(t) for t in x], [torch.tensor(t) for t in y])
        if bad is not None:
            raise Violation("not-reproducible", f"after set_seed and {label}: operation {i} ({what}) gave {bad}")
