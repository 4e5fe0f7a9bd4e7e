"""Cross-validation on a simulated machine, with models that record what they are trained and scored on."""
from __future__ import annotations
import copy
import itertools
from collections import Counter

import torch

from irtorch import models as M

from . import zoo
from .core import Run, Violation
from .pool import PoolConfig
from .world import World

RECORD: list | None = None         # set for the duration of one call of cross_validation


def row_key(row) -> tuple:
    return tuple(-1.0 if v != v or v < 0 else v for v in row.tolist())


def rows_of(data: torch.Tensor) -> Counter:
    return Counter(row_key(r) for r in data)


class Probe:
    """Records the data it is fitted to and scored on, and its parameters before fitting."""

    def fit(self, train_data, algorithm=None, **kwargs):
        if RECORD is not None:
            entry = {"train": train_data.detach().clone(), "kwargs": dict(kwargs), "start": zoo.param_snapshot(self), "scored": [], "done": False}
            RECORD.append(entry)
            self._probe = len(RECORD) - 1
        super().fit(train_data=train_data, algorithm=algorithm, **kwargs)
        if RECORD is not None:
            RECORD[self._probe]["done"] = True

    def latent_scores(self, data, *args, **kwargs):
        k = self.__dict__.get("_probe")
        if RECORD is not None and k is not None:
            RECORD[k]["scored"].append(data.detach().clone())
        return super().latent_scores(data, *args, **kwargs)


class ProbeGPC(Probe, M.GeneralizedPartialCredit):
    pass


class ProbeGRM(Probe, M.GradedResponse):
    pass


class Probe2PL(Probe, M.TwoParameterLogistic):
    pass


class ProbeNominal(Probe, M.NominalResponse):
    pass


class ProbeMonotoneNN(Probe, M.MonotoneNN):
    pass


KINDS = ("gpc", "grm", "2pl", "nominal", "mononn")


class _Lib:
    GeneralizedPartialCredit, GradedResponse, TwoParameterLogistic, NominalResponse, MonotoneNN = ProbeGPC, ProbeGRM, Probe2PL, ProbeNominal, ProbeMonotoneNN


def make_probe(name: str, latent: int, seed):
    """The zoo's model of the recording class."""
    return zoo.make_model(name, latent, seed, _Lib)


# -- workload --------------------------------------------------------------------------------------------------------
def gen_case(r, tier: str) -> dict:
    algorithm = r.choice(["MML", "MML", "MML", "JML", "AE", "VAE"])
    values = {
        "learning_rate": [0.05, 0.1, 0.2, 0.3], "max_epochs": [1, 2, 3]}
    if algorithm in ("JML", "MML"):
        values["learning_rate_update_patience"] = [2, 4, 7]
    if algorithm == "MML":
        values["integration_method"] = ["gauss_hermite", "quasi_mc"]
        values["quadrature_points"] = [5, 7]
    else:
        values["batch_size"] = [4, 7, 100]
    if algorithm in ("AE", "VAE"):
        values["batch_normalization_encoder"] = [True, False]
        values["hidden_layers_encoder"] = [[6], [8, 5]]
    names = r.sample(sorted(values), r.choice([1, 1, 2] if tier == "quick" else [1, 2, 2, 3]))
    grid = [[n, r.sample(values[n], r.randint(1, min(3 if len(names) == 1 else 2, len(values[n]))))] for n in names]
    return {
        "model": r.choice(KINDS), "latent": r.choice([1, 1, 2]), "algorithm": algorithm, "rows": r.choice([11, 14, 16, 18, 20] if tier == "quick" else [12, 16, 21, 30]), "folds": r.choice([2, 2, 3, 4, 5, 6] if algorithm != "VAE" else [2, 2, 3, 4]),
        "missing": r.choice([None, None, "nan", "-1"]), "grid": grid, "theta": r.choice(["EAP"] * 5 + ["NN" if algorithm in ("AE", "VAE") else "EAP"] * 2 + ["ML", "MAP"]),
        "model_seed": r.randint(0, 10**6), "call_seed": r.randint(0, 10**6),
    }


class Case:
    def __init__(self, run: Run, c: dict):
        self.run, self.c = run, c
        self.model = make_probe(c["model"], c["latent"], c["model_seed"])
        self.data = zoo.make_data(c["rows"], zoo.categories_of(c["model"]), c["model_seed"], 0.15 if c["missing"] else 0.0, c["missing"] or "nan")
        self.algorithm = zoo.make_algorithm(c["algorithm"])
        self.grid = {n: list(v) for n, v in c["grid"]}
        over = {k: v for k, v in zoo.fit_kwargs(c["algorithm"], 2).items() if k not in self.grid and k != "device"}
        self.kwargs = {**over, "algorithm": self.algorithm}
        self.untouched = zoo.param_snapshot(self.model)
        self.trainable = [p.requires_grad for p in self.model.parameters()]
        self.guard = zoo.Guard(data=self.data)
        self.kwargs_before = {k: copy.deepcopy(v) for k, v in self.kwargs.items() if k != "algorithm"}
        self.algorithm_before = {k: copy.deepcopy(v) for k, v in vars(self.algorithm).items()}
        self.recorded: list = []

    @property
    def combinations(self) -> list[dict]:
        return [dict(zip(self.grid, v)) for v in itertools.product(*self.grid.values())]

    def call(self, w: World, cfg: PoolConfig, parallel: bool, cores):
        """cross_validation as a user calls it, after setting the seed."""
        global RECORD
        from irtorch.utils import cross_validation, set_seed
        RECORD = self.recorded = []
        w.pool = cfg
        kwargs = dict(self.kwargs)
        try:
            set_seed(self.c["call_seed"])
            return cross_validation(
                self.model, self.data, self.c["folds"], self.grid, theta_estimation=self.c["theta"], device="cpu", cores_to_use=cores,
                multiprocessing=parallel, **kwargs,
            )
        finally:
            w.pool = None
            RECORD = None

    def table(self, result, label: str) -> list[float]:
        """Check the shape of the table and return its scores."""
        combos = self.combinations
        if len(result) != len(combos):
            raise Violation("wrong-table", f"{label}: {len(result)} rows for {len(combos)} combinations")
        want = set(self.grid) | {"log_likelihood"}
        if set(result.columns) != want:
            raise Violation("wrong-table", f"{label}: columns {sorted(result.columns)}, should be {sorted(want)}")
        for i, combo in enumerate(combos):
            for k, v in combo.items():
                got = result[k].iloc[i]
                if not (got == v):
                    raise Violation("wrong-table", f"{label}: {k} is {got!r} in row {i}, should be {v!r}")
        return [float(v) for v in result["log_likelihood"]]

    def check_training(self, label: str) -> None:
        """Every combination was trained on the complements of folds that partition the rows, from the untrained model."""
        everything = rows_of(self.data)
        groups: dict = {}
        for e in self.recorded:
            if e["done"]:
                groups.setdefault(str([(k, e["kwargs"].get(k)) for k in self.grid]), []).append(e)
        for combo in self.combinations:
            fits = groups.get(str([(k, combo[k]) for k in self.grid]), [])
            if len(fits) != self.c["folds"]:
                raise Violation("wrong-folds", f"{label}: {len(fits)} fits for {combo} in {self.c['folds']} folds")
            held_out: Counter = Counter()
            for e in fits:
                train = rows_of(e["train"])
                if train - everything:
                    raise Violation("wrong-folds", f"{label}: trained on rows that are not in the data (or more often than they are)")
                out = everything - train
                held_out.update(out)
                if e["scored"] and not any(rows_of(s) == out for s in e["scored"]):
                    raise Violation("leak", f"{label}: a model was not scored on exactly the rows it was not trained on")
                bad = zoo.same_state(e["start"], self.untouched)
                if bad is not None:
                    raise Violation("not-untrained", f"{label}: a fold started from a model whose {bad} is not that of the supplied model")
            if held_out != everything:
                raise Violation("wrong-folds", f"{label}: rows are not held out exactly once over the {len(fits)} folds")

    def reference(self) -> list[float]:
        """The table computed independently from the recorded folds. For algorithms without random numbers only."""
        out = []
        everything = list(self.data)
        for combo in self.combinations:
            scores = []
            for e in self.recorded:
                if any(e["kwargs"].get(k) != v for k, v in combo.items()):
                    continue
                left = rows_of(e["train"])
                held = []
                for row in everything:
                    k = row_key(row)
                    if left[k] > 0:
                        left[k] -= 1
                    else:
                        held.append(row)
                model = copy.deepcopy(self.model)
                kwargs = {**{k: v for k, v in self.kwargs.items() if k != "algorithm"}, **combo}
                model.fit(e["train"].clone(), algorithm=zoo.make_algorithm(self.c["algorithm"]), device="cpu", **kwargs)
                scores.append(float(model.evaluate.log_likelihood(torch.stack(held), theta_estimation=self.c["theta"], reduction="sum")))
            out.append(sum(scores) / len(scores))
        return out

    def check_caller(self, cfg: PoolConfig, threads: int, label: str) -> None:
        """Nothing of the caller was changed."""
        import random
        bad = zoo.same_state(zoo.param_snapshot(self.model), self.untouched)
        if bad is not None:
            raise Violation("model-changed", f"{label}: {bad} of the supplied model changed")
        if [p.requires_grad for p in self.model.parameters()] != self.trainable:
            raise Violation("model-changed", f"{label}: parameters of the supplied model are no longer trainable")
        if self.model.algorithm is not None or self.model.scale:
            raise Violation("model-changed", f"{label}: the supplied model got an algorithm or scale")
        bad = self.guard.changed()
        if bad is not None:
            raise Violation("data-changed", f"{label}: {bad}")
        if {n: list(v) for n, v in self.c["grid"]} != self.grid:
            raise Violation("arguments-changed", f"{label}: the grid is now {self.grid}")
        now = {k: v for k, v in self.kwargs.items() if k != "algorithm"}
        if now != self.kwargs_before or self.kwargs["algorithm"] is not self.algorithm:
            raise Violation("arguments-changed", f"{label}: the keyword arguments changed")
        after = vars(self.algorithm)
        if set(after) != set(self.algorithm_before):
            raise Violation("algorithm-changed", f"{label}: attributes of the supplied algorithm changed: {sorted(set(after) ^ set(self.algorithm_before))}")
        for k, v in self.algorithm_before.items():
            if not equal(v, after[k]):
                raise Violation("algorithm-changed", f"{label}: {k} of the supplied algorithm changed")
        if torch.get_num_threads() != threads:
            raise Violation("threads-changed", f"{label}: {torch.get_num_threads()} threads, {threads} before")
        if cfg.start_method != "fork" or any(m is not None for m in cfg.start_method_changes):
            raise Violation("start-method-changed", f"{label}: the start method of the process was set to {cfg.start_method_changes}")
        if cfg.open_pools:
            raise Violation("workers-left", f"{label}: worker processes were left behind")
        _ = random

    def compare(self, got: list[float], want: list[float], label: str, rtol=1e-4) -> None:
        for i, (a, b) in enumerate(zip(got, want)):
            if not (a == b or abs(a - b) <= rtol * max(1.0, abs(b)) or (a != a and b != b)):
                raise Violation("different-table", f"{label}: log-likelihood {a:.7g} in row {i}, should be {b:.7g}")


def equal(a, b) -> bool:
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and zoo.same_tensor(a, b, exact=True)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(equal(v, b[k]) for k, v in a.items())
    if isinstance(a, (int, float, str, bool, type(None))):
        return a == b
    return type(a) is type(b)


def chooser(run: Run, sticky: float):
    """Who runs next: a seeded choice that stays with the same worker with the given probability."""
    last: list = [None]

    def choose(names):
        if last[0] in names and run.choices.random() < sticky:
            return names.index(last[0])
        i = run.choices.randrange(len(names))
        last[0] = names[i]
        return i

    return choose


def shrink_case(plan: dict, put):
    c = plan["case"]
    for i, (n, v) in enumerate(c["grid"]):
        if len(c["grid"]) > 1:
            yield put({**c, "grid": c["grid"][:i] + c["grid"][i + 1:]})
        if len(v) > 1:
            for j in range(len(v)):
                yield put({**c, "grid": c["grid"][:i] + [[n, v[:j] + v[j + 1:]]] + c["grid"][i + 1:]})
    for key, simple in (("missing", None), ("latent", 1), ("folds", 2), ("rows", 11), ("model", "2pl"), ("theta", "EAP")):
        if c[key] != simple:
            yield put({**c, key: simple})
