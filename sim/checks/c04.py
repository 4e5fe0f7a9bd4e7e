"""C04: first time, cached and simultaneous loads of a data set all give the documented data."""
from __future__ import annotations
import os

import torch

from ..bigfive import Place, _remove
from ..common import as_process, disk, pick_faults, place, reboot, rng_for
from ..core import REPO, Run, SimCrash, Violation, describe, generic_shrinks
from ..world import Proc, Scheduler

ID = "C04"
QUICK_RUNS = 400
MIN_RUNS = 50
LEVEL = "exploration"
TECHNIQUE = "seeded interleavings of simulated processes at every disk and network operation, with faults in some of them"
LEVEL_NOTE = (
    "Sampled interleavings of 2-4 processes that each load the data set 1-2 times; every result is compared with an independent processing of the served "
    "file. Processes do not share memory in the simulation except for the interpreter; power loss is left to C03."
)
RULE = (
    "One case is a history of rounds; in each round 1-4 processes load the data set at the same time, some with network faults, disk faults or death at a "
    "counted operation; between rounds the cache may be deleted or the network cut off. Returned objects are modified by their owner. "
    "Non-trivial: a fault fired or at least two processes overlapped."
)
STATE_MEASURE = "(fault kind, operation) pairs and (number of processes, cached before, outcome) triples"
REAL_COMPONENTS = ["irtorch.load_dataset", "shutil.unpack_archive, zipfile, pandas, pickle, tempfile"]
SIM_COMPONENTS = ["web server and network", "system calls on home and temporary folders", "process scheduling and death", "names of temporary files"]
ASSUMPTIONS = ["rename is atomic", "the server serves the documented file format"]
DISK = ["crash", "crash", "kbi", "enospc", "full", "eio", "short"]
NET = ["refused", "dns", "timeout", "http503", "portal", "truncated", "reset", "slow"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    rounds = []
    for k in range(r.choice([1, 2, 2, 3] if tier == "quick" else [2, 3, 4, 5])):
        procs = []
        for _ in range(r.choice([1, 2, 2, 3] if tier == "quick" else [2, 3, 4])):
            x = r.random()
            procs.append({
                "calls": r.choice([1, 1, 2]),
                "faults": pick_faults(r, DISK, 1) if x < 0.3 else [],
                "net": [{"at": 0, "kind": r.choice(NET), "frac": round(r.random(), 3)}] if 0.3 <= x < 0.5 else [],
            })
        rounds.append({"procs": procs, "clear": k > 0 and r.random() < 0.25, "offline": r.random() < 0.5, "sticky": r.choice([0.0, 0.3, 0.8])})
    return {
        "seed": seed, "data": r.randint(0, 3), "rows": r.choice([6, 10, 25]), "buffer": r.choice([2048, 8192, 1 << 16]), "chunk": r.choice([2000, 16384]),
        "rounds": rounds, "bundled": r.choice(BUNDLED) if r.random() < 0.15 else None,
    }


def shrinks(plan):
    yield from generic_shrinks(plan, ("rounds",), {"rows": 6}, ("bundled",))
    for i, rd in enumerate(plan["rounds"]):
        def put(x):
            return {**plan, "rounds": plan["rounds"][:i] + [x] + plan["rounds"][i + 1:]}
        for cand in generic_shrinks(rd, ("procs",), {}):
            if cand["procs"]:
                yield put(cand)
        for j, p in enumerate(rd["procs"]):
            for cand in generic_shrinks(p, ("faults", "net"), {"calls": 1}):
                yield put({**rd, "procs": rd["procs"][:j] + [cand] + rd["procs"][j + 1:]})
        if rd["clear"]:
            yield put({**rd, "clear": False})


def nontrivial(run: Run) -> bool:
    return bool(run.faults) or run.probes["overlap"] > 0


# -- data sets that come with the package ----------------------------------------------------------------------------
BUNDLED = ["swedish_national_mathematics_1", "swedish_national_mathematics_2", "swedish_sat_verbal", "swedish_sat_quantitative", "swedish_sat", "swedish_sat_binary"]


def _raw(name: str):
    base = os.path.join(REPO, "irtorch", "datasets")
    files = {
        "swedish_national_mathematics_1": "national_mathematics/mathematics_1.pt", "swedish_national_mathematics_2": "national_mathematics/mathematics_2.pt",
        "swedish_sat_verbal": "swedish_sat/swesat22b_verb", "swedish_sat_quantitative": "swedish_sat/swesat22b_quant",
    }
    path = os.path.join(base, files[name])
    if path.endswith(".pt"):
        return torch.load(path, weights_only=False)
    with open(path + "_correct.txt", encoding="utf-8") as fh:
        correct = [int(c) - 1 for c in fh.read() if c.isdigit()]
    return torch.load(path + ".pt", weights_only=False), correct


def bundled_reference(name: str):
    if name in ("swedish_sat", "swedish_sat_binary"):
        q, v = _raw("swedish_sat_quantitative"), _raw("swedish_sat_verbal")
        data, correct = torch.cat([q[0], v[0]], 1), q[1] + v[1]
        if name == "swedish_sat":
            return data, correct
        return torch.stack([(data[:, i] == c).float() for i, c in enumerate(correct)], 1)
    return _raw(name)


def same(a, b) -> bool:
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and torch.equal(a.nan_to_num(-7), b.nan_to_num(-7))
    return list(a) == list(b)


def spoil(value) -> None:
    """The caller does what it likes with what it got."""
    for v in value if isinstance(value, tuple) else (value,):
        if isinstance(v, torch.Tensor):
            v.fill_(-5)
        elif isinstance(v, list):
            v[:] = ["spoiled"]
        else:
            v.iloc[:, 0] = -1


def bundled(run: Run, name: str) -> None:
    from irtorch import load_dataset
    want = bundled_reference(name)
    for k in range(2):
        got = run.call(name, getattr(load_dataset, name))
        run.check_that(same(want, got), "wrong-data", f"load {k + 1} of {name} does not give the content of its file")
        spoil(got)
    run.probe("bundled")


def execute(run: Run) -> None:
    plan = run.plan
    with disk(run) as w:
        pl = Place(run, w)
        pl.rehearse()
        if plan["bundled"]:
            bundled(run, plan["bundled"])
        cached = False
        for k, rd in enumerate(plan["rounds"]):
            if rd["clear"]:
                folder = os.path.join(w.fs.root, "home", ".cache")
                if os.path.exists(folder):
                    _remove(folder)
                    w.fs.adopt()
                cached = False
            cached = one_round(run, w, pl, rd, k, cached)
        # one more process, which finds the data or gets them again
        reboot(w)
        before = w.main.net_requests
        result, value = as_process(w, pl.load)
        if result != "ok":
            raise Violation("poisoned", f"a load after everything raised {describe(value)}")
        pl.judge(value, "a load after everything")
        if cached:
            run.check_that(w.main.net_requests == before, "needless-download", "the data were cached, but were downloaded again")


def one_round(run: Run, w, pl: Place, rd, k: int, cached: bool) -> bool:
    sticky = rd["sticky"]
    last = [0]

    def choose(names):
        if run.choices.random() < sticky and last[0] < len(names):
            return last[0]
        last[0] = run.choices.randrange(len(names))
        return last[0]

    sched = Scheduler(w, choose)
    sched.max_switches = 200_000
    finished: list[int] = []
    offline = cached and rd["offline"]

    def job(p: Proc, spec, i: int):
        done = False
        for c in range(spec["calls"]):
            if p.dead:
                return
            label = f"round {k}, process {i}, call {c}"
            safe = cached or bool(finished)
            before = p.net_requests
            fired = len([f for f in p.faults if f.get("fired")])
            if offline or safe and c > 0:
                p.net_faults = [{"at": p.net_requests + j, "kind": "refused", "frac": 0} for j in range(4)]
            try:
                value = pl.load()
            except SimCrash:
                raise
            except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                if isinstance(e, Violation):
                    raise
                run.ev(label, type(e).__name__)
                own = len([f for f in p.faults if f.get("fired")]) > fired or p.sticky
                if own:
                    p.sticky = None
                    continue
                if not safe and spec["net"] and c == 0 and p.net_requests > before:
                    continue
                raise Violation("needs-network" if safe and p.net_requests > before else "failed-by-others", f"{label}: without a fault of its own raised {describe(e)}") from e
            if p.dead:
                return
            pl.judge(value, label)
            own = len([f for f in p.faults if f.get("fired")]) > fired or p.sticky
            if safe and not own and p.net_requests > before:
                raise Violation("needless-download", f"{label}: downloaded although a call had succeeded before it began")
            finished.append(i)
            spoil(value)
            run.ev(label, "ok")

    tasks = []
    n = pl.cached_ops if cached else pl.fresh_ops
    for i, spec in enumerate(rd["procs"]):
        p = Proc(f"p{k}.{i}")
        p.faults = place(spec["faults"], n, 0)
        p.net_faults = [dict(f) for f in spec["net"]]
        tasks.append(sched.spawn(p.name, lambda p=p, spec=spec, i=i: job(p, spec, i), p))
    w.sched = sched
    try:
        sched.run()
    finally:
        w.sched = None
    for t in tasks:
        if t.error is not None and not (isinstance(t.error, SimCrash) and t.proc.dead):
            raise t.error
    if len(tasks) > 1:
        run.probe("overlap")
        run.probe("switches", sched.switches)
    run.state("round", len(tasks), cached, len(finished))
    run.probe("loads", len(finished))
    return cached or bool(finished)
