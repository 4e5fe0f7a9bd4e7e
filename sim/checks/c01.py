"""C01: a saved model is never lost or torn, whatever interrupts save_model."""
from __future__ import annotations
import os
import pathlib

from .. import zoo
from ..common import as_process, disk, pick_faults, place, reboot, rng_for
from ..core import Run, SimCrash, Violation, describe, generic_shrinks
from ..fs import REAL, real_makedirs
from ..watch import Picture
from ..world import Proc, Scheduler

ID = "C01"
QUICK_RUNS = 1600
MIN_RUNS = 100
LEVEL = "exploration"
TECHNIQUE = "seeded crash points, disk faults, power losses and simultaneous savers and loaders over a simulated disk"
LEVEL_NOTE = (
    "Sampled, not exhaustive: about 1600 fault histories per quick run, with the faults placed at counted system calls. Trusts the disk model: "
    "atomic rename, fsync makes content durable, unsynced writes may be lost, torn or reordered."
)
RULE = (
    "One case is a history of 1-6 saves, loads, simultaneous saves and power losses on one or two model files, generated from one seed; "
    "faults (process death, power loss with torn and reordered unsynced writes, KeyboardInterrupt, ENOSPC once or sticky, EIO, EACCES, short write) "
    "are placed at a random operation of a save after counting its operations in a fault free rehearsal. Non-trivial: at least one fault fired or two "
    "tasks overlapped. Distinct: by the digest of the event trace."
)
STATE_MEASURE = "(fault kind, system call it hit) pairs and (outcome of the save, what the file held afterwards) pairs"
REAL_COMPONENTS = ["irtorch save_model/load_model and everything below it in irtorch", "torch.save serialisation and torch.load", "python buffered I/O"]
SIM_COMPONENTS = ["system calls on files below the scratch root", "process death and power loss", "scheduling of simultaneous processes", "names of temporary files"]
ASSUMPTIONS = [
    "rename is atomic and a fsynced file keeps its content (POSIX file system with a journal)",
    "the bytes torch.save produces are written in order, in chunks of seeded size, through whatever file object or path irtorch hands to torch.save",
]
KINDS = ["crash", "crash", "power", "power", "kbi", "enospc", "full", "eio", "eacces", "short"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    steps = []
    for _ in range(r.choice([1, 1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 6])):
        k = r.random()
        if k < 0.62:
            steps.append({"do": "save", "file": r.choice([0, 0, 0, 1]), "faults": pick_faults(r, KINDS) if r.random() < 0.85 else []})
        elif k < 0.85:
            steps.append({
                "do": "race", "file": 0, "writers": r.choice([1, 2, 2]), "readers": r.choice([0, 1, 1]),
                "faults": pick_faults(r, KINDS) if r.random() < 0.6 else [],
            })
        elif k < 0.93:
            steps.append({"do": "power"})
        else:
            steps.append({"do": "load", "file": 0})
    return {
        "seed": seed, "model": r.choice(["1pl", "2pl", "gpc", "nominal", "mononn"]), "algorithm": r.choice([None, "JML", "MML", "AE", "VAE"]),
        "scale": r.choice([None, None, "reverse", "rank", "flow"]), "initial": r.random() < 0.75, "path": r.choice(["str", "str", "path", "link", "relative"]),
        "buffer": r.choice([512, 4096, 8192, 1 << 16]), "save_chunk": r.choice([300, 1000, 4096, 1 << 20]), "steps": steps,
    }


def shrinks(plan: dict):
    yield from generic_shrinks(plan, ("steps",), {}, ("algorithm", "scale"))
    for i, s in enumerate(plan["steps"]):
        faults = s.get("faults") or []
        for k in range(len(faults)):
            yield {**plan, "steps": plan["steps"][:i] + [{**s, "faults": faults[:k] + faults[k + 1:]}] + plan["steps"][i + 1:]}
        if s["do"] == "race":
            for key in ("readers", "writers"):
                if s[key] > (1 if key == "writers" else 0):
                    yield {**plan, "steps": plan["steps"][:i] + [{**s, key: s[key] - 1}] + plan["steps"][i + 1:]}
            yield {**plan, "steps": plan["steps"][:i] + [{"do": "save", "file": 0, "faults": faults}] + plan["steps"][i + 1:]}
    if plan["path"] != "str":
        yield {**plan, "path": "str"}
    if plan["save_chunk"] != 1 << 20:
        yield {**plan, "save_chunk": 1 << 20}


def nontrivial(run: Run) -> bool:
    return bool(run.faults) or run.probes["race"] > 0


class Bench:
    """The models to save, and what each file may hold."""

    def __init__(self, run: Run, w, plan: dict):
        self.run, self.w, self.plan = run, w, plan
        self.folder = os.path.join(w.fs.root, "models")
        real_makedirs(self.folder)
        self.version = 0
        self.known: dict[int, dict] = {}          # version -> state
        self.model = zoo.make_model(plan["model"], 1, plan["seed"])
        self.data = zoo.make_data(16, zoo.categories_of(plan["model"]), plan["seed"])
        if plan["algorithm"]:
            self.model.fit(self.data, zoo.make_algorithm(plan["algorithm"]), **zoo.fit_kwargs(plan["algorithm"], 1))
        if plan["scale"]:
            self.model.add_scale_transformation(zoo.make_scale(plan["scale"], self.model, plan["seed"]))
        self.paths = [os.path.join(self.folder, "model_a.pt"), os.path.join(self.folder, "model_b.pt")]
        if plan["path"] == "link":
            real_makedirs(os.path.join(w.fs.root, "store"))
            real = os.path.join(w.fs.root, "store", "a.pt")
            os.symlink(real, self.paths[0])
        self.allowed: list[set] = [{None}, {None}]      # versions each file may hold
        self.durable: list[set] = [{None}, {None}]      # versions a power loss may bring back
        self.bystander = os.path.join(self.folder, "notes.txt")
        with REAL["io_open"](self.bystander, "wb") as fh:
            fh.write(b"do not touch\n" * 5)

    def argument(self, f: int):
        kind = self.plan["path"]
        p = self.paths[f]
        if kind == "path":
            return pathlib.Path(p)
        if kind == "relative":
            return os.path.relpath(p)
        return p

    def new_version(self, model=None) -> int:
        m = model or self.model
        self.version += 1
        zoo.randomise(m, (self.plan["seed"], self.version))
        self.known[self.version] = zoo.param_snapshot(m)
        return self.version

    def read(self, f: int, label: str):
        """Which version the file holds according to load_model in a new process. None if there is no file."""
        if not os.path.exists(self.paths[f]):
            return None
        fresh = zoo.make_model(self.plan["model"], 1, 999)
        _, e = self.run.attempt(fresh.load_model, self.argument(f))
        if e is not None:
            raise Violation("unreadable-file", f"{label}: the saved model can no longer be loaded: {describe(e)}")
        return self.identify(fresh, label)

    def identify(self, fresh, label: str):
        state = zoo.param_snapshot(fresh)
        for v, known in self.known.items():
            if zoo.same_state(state, known) is None:
                want = self.plan["algorithm"]
                got = None if fresh.algorithm is None else type(fresh.algorithm).__name__
                self.run.check_that(got == want, "incomplete-file", f"{label}: algorithm {want} was saved, {got} was loaded")
                self.run.check_that(len(fresh.scale) == bool(self.plan["scale"]), "incomplete-file", f"{label}: the scale transformation was not loaded")
                return v
        raise Violation("mixed-file", f"{label}: the file loads, but as no model that was ever saved")

    def verify(self, label: str) -> None:
        for f in (0, 1):
            got = self.read(f, label)
            self.run.state("file", label.split(" ")[0], "old" if got != self.version else "new")
            self.run.ev("holds", f, got)
            if got not in self.allowed[f]:
                raise Violation(
                    "lost-model" if got is None else "stale-model",
                    f"{label}: file {f} holds version {got}, possible are {sorted(self.allowed[f], key=str)}",
                )
            self.allowed[f] = {got}
        with REAL["io_open"](self.bystander, "rb") as fh:
            self.run.check_that(fh.read() == b"do not touch\n" * 5, "bystander", f"{label}: another file in the folder was changed")


def execute(run: Run) -> None:
    plan = run.plan
    here = os.getcwd()
    with disk(run) as w:
        try:
            b = Bench(run, w, plan)
            w.fs.adopt()
            if plan["path"] == "relative":
                os.chdir(b.folder)
            if plan["initial"]:
                v = b.new_version()
                run.call("save_model", b.model.save_model, b.argument(0))
                b.allowed[0] = {v}
                b.verify("initial")
                w.fs.adopt()
            b.durable = [set(b.allowed[0]), set(b.allowed[1])]
            for k, step in enumerate(plan["steps"]):
                run.ev("step", k, step["do"])
                if step["do"] == "save":
                    save(run, w, b, step, k)
                elif step["do"] == "race":
                    race(run, w, b, step, k)
                elif step["do"] == "power":
                    power(run, w, b, k)
                else:
                    b.read(step["file"], f"load {k}")
        finally:
            os.chdir(here)


def rehearse(b: Bench) -> int:
    """How many operations a save does at the moment."""
    w = b.w
    p = Proc("rehearsal")
    spare = os.path.join(b.folder, "rehearsal.pt")
    outer = w.enter(p)
    trace = len(b.run.trace)
    try:
        b.run.call("save_model", b.model.save_model, spare)
        b.run.call("save_model", b.model.save_model, spare)
    finally:
        w.leave(p, outer)
    del b.run.trace[trace:]
    for name in os.listdir(b.folder):
        if name.startswith(("rehearsal", ".rehearsal")):
            REAL["unlink"](os.path.join(b.folder, name))
            w.fs.names.pop(os.path.join(b.folder, name), None)
    w.fs.journal = [j for j in w.fs.journal if "rehearsal" not in j[1]]
    return max(1, (p.ops + 1) // 2)


def power(run: Run, w, b: Bench, k) -> None:
    run.fault("power-loss")
    w.main.dead = True
    settle(run, w, b, f"power {k}")


def settle(run: Run, w, b: Bench, label: str) -> None:
    """The machine lost power: only what is durable remains. Files saved since the last verification may be old or new."""
    w.fs.lose_power(f"{run.plan['seed']}/{label}")
    for f in (0, 1):
        b.allowed[f] = b.allowed[f] | b.durable[f]
    reboot(w)
    b.verify(label)
    b.durable = [set(b.allowed[0]), set(b.allowed[1])]


def save(run: Run, w, b: Bench, step, k) -> None:
    f = step["file"]
    n = rehearse(b)
    old = set(b.allowed[f])
    v = b.new_version()
    before = Picture(b.model)
    proc = w.main
    proc.faults = place(step["faults"], n, proc.ops)
    result, error = as_process(w, lambda: b.model.save_model(b.argument(f)))
    lost_power = any(x.get("fired") and x["kind"] == "power" for x in proc.faults)
    proc.faults = []
    proc.sticky = None
    run.ev("save", k, result, type(error).__name__ if error else "")
    run.state("save", result)
    run.probe("save-" + result)
    label = f"{result} save {k}"
    if result == "ok":
        b.allowed[f] = {v}
    else:
        b.allowed[f] = old | {v}
    if result == "dead":
        if lost_power:
            settle(run, w, b, label)
        else:
            reboot(w)
            b.verify(label)
    else:
        b.verify(label)
        bad = before.changed()
        if bad is not None:
            raise Violation("save-changed-model", f"{label}: saving changed the model: {bad[1]}")
    b.durable[f] |= b.allowed[f] | ({v} if result != "ok" else set())
    if result == "error":
        if not step["faults"]:
            raise Violation("unexpected-exception", f"{label}: save_model raised {describe(error)} without any fault")
        # once the trouble is over the model can be saved
        run.call("save_model again", b.model.save_model, b.argument(f))
        b.allowed[f] = {v}
        b.verify(f"retry {label}")
        b.durable[f].add(v)


def race(run: Run, w, b: Bench, step, k) -> None:
    """Several processes save to and load from the same file at the same time."""
    f = step["file"]
    n = rehearse(b)
    old = set(b.allowed[f])
    writers, versions = [], []
    for i in range(step["writers"]):
        m = zoo.make_model(run.plan["model"], 1, 100 + i)
        m.algorithm, m.scale = b.model.algorithm, list(b.model.scale)
        versions.append(b.new_version(m))
        writers.append(m)
    sched = Scheduler(w, lambda names: run.choices.randrange(len(names)))
    tasks = []
    for i, m in enumerate(writers):
        p = Proc(f"writer{i}")
        if i == 0:
            p.faults = place(step["faults"], n, 0)
        tasks.append(sched.spawn(p.name, lambda m=m: m.save_model(b.argument(f)), p))
    seen: list = []

    def reader():
        for _ in range(2):
            if os.path.exists(b.paths[f]):
                m = zoo.make_model(run.plan["model"], 1, 998)
                m.load_model(b.argument(f))
                seen.append(b.identify(m, f"read during race {k}"))

    for i in range(step["readers"]):
        tasks.append(sched.spawn(f"reader{i}", reader, Proc(f"reader{i}")))
    w.sched = sched
    try:
        sched.run()
    finally:
        w.sched = None
    run.probe("race")
    run.probe("race-switches", sched.switches)
    possible = set()
    finished = []
    power_lost = False
    for i, t in enumerate(tasks):
        if t.name.startswith("reader"):
            if t.error is not None:
                if isinstance(t.error, Violation):
                    raise t.error
                if isinstance(t.error, SimCrash) and t.proc.dead:
                    continue
                raise Violation("torn-read", f"race {k}: loading while another process saves raised {describe(t.error)}")
            continue
        fired = [x for x in t.proc.faults if x.get("fired")]
        power_lost = power_lost or any(x["kind"] == "power" for x in fired)
        if t.error is None and not t.proc.dead:
            finished.append(versions[i])
        elif not fired:
            raise Violation("unexpected-exception", f"race {k}: a save failed because of another save: {describe(t.error)}")
        possible.add(versions[i])
        run.ev("writer", i, "ok" if t.error is None else type(t.error).__name__)
    for v in seen:
        run.check_that(v in old | set(versions), "stale-read", f"race {k}: read version {v}")
    # whoever replaced the file last wins, and nobody goes back to what was there before once a save has returned
    b.allowed[f] = set(versions) if finished else old | possible
    if power_lost:
        w.main.dead = True
        b.durable[f] |= old | possible
        settle(run, w, b, f"race {k}")
    else:
        b.verify(f"race {k}")
        b.durable[f] |= set(versions)
    b.model = writers[0] if len(writers) == 1 else b.model

