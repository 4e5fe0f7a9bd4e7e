"""C03: whatever happens during a data set download, nothing wrong is returned and the cache is never poisoned."""
from __future__ import annotations
from ..bigfive import Place
from ..common import as_process, disk, pick_faults, place, reboot, rng_for
from ..core import Run, Violation, describe, generic_shrinks

ID = "C03"
QUICK_RUNS = 560
MIN_RUNS = 60
LEVEL = "exploration"
TECHNIQUE = "seeded network faults, disk faults, crash points and power losses over a simulated machine and web server"
LEVEL_NOTE = (
    "Sampled fault histories of up to 5 calls, faults placed at counted system calls and requests; every return value is compared with an independent "
    "processing of the served file. Trusts the disk model of C01 and that zip checksums detect flipped bits."
)
RULE = (
    "One case is a history of calls on one machine, each with network faults (refused, DNS, timeout, 503, captive portal, truncated with and without length, "
    "reset, flipped byte, slow), disk faults, process death, power loss or interrupt at a counted operation, followed by a call without faults. "
    "Non-trivial: at least one fault fired."
)
STATE_MEASURE = "(fault kind, operation it hit) pairs and (outcome, cache state) pairs"
REAL_COMPONENTS = ["irtorch.load_dataset.big_five", "shutil.unpack_archive, zipfile, pandas, pickle, tempfile"]
SIM_COMPONENTS = ["web server and network (urllib.request entry points)", "system calls on home and temporary folders", "process death and power loss", "names of temporary files"]
ASSUMPTIONS = ["rename is atomic and a fsynced file keeps its content", "the server serves the documented file format"]
DISK = ["crash", "crash", "power", "kbi", "enospc", "full", "eio", "eacces", "short"]
NET = ["refused", "dns", "timeout", "http503", "portal", "flip", "truncated", "silent", "reset", "slow"]


def gen(seed: int, tier: str) -> dict:
    r = rng_for(seed, ID)
    steps = []
    for _ in range(r.choice([1, 1, 2, 3] if tier == "quick" else [1, 2, 3, 5])):
        k = r.random()
        faults, net = [], []
        if k < 0.65:
            faults = pick_faults(r, DISK)
            if r.random() < 0.35:                       # around the end, where the cache is written
                for f in faults:
                    f["pos"] = round(1 - f["pos"] * 0.12, 4)
        if k > 0.5:
            net = [{"at": 0, "kind": r.choice(NET), "frac": round(r.random(), 3)}]
        if r.random() < 0.1:
            faults, net = [], []
        steps.append({"faults": faults, "net": net, "power_after": r.random() < 0.15})
    return {
        "seed": seed, "data": r.randint(0, 3), "rows": r.choice([8, 25, 60]), "buffer": r.choice([1024, 8192, 1 << 16]),
        "chunk": r.choice([500, 2000, 16384]), "steps": steps,
    }


def shrinks(plan):
    yield from generic_shrinks(plan, ("steps",), {"rows": 8})
    for i, s in enumerate(plan["steps"]):
        for cand in generic_shrinks(s, ("faults", "net"), {}):
            yield {**plan, "steps": plan["steps"][:i] + [cand] + plan["steps"][i + 1:]}


def nontrivial(run: Run) -> bool:
    return bool(run.faults)


def execute(run: Run) -> None:
    plan = run.plan
    with disk(run) as w:
        pl = Place(run, w)
        pl.rehearse()
        succeeded = False
        for k, step in enumerate(plan["steps"]):
            proc = w.main
            n = pl.cached_ops if succeeded else pl.fresh_ops
            proc.faults = place(step["faults"], n, proc.ops)
            proc.net_faults = [dict(f, at=f["at"] + proc.net_requests) for f in step["net"]]
            result, value = as_process(w, pl.load)
            fired = [f["kind"] for f in proc.faults if f.get("fired")]
            proc.faults, proc.net_faults, proc.sticky = [], [], None
            run.ev("call", k, result, type(value).__name__)
            run.state("call", result, succeeded)
            run.probe("call-" + result)
            if result == "ok":
                pl.judge(value, f"call {k}")
                succeeded = True
            elif result == "error" and not step["faults"] and not step["net"]:
                raise Violation("unexpected-exception", f"call {k}, without any fault, raised {describe(value)}")
            value = None
            if result == "dead" or step["power_after"]:
                if "power" in fired or step["power_after"]:
                    run.fault("power-loss")
                    w.main.dead = True
                    w.fs.lose_power(f"{plan['seed']}/{k}")
                    succeeded = False
                reboot(w)
        result, value = as_process(w, pl.load)
        if result != "ok":
            raise Violation("poisoned", f"a call on a healthy machine after the faults raised {describe(value)}")
        pl.judge(value, "a call on a healthy machine after the faults")
        run.ev("healthy call")
