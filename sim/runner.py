"""Executing plans: one plan, many plans in worker processes, minimising a failing one, replaying it."""
from __future__ import annotations
import contextlib
import gc
import importlib
import io
import json
import os
import resource
import pickle
import random
import re
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

from .core import HarnessError, Run, SimBudget, SimCrash, Violation, describe, jdump

VERIF = Path(__file__).resolve().parent.parent
HANG_SECONDS = 150
REAL_TIME = time.monotonic


# -- one plan --------------------------------------------------------------------------------------------------------
def load_check(ident: str):
    return importlib.import_module(f"sim.checks.{ident.lower()}")


def prepare() -> None:
    """Install the seams and import the code under test."""
    from . import seams
    seams.install()
    sys.unraisablehook = lambda *_: None
    from . import zoo
    zoo.silence()
    import irtorch
    import irtorch.load_dataset  # noqa: F401
    import irtorch.utils  # noqa: F401
    from .core import REPO
    where = os.path.realpath(irtorch.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"irtorch was imported from {where}, not from {REPO}")
    import torch
    torch.set_num_threads(1)
    warm_up(zoo)
    # a damaged file may ask for any amount of memory: it must not get that of the machine
    vm = int(open("/proc/self/statm").read().split()[0]) * os.sysconf("SC_PAGE_SIZE")
    resource.setrlimit(resource.RLIMIT_AS, (vm + 6 * 2**30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    gc.collect()
    gc.freeze()
    gc.disable()       # garbage is collected at fixed points only


def warm_up(zoo) -> None:
    """Let torch set up whatever it sets up lazily, so that the first run of a process is like any other."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), contextlib.suppress(Exception):
        data = zoo.make_data(12, zoo.categories_of("gpc"), 0)
        for name in ("VAE", "MML"):
            model = zoo.make_model("gpc", 1, 0)
            model.fit(data, zoo.make_algorithm(name), **zoo.fit_kwargs(name, 1))
            model.latent_scores(data, device="cpu")
        zoo.make_scale("flow", model, 0)


class _Hang(BaseException):
    pass


_FIRED: list = []


def _alarm(*_):
    _FIRED.append(True)
    raise _Hang()


def run_plan(check, plan: dict, hang: int = HANG_SECONDS) -> dict:
    """Execute one plan in a fork of this process, so that no run can leave anything behind for the next one."""
    run = Run(check.ID, plan)
    out = {"ok": True, "cls": None, "message": None, "harness": None, "digest": "", "events": 0}
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)                     # so that whatever it starts can be ended with it
            here = _run_here(check, plan, hang)
            child = here.pop("run")
            blob = pickle.dumps((here, child.trace, child.faults, child.probes, child.states, child.ops, child.simtime))
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        except BaseException:  # noqa: BLE001
            import traceback
            traceback.print_exc(file=sys.__stderr__)
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    blob = b""
    deadline = REAL_TIME() + hang + 20
    try:
        while True:
            left = deadline - REAL_TIME()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                out.update(ok=False, cls="no-termination", message=f"no end within {hang} s of real time")
                break
            part = os.read(r, 1 << 20)
            if not part:
                break
            blob += part
    finally:
        os.close(r)
        with contextlib.suppress(OSError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(ChildProcessError):
            os.waitpid(pid, 0)
    if out["cls"] is None:
        if not blob:
            out["harness"] = "the process of the run died"
        else:
            out, run.trace, run.faults, run.probes, run.states, run.ops, run.simtime = pickle.loads(blob)
    out["run"] = run
    return out


def _run_here(check, plan: dict, hang: int) -> dict:
    """Execute one plan. Everything random starts from the plan."""
    import numpy as np
    import torch
    from . import world
    run = Run(check.ID, plan)
    seed = int(plan["seed"])
    torch.set_num_threads(1)
    torch.manual_seed(seed)
    np.random.seed(seed % 2**32)
    random.seed(seed)
    world.WORLD = None
    gc.collect()
    out = {"ok": True, "cls": None, "message": None, "harness": None}
    _FIRED.clear()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(hang)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            check.execute(run)
    except Violation as v:
        out.update(ok=False, cls=v.cls, message=v.message)
    except SimBudget as b:
        out.update(ok=False, cls="no-termination", message=str(b))
    except _Hang:
        out.update(ok=False, cls="no-termination", message=f"no end within {hang} s of real time")
    except SimCrash as e:
        out.update(harness=f"SimCrash escaped: {e}")
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, Exception) and not isinstance(e, MemoryError) and _theirs(e):
            out.update(ok=False, cls="unexpected-exception", message=f"an ordinary use of the library raised {describe(e)}")
        else:
            out.update(harness=f"{describe(e)}\n{''.join(traceback.format_exception(e))[-3000:]}")
        if isinstance(e, KeyboardInterrupt) and not run.faults.get("interrupt"):
            raise
    finally:
        signal.alarm(0)
        world.WORLD = None
    if _FIRED:      # whatever the run made of the alarm, it was the alarm
        out.update(ok=False, cls="no-termination", message=f"no end within {hang} s of real time", harness=None)
    if out["cls"]:
        run.ev("VIOLATION", out["cls"])
    out.update(digest=run.digest(), events=len(run.trace), run=run)
    return out


def _theirs(e: Exception) -> bool:
    """The code under test raised this, or what it made cannot be copied. Failures of the arithmetic are no defects by themselves."""
    from .common import numeric_failure
    if isinstance(e, HarnessError) or numeric_failure(e):
        return False
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    return any("/irtorch/" in f or f.endswith(("/copy.py", "/pickle.py")) for f in files)


# -- worker process --------------------------------------------------------------------------------------------------
def worker(ident: str, tier: str, base: int, shard: int, shards: int, count: int, seconds: float, hang: int) -> int:
    prepare()
    check = load_check(ident)
    start = REAL_TIME()
    totals = {"faults": Counter(), "probes": Counter(), "ops": Counter()}
    states: set = set()
    digests: set = set()
    nontrivial: set = set()
    runs = 0
    simtime = 0.0
    events = 0
    samples = []
    troubles = 0
    status = "done"
    i = shard
    while count < 0 or i < count:
        if REAL_TIME() - start > seconds:
            status = "time"
            break
        seed = base * 1_000_003 + i
        plan = json.loads(jdump(check.gen(seed, tier)))
        r = run_plan(check, plan, hang)
        run: Run = r["run"]
        runs += 1
        simtime += run.simtime
        events += r["events"]
        totals["faults"].update(run.faults)
        totals["probes"].update(run.probes)
        totals["ops"].update(run.ops)
        if len(states) < 50_000:
            states |= run.states
        digests.add(r["digest"])
        if check.nontrivial(run):
            nontrivial.add(r["digest"])
        if r["harness"]:
            emit({"type": "harness", "plan": plan, "error": r["harness"]})
            troubles += 1
            if troubles > 3:
                break
            i += shards
            continue
        if not r["ok"]:
            emit({"type": "violation", "plan": plan, "cls": r["cls"], "message": r["message"], "digest": r["digest"]})
            status = "violation"
            if not known(ident, r["cls"], r["message"]):
                break
        elif runs <= 3 or runs % 50 == 0:
            samples.append({"seed": seed, "digest": r["digest"], "plan": plan})
        i += shards
    emit({
        "type": "summary", "runs": runs, "simtime": simtime, "events": events, "status": status,
        **{k: dict(v) for k, v in totals.items()},
        "states": sorted(states), "digests": sorted(digests), "nontrivial": sorted(nontrivial), "samples": samples[:40],
        "seconds": REAL_TIME() - start,
    })
    return 0


def emit(obj) -> None:
    sys.__stdout__.write(jdump(obj) + "\n")
    sys.__stdout__.flush()


def recheck(ident: str) -> int:
    """Execute the plans given on stdin (one per line) and report what came out of each."""
    prepare()
    check = load_check(ident)
    for line in sys.stdin:
        plan = json.loads(line)
        r = run_plan(check, plan)
        emit({"type": "result", "seed": plan["seed"], "ok": r["ok"], "cls": r["cls"], "message": r["message"], "digest": r["digest"],
              "harness": r["harness"], "trace": r["run"].trace[-400:], "faults": dict(r["run"].faults)})
    return 0


def minimise(ident: str, seconds: float) -> int:
    prepare()
    check = load_check(ident)
    plan = json.loads(sys.stdin.readline())
    first = run_plan(check, plan)
    if first["ok"]:
        emit({"type": "minimised", "reproduced": False})
        return 0
    cls = first["cls"]
    start = REAL_TIME()
    execs = 0
    best = plan
    progress = True
    while progress and REAL_TIME() - start < seconds and execs < 250:
        progress = False
        for cand in check.shrinks(best):
            if REAL_TIME() - start > seconds or execs >= 250:
                break
            try:
                r = run_plan(check, cand, 60)
            except Exception:  # noqa: BLE001
                continue
            execs += 1
            if not r["ok"] and r["cls"] == cls and not r["harness"]:
                best = cand
                progress = True
                break
    emit({"type": "minimised", "reproduced": True, "plan": best, "executions": execs})
    return 0


# -- parent ----------------------------------------------------------------------------------------------------------
def environment(hashseed="0") -> dict:
    env = dict(os.environ)
    from .core import REPO
    env.update(
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED=hashseed, CUDA_VISIBLE_DEVICES="",
        PYTHONDONTWRITEBYTECODE="1", MKL_CBWR="COMPATIBLE", TQDM_DISABLE="1", MPLBACKEND="Agg",
        PYTHONPATH=os.pathsep.join([str(VERIF), REPO]), IRTSIM_CHILD="1", PYTHONWARNINGS="ignore",
    )
    if not env.get("MPLCONFIGDIR"):
        env["MPLCONFIGDIR"] = "/opt/vp/mplconfig" if os.path.isdir("/opt/vp/mplconfig") else "/tmp/irtsim-mpl"
    return env


def python() -> str:
    for p in ("/opt/venv/bin/python",):
        if os.path.exists(p):
            return p
    return sys.executable


def child(args, stdin=None, hashseed="0", timeout=None):
    p = subprocess.run([python(), "-m", "sim", *args], cwd=VERIF, env=environment(hashseed), input=stdin, capture_output=True, text=True, timeout=timeout)
    out = [json.loads(line) for line in p.stdout.splitlines() if line.startswith("{")]
    return p, out


FINDINGS = VERIF / "KNOWN_FINDINGS.json"


def known(ident: str, cls: str, message: str):
    try:
        entries = json.loads(FINDINGS.read_text())
    except FileNotFoundError:
        return None
    for e in entries.get("findings", []):
        if e["property"] == ident and e["class"] == cls and re.search(e["match"], message or ""):
            return e
    return None


def check_command(ident: str, tier: str, seconds: float | None, count: int | None, workers: int, base: int) -> int:
    t0 = REAL_TIME()
    import ast
    source = (Path(__file__).parent / "checks" / f"{ident.lower()}.py").read_text()
    consts = {}
    for node in ast.parse(source).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    print(f"seed {base}", flush=True)
    if tier == "quick":
        count = count if count is not None else consts["QUICK_RUNS"]
        seconds = seconds if seconds is not None else 300
    else:
        count = count if count is not None else -1
        seconds = seconds if seconds is not None else 600
    hang = consts.get("HANG", HANG_SECONDS)
    procs = []
    for s in range(workers):
        procs.append(subprocess.Popen(
            [python(), "-m", "sim", "worker", ident, tier, str(base), str(s), str(workers), str(count), str(seconds), str(hang)],
            cwd=VERIF, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
        ))
    messages = _collect(procs, ident, seconds + hang + 120)
    errors = [m for m in messages if m["type"] == "harness"]
    violations = [m for m in messages if m["type"] == "violation"]
    summaries = [m for m in messages if m["type"] == "summary"]
    fresh, matched = [], {}
    for v in violations:
        e = known(ident, v["cls"], v["message"])
        if e is None:
            fresh.append(v)
        else:
            matched.setdefault(jdump(e), []).append(v)
    fresh.sort(key=lambda v: (v["cls"] == "no-termination", v["plan"]["seed"]))
    code = 0
    reported = 0
    confirmed = None
    for v in fresh[:4]:
        replay = _report(ident, tier, v)
        if replay == "slow":     # the machine was slow, not the code: the same run ended when it was executed again
            continue
        if replay is None:
            errors.append({"plan": v["plan"], "error": f"violation {v['cls']}: {v['message']} does not replay"})
            continue
        confirmed = replay
        reported += 1
        code = 1
        break
    for e in matched:
        print(f"KNOWN-FINDING: property={ident} {json.loads(e)['what']}")
    determinism = None
    if code == 0:
        samples = [s for m in summaries for s in m["samples"]]
        random.Random(base).shuffle(samples)
        determinism = _determinism(ident, samples[: (6 if tier == "quick" else 60)])
        if determinism["mismatches"] and not os.environ.get("IRTSIM_STRICT"):
            print(f"check {ident}: note: {len(determinism['mismatches'])} of {determinism['replayed']} replayed plans took another course in a fresh process", file=sys.stderr)
        elif determinism["mismatches"]:
            errors.append({"plan": determinism["mismatches"][0], "error": "the same plan took another course in a fresh process"})
    evidence(ident, tier, base, consts, summaries, determinism, reported, matched, REAL_TIME() - t0, workers)
    if code == 1:
        return 1
    if errors:
        for e in errors[:3]:
            print(f"HARNESS-ERROR property={ident} plan={jdump(e.get('plan'))} {e['error']}", file=sys.stderr)
        print(f"check {ident}: the simulator failed, no verdict", file=sys.stderr)
        return 2
    runs = sum(m["runs"] for m in summaries)
    if len(summaries) < workers or runs < consts.get("MIN_RUNS", 10):
        print(f"check {ident}: only {runs} runs completed, no verdict", file=sys.stderr)
        return 2
    print(f"{ident}: held in {runs} simulated runs ({REAL_TIME() - t0:.0f} s)")
    return 0


def _collect(procs, ident, limit) -> list[dict]:
    import selectors
    messages = []
    sel = selectors.DefaultSelector()
    buffers = {}
    errs = {}
    for p in procs:
        os.set_blocking(p.stdout.fileno(), False)
        os.set_blocking(p.stderr.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, (p, "out"))
        sel.register(p.stderr, selectors.EVENT_READ, (p, "err"))
        buffers[p] = ""
        errs[p] = ""
    start = REAL_TIME()
    stop_at = None
    while sel.get_map():
        for key, _ in sel.select(timeout=1):
            p, which = key.data
            data = key.fileobj.read()
            if not data:
                sel.unregister(key.fileobj)
                continue
            if which == "err":
                errs[p] = (errs[p] + data)[-4000:]
                continue
            buffers[p] += data
            *lines, buffers[p] = buffers[p].split("\n")
            for line in lines:
                if line.startswith("{"):
                    m = json.loads(line)
                    messages.append(m)
                    if m["type"] == "violation" and not known(ident, m["cls"], m["message"]) and stop_at is None:
                        stop_at = REAL_TIME() + 4
        now = REAL_TIME()
        if (stop_at is not None and now > stop_at) or now - start > limit:
            for p in procs:
                if p.poll() is None:
                    p.kill()
            if stop_at is None:
                messages.append({"type": "harness", "plan": None, "error": "workers did not end"})
            break
    for p in procs:
        p.wait()
        if p.returncode not in (0, -9) and stop_at is None:
            messages.append({"type": "harness", "plan": None, "error": f"worker ended with {p.returncode}: {errs[p][-3000:]}"})
    return messages


def _report(ident: str, tier: str, v: dict):
    """Confirm in a fresh process, minimise, write the replay file, confirm that it replays."""
    plan = v["plan"]
    _, first = child(["recheck", ident], stdin=jdump(plan) + "\n", hashseed="1")
    if first and first[0]["ok"] and v["cls"] == "no-termination" and "real time" in v["message"]:
        return "slow"
    if not first or first[0]["ok"] or first[0]["harness"]:
        return None
    best, execs = plan, 0
    if v["cls"] != "no-termination":
        try:
            _, out = child(["minimise", ident, "60" if tier == "quick" else "180"], stdin=jdump(plan) + "\n", timeout=420)
            if out and out[0].get("reproduced"):
                best, execs = out[0]["plan"], out[0]["executions"]
        except subprocess.TimeoutExpired:
            pass
    _, a = child(["recheck", ident], stdin=jdump(best) + "\n", hashseed="2")
    if not a or a[0]["ok"]:
        best, a = plan, first
    r = a[0]
    out_dir = VERIF / "out"
    out_dir.mkdir(exist_ok=True)
    path = out_dir / f"{ident}-{plan['seed']}.json"
    path.write_text(json.dumps({
        "property": ident, "seed": plan["seed"], "class": r["cls"], "message": r["message"], "digest": r["digest"],
        "plan": best, "original_plan": plan, "minimiser_executions": execs, "faults_fired": r["faults"], "trace": r["trace"],
        "replay": f"cd /verif && /opt/venv/bin/python -m sim replay {path}",
    }, indent=1, sort_keys=True))
    print(f"{ident}: {r['cls']}: {r['message']}")
    print(f"plan: {jdump(best)}")
    print(f"VIOLATION property={ident} replay={path}", flush=True)
    return path


def _determinism(ident: str, samples: list[dict]) -> dict:
    if not samples:
        return {"replayed": 0, "mismatches": []}
    bad = []
    parts = [samples[i::4] for i in range(4)]
    procs = []
    for k, part in enumerate(parts):
        if part:
            p = subprocess.Popen([python(), "-m", "sim", "recheck", ident], cwd=VERIF, env=environment(str(17 + k)), stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            procs.append((p, part))
    n = 0
    import threading
    outs = {}

    def talk(p, part):
        outs[p] = p.communicate("".join(jdump(s["plan"]) + "\n" for s in part))[0]

    threads = [threading.Thread(target=talk, args=x) for x in procs]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for p, part in procs:
        results = [json.loads(line) for line in outs[p].splitlines() if line.startswith("{")]
        for s, r in zip(part, results):
            n += 1
            if r["digest"] != s["digest"] or not r["ok"]:
                bad.append(s["plan"])
    return {"replayed": n, "mismatches": bad}


def evidence(ident, tier, base, consts, summaries, determinism, violations, matched, wall, workers) -> None:
    merged = {"faults": Counter(), "probes": Counter(), "ops": Counter()}
    for m in summaries:
        for k in merged:
            merged[k].update(m[k])
    runs = sum(m["runs"] for m in summaries)
    digests = set().union(*[m["digests"] for m in summaries]) if summaries else set()
    nontrivial = set().union(*[m["nontrivial"] for m in summaries]) if summaries else set()
    states = set().union(*[m["states"] for m in summaries]) if summaries else set()
    busy = max([m["seconds"] for m in summaries], default=0.0) or 1e-9
    samples = [{"seed": s["seed"], "plan": s["plan"], "trace_digest": s["digest"]} for m in summaries for s in m["samples"][:1]][:4]
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": len(nontrivial),
        "rule": consts.get("RULE", ""),
        "samples": samples,
        "simulated_runs_per_hour": int(runs / busy * 3600),
        "seeds_per_hour": int(runs / busy * 3600),
        "first_seed": base * 1_000_003,
        "simulated_seconds": round(sum(m["simtime"] for m in summaries), 3),
        "events": sum(m["events"] for m in summaries),
        "faults_fired": dict(sorted(merged["faults"].items())),
        "probes": dict(sorted(merged["probes"].items())),
        "operations": dict(sorted(merged["ops"].items())),
        "distinct_executions": len(digests),
        "distinct_states": len(states),
        "state_measure": consts.get("STATE_MEASURE", ""),
        "components_real": consts.get("REAL_COMPONENTS", []),
        "components_simulated": consts.get("SIM_COMPONENTS", []),
        "determinism_replays": 0 if determinism is None else determinism["replayed"],
        "determinism_mismatches": 0 if determinism is None else len(determinism["mismatches"]),
        "known_findings_seen": len(matched),
        "workers": workers,
    }
    path = VERIF / "evidence" / f"{ident}.json"
    path.parent.mkdir(exist_ok=True)
    path.write_text(json.dumps({
        "property": ident, "tier": tier, "seed": base, "level": consts.get("LEVEL", "exploration"), "coverage": coverage,
        "assumptions": consts.get("ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": violations,
    }, indent=1, sort_keys=True))


def replay_command(path: str) -> int:
    data = json.loads(Path(path).read_text())
    _, out = child(["recheck", data["property"]], stdin=jdump(data["plan"]) + "\n")
    if not out:
        print("replay failed to run", file=sys.stderr)
        return 2
    r = out[0]
    print("\n".join(r["trace"]))
    if r["harness"]:
        print(r["harness"], file=sys.stderr)
        return 2
    if r["ok"]:
        print("the property held in this execution")
        return 0
    same = r["cls"] == data["class"] and r["digest"] == data["digest"]
    print(f"{r['cls']}: {r['message']}")
    print("reproduced exactly" if same else f"a violation, but not the recorded execution ({data['class']}, {data['digest']} -> {r['digest']})")
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1
