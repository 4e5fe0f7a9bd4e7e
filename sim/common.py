"""Helpers shared by the checks."""
from __future__ import annotations
import gc
import os
import random
from contextlib import contextmanager

from .core import Run, SimCrash
from .fs import FS, drop_root, make_root, real_makedirs
from .world import Proc, World


@contextmanager
def disk(run: Run):
    """A world with a simulated disk."""
    root = make_root()
    w = World(run)
    fs = FS(w, root)
    real_makedirs(os.path.join(fs.root, "tmp"))
    real_makedirs(os.path.join(fs.root, "home"))
    w.fs = fs
    try:
        with w:
            yield w
    finally:
        w.fs = None
        for raw in list(fs.fds.values()):
            try:
                os.close(raw.fd)
            except OSError:
                pass
        fs.fds.clear()
        drop_root(root)


def reboot(w: World) -> Proc:
    """A new process takes the place of the dead one."""
    gc.collect()
    n = int(w.proc_stack[0].name.split("#")[1]) + 1 if "#" in w.proc_stack[0].name else 1
    p = Proc(f"main#{n}")
    w.proc_stack[0] = w.main = p
    return p


def as_process(w: World, fn):
    """Run fn in the current virtual process. ('ok', value), ('error', exception) or ('dead', None)."""
    proc = w.proc
    try:
        value = fn()
    except SimCrash:
        if not proc.dead:
            raise
        gc.collect()
        return "dead", None
    except Exception as e:  # noqa: BLE001
        if proc.dead:
            return "dead", None
        from .core import HarnessError, Violation
        if isinstance(e, (HarnessError, Violation)):
            raise
        return "error", e
    except KeyboardInterrupt as e:
        if proc.dead:
            return "dead", None
        return "error", e
    if proc.dead:
        return "dead", None
    return "ok", value


def place(faults: list[dict], n: int, offset: int) -> list[dict]:
    """Turn relative fault positions into operation numbers of a process that will do n operations."""
    out = []
    for f in faults:
        out.append({"at": offset + min(max(n - 1, 0), int(f["pos"] * n)), "kind": f["kind"], "frac": f.get("frac", 0.5), "after": f.get("after", False)})
    return out


def rng_for(seed, what) -> random.Random:
    return random.Random(f"{what}/{seed}")


def pick_faults(r: random.Random, kinds: list[str], most: int = 2) -> list[dict]:
    n = r.choice([1] * 4 + list(range(1, most + 1)))
    return [{"pos": round(r.random(), 4), "kind": r.choice(kinds), "frac": round(r.random(), 3), "after": r.random() < 0.4} for _ in range(n)]


def numeric_failure(e: BaseException) -> bool:
    """Errors that diverging estimates may legitimately end in (singular or non-finite matrices)."""
    import torch
    text = str(e).lower()
    if isinstance(e, torch.linalg.LinAlgError):
        return True
    if not isinstance(e, (ValueError, RuntimeError)):
        return False
    return any(t in text for t in ("positivedefinite", "positive-definite", "expected parameter", "expected value argument", "singular", "not finite", "nonfinite", "non-finite", "input nan"))
