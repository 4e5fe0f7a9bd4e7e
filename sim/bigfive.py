"""The served file of the Big Five data set, and an independent processing of it by the documented recipe."""
from __future__ import annotations
import io
import math
import os
import random
import zipfile

import pandas as pd
import torch

from .core import Run, Violation
from .fs import REAL
from .net import Net
from .world import Proc

TRAITS = ["EXT", "EST", "AGR", "CSN", "OPN"]
ITEMS = [f"{t}{i}" for t in TRAITS for i in range(1, 11)]
REVERSED = {"EXT2", "EXT4", "EXT6", "EXT8", "EXT10", "AGR1", "AGR3", "AGR5", "AGR7", "CSN2", "CSN4", "CSN6", "CSN8", "EST2", "EST4", "OPN2", "OPN4", "OPN6"}
TAIL = ["dateload", "screenw", "screenh", "introelapse", "testelapse", "endelapse", "IPC", "country", "lat_appx_lots_of_err", "long_appx_lots_of_err"]


def rows(seed, n: int) -> list[list]:
    r = random.Random(f"bigfive/{seed}")
    out = []
    for i in range(n):
        answers = [r.randint(1, 5) for _ in ITEMS]
        times = [r.randint(200, 90_000) for _ in ITEMS]
        ipc = 1
        how = "good" if i < 4 else "null" if i == 4 else r.choice(["good", "good", "missing", "allmissing", "nan", "negative", "slow", "ipc", "edge", "null"])
        if how == "missing":
            for k in r.sample(range(50), r.randint(1, 12)):
                answers[k] = 0
        elif how == "allmissing":
            answers = [0] * 50
        elif how == "nan":
            answers[r.randrange(50)] = None
        elif how == "negative":
            times[r.randrange(50)] = -r.randint(1, 5000)
        elif how == "slow":
            times[r.randrange(50)] = 300_001 + r.randint(0, 10**6)
        elif how == "ipc":
            ipc = r.randint(2, 9)
        elif how == "edge":
            times[r.randrange(50)] = 300_000
            times[r.randrange(50)] = 0
            answers = [r.choice([0, 5]) for _ in ITEMS]
            answers[0] = 5
        elif how == "null":                     # as in the real file, where it makes every column a float
            answers, times = [None] * 50, [None] * 50
        tail = ["2016-03-03 02:01:01", 768, 1024, r.randint(1, 20), r.randint(100, 500), r.randint(5, 30), ipc, r.choice(["GB", "SE", "US", "MY"]), 51.5448, 0.1991]
        out.append(answers + times + tail)
    return out


def served(seed, n: int) -> tuple[bytes, str]:
    text = "\t".join(ITEMS + [f"{i}_E" for i in ITEMS] + TAIL) + "\n"
    for row in rows(seed, n):
        text += "\t".join("NULL" if v is None else str(v) for v in row) + "\n"
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        for name, content in (("IPIP-FFM-data-8Nov2018/codebook.txt", "codebook\n" * 40), ("IPIP-FFM-data-8Nov2018/data-final.csv", text)):
            info = zipfile.ZipInfo(name, (2018, 11, 8, 0, 0, 0))
            info.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(info, content)
    return buf.getvalue(), text


def reference(seed, n: int) -> torch.Tensor:
    """The documented processing, row by row and without pandas."""
    out = []
    for row in rows(seed, n):
        answers, times, ipc = row[:50], row[50:100], row[106]
        if any(a is None for a in answers) or sum(answers) <= 0 or ipc != 1:
            continue
        if any(t < 0 for t in times) or any(t / 1000 > 300 for t in times):
            continue
        out.append([math.nan if a == 0 else (5 - a if name in REVERSED else a - 1) for name, a in zip(ITEMS, answers)])
    return torch.tensor(out, dtype=torch.float32)


class Place:
    """One machine with a disk and a network that serves the data set."""

    def __init__(self, run: Run, w):
        self.run, self.w = run, w
        plan = run.plan
        zipped, text = served(plan["data"], plan["rows"])
        w.net = Net(w, zipped)
        self.want = reference(plan["data"], plan["rows"])
        self.frame = pd.read_csv(io.StringIO(text), sep="\t", header=0)
        self.items = None
        self.fresh_ops = self.cached_ops = 0

    def load(self):
        from irtorch import load_dataset
        return load_dataset.big_five()

    def judge(self, value, label: str) -> None:
        """Whatever the call returns is the data of the served file."""
        if not (isinstance(value, tuple) and len(value) == 3):
            raise Violation("wrong-data", f"{label}: unexpected return value {type(value).__name__}")
        data, frame, items = value
        if data.shape != self.want.shape:
            raise Violation("wrong-data", f"{label}: data of shape {tuple(data.shape)}, should be {tuple(self.want.shape)}")
        if not torch.allclose(data.float(), self.want, atol=1e-4, equal_nan=True):
            raise Violation("wrong-data", f"{label}: {int((~torch.isclose(data.float(), self.want, atol=1e-4, equal_nan=True)).sum())} responses differ from the documented processing")
        same = list(frame.columns) == list(self.frame.columns) and len(frame) == len(self.frame) and all(
            (frame[c].reset_index(drop=True).fillna(-99) == self.frame[c].fillna(-99)).all() for c in self.frame.columns
        )
        if not same:
            raise Violation("wrong-data", f"{label}: the original data are not those of the served file")
        if len(items) != 50 or (self.items is not None and items != self.items):
            raise Violation("wrong-data", f"{label}: {len(items)} items")
        self.items = list(items)

    def rehearse(self) -> None:
        """Count the operations of a call that downloads and of one that finds the cache. Leaves the machine as it was."""
        w = self.w
        before = {d: set(os.listdir(os.path.join(w.fs.root, d))) for d in ("home", "tmp")}
        n = []
        for k in (0, 1):
            p = Proc("rehearsal")
            outer = w.enter(p)
            trace = len(self.run.trace)
            try:
                self.judge(self.run.call("big_five", self.load), "a call without any fault")
            finally:
                w.leave(p, outer)
            del self.run.trace[trace:]
            n.append(p.ops)
            if k == 1 and p.net_requests:
                raise Violation("needless-download", "the second call made a network request")
        self.fresh_ops, self.cached_ops = n
        for d, names in before.items():
            folder = os.path.join(w.fs.root, d)
            for name in os.listdir(folder):
                if name not in names:
                    _remove(os.path.join(folder, name))
        w.fs.adopt()


def _remove(path: str) -> None:
    if os.path.isdir(path):
        for name in os.listdir(path):
            _remove(os.path.join(path, name))
        REAL["rmdir"](path)
    else:
        REAL["unlink"](path)


