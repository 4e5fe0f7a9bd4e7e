"""The random number generators of torch under the control of the simulator.

A policy decides every draw. All outcomes are ones the real generator can produce; adversarial policies pick those that a
few seeded draws would hardly ever show.
"""
from __future__ import annotations
import random

import torch
from torch.overrides import TorchFunctionMode

GOLDEN = 0.6180339887498949
POLICIES = ("low", "high", "rare", "alternate", "seeded", "even")


def _size(args, kwargs):
    size = kwargs.get("size")
    if size is None:
        size = args[0] if len(args) == 1 and not isinstance(args[0], (int, torch.Tensor)) else args
    return tuple(int(s) for s in size)


class Dice(TorchFunctionMode):
    """``policy``: low, high (extreme outcomes), rare (least likely but possible), alternate, seeded, even (in exact proportion)."""

    def __init__(self, policy: str, seed, run=None, only=None):
        super().__init__()
        self.policy, self.run, self.only = policy, run, only
        self.r = random.Random(f"dice/{seed}")
        self.k = 0
        self.draws = 0
        self.permutations: list = []

    # -- numbers in [0, 1) ---------------------------------------------------------------------------------------------
    def unit(self, n: int) -> torch.Tensor:
        if self.policy == "low":
            out = torch.full((n,), 2.0 ** -24)
        elif self.policy == "high":
            out = torch.full((n,), 1 - 2.0 ** -24)
        elif self.policy == "alternate":
            out = torch.tensor([2.0 ** -24 if (self.k + i) % 2 else 1 - 2.0 ** -24 for i in range(n)])
        elif self.policy in ("even", "rare"):
            out = torch.tensor([((self.k + i + 1) * GOLDEN) % 1.0 for i in range(n)], dtype=torch.float64).float().clamp(max=1 - 2.0 ** -24)
        else:
            out = torch.tensor([self.r.random() for _ in range(n)], dtype=torch.float64).float().clamp(max=1 - 2.0 ** -24)
        self.k += n
        return out

    def note(self, what: str):
        self.draws += 1
        if self.run is not None:
            self.run.probe(f"draws:{what}")
            self.run.fault(f"draw-{self.policy}")

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        name = getattr(func, "__name__", "")
        if self.only is not None and name not in self.only:
            return func(*args, **kwargs)
        if name == "randint":
            a = list(args)
            low, high = kwargs.get("low"), kwargs.get("high")
            if high is None:
                if low is None and len(a) >= 2 and isinstance(a[1], (int,)):
                    low, high, *a = a
                elif low is not None and a and isinstance(a[0], int):
                    high, *a = a
                else:
                    high, *a = a
            low = 0 if low is None else low
            if low == 0 and int(high) > 2 ** 20:            # seeds of jobs
                return func(*args, **kwargs)
            size = kwargs.get("size", a[0] if a else ())
            size = tuple(int(s) for s in size)
            self.note("randint")
            n = 1
            for s in size:
                n *= s
            u = self.unit(n)
            out = (int(low) + (u.double() * (int(high) - int(low))).floor()).clamp(max=int(high) - 1)
            return out.to(kwargs.get("dtype") or torch.int64).reshape(size)
        if name == "randperm":
            n = int(args[0] if args else kwargs["n"])
            self.note("randperm")
            p = list(range(n))
            if self.policy == "high":
                p.reverse()
            elif self.policy == "alternate":
                p = p[n // 2:] + p[:n // 2]
            elif self.policy == "rare":
                p = p[::2] + p[1::2]
            elif self.policy != "low":
                self.r.shuffle(p)
            self.permutations.append(p)
            return torch.tensor(p, dtype=torch.int64)
        if name == "multinomial":
            probs = args[0]
            n = args[1] if len(args) > 1 else kwargs["num_samples"]
            replacement = args[2] if len(args) > 2 else kwargs.get("replacement", False)
            if n > 1 and not replacement:
                return func(*args, **kwargs)
            self.note("multinomial")
            two = probs if probs.dim() == 2 else probs.unsqueeze(0)
            out = torch.stack([self.choose(row, n) for row in two])
            return out if probs.dim() == 2 else out[0]
        if name == "bernoulli":
            p = args[0]
            if isinstance(p, torch.Tensor) and p.is_floating_point() and len(args) == 1 and "p" not in kwargs:
                self.note("bernoulli")
                flat = p.reshape(-1)
                u = self.unit(flat.numel())
                if self.policy == "rare":
                    out = torch.where((flat > 0) & (flat < 1), (flat <= 0.5).float(), flat)
                else:
                    out = (u >= 1 - flat).float()
                return out.reshape(p.shape).to(p.dtype)
        if name == "rand_like" or name == "rand":
            size = tuple(args[0].shape) if name == "rand_like" else _size(args, kwargs)
            self.note("rand")
            n = 1
            for s in size:
                n *= s
            return self.unit(n).reshape(size)
        return func(*args, **kwargs)

    def choose(self, row: torch.Tensor, n: int) -> torch.Tensor:
        """n categories with positive probability."""
        p = row.double().tolist()
        total = sum(p)
        positive = [i for i, v in enumerate(p) if v > 1e-9 * total]     # what a generator of single precision can ever draw
        if self.policy == "low":
            return torch.tensor([positive[0]] * n)
        if self.policy == "high":
            return torch.tensor([positive[-1]] * n)
        if self.policy == "rare":
            return torch.tensor([min(positive, key=lambda i: p[i])] * n)
        if self.policy == "alternate":
            self.k += n
            return torch.tensor([positive[(self.k + i) % len(positive)] for i in range(n)])
        out = []
        for u in self.unit(n).tolist():
            acc, pick = 0.0, positive[-1]
            for i in positive:
                acc += p[i] / total
                if u < acc:
                    pick = i
                    break
            out.append(pick)
        return torch.tensor(out)
