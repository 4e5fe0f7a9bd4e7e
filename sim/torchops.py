"""Failing or interrupted computation: the n-th torch operation that allocates its result raises.

Works on the torch function protocol, so every operation is a possible crash point, whoever calls it. In place updates, views
and metadata are no crash points: they need no memory, and clean-up code consists of them.
"""
from __future__ import annotations

import torch
from torch.overrides import TorchFunctionMode

PASSIVE = {
    "__get__", "__set__", "__delete__", "size", "dim", "detach", "view", "reshape", "expand", "t", "transpose", "permute", "squeeze", "unsqueeze", "numel",
    "item", "tolist", "to", "cpu", "float", "double", "int", "long", "bool", "contiguous", "is_floating_point", "clone", "numpy", "type", "element_size",
    "__len__", "__iter__", "__setitem__", "__bool__", "__repr__", "__format__", "__hash__", "__array__", "__reduce_ex__", "__deepcopy__", "__setstate__",
    "backward", "storage", "untyped_storage", "data_ptr", "stride", "storage_offset", "is_contiguous", "new", "expand_as", "view_as", "__float__",
    "__int__", "__index__", "is_complex", "get_device", "is_same_size", "equal", "allclose", "is_tensor", "unbind", "split", "chunk", "diagonal", "diag_embed",
}


def allocates(func) -> bool:
    name = getattr(func, "__name__", "")
    if name in PASSIVE or not name or name.startswith("_") and not name.startswith("__"):
        return False
    return not (name.endswith("_") and not name.endswith("__"))


class Injected:
    """What kinds of trouble a computation can meet."""

    KINDS = ("kbi", "memory", "oom", "error")

    @staticmethod
    def make(kind: str) -> BaseException:
        if kind == "kbi":
            return KeyboardInterrupt("simulated interrupt")
        if kind == "memory":
            return MemoryError("simulated: out of memory")
        if kind == "oom":
            return RuntimeError("simulated: [enforce fail at alloc_cpu.cpp] DefaultCPUAllocator: can't allocate memory")
        return RuntimeError("simulated: hardware fault")


class Ops(TorchFunctionMode):
    """Counts allocating operations. Raises at the chosen one, once. ``hook`` is called at every operation."""

    def __init__(self, at: int | None = None, kind: str = "kbi", run=None, hook=None):
        super().__init__()
        self.n, self.at, self.kind, self.run, self.hook = 0, at, kind, run, hook
        self.error: BaseException | None = None
        self.where = ""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if allocates(func):
            i = self.n
            self.n += 1
            if self.hook is not None:
                self.hook(func)
            if i == self.at and self.error is None:
                self.where = func.__name__
                self.error = Injected.make(self.kind)
                if self.run is not None:
                    self.run.fault(f"op-{self.kind}")
                raise self.error
        return func(*args, **(kwargs or {}))


def count_ops(fn) -> int:
    """How many allocating operations the call does (result and errors are discarded)."""
    with Ops() as ops:
        try:
            fn()
        except Exception:  # noqa: BLE001
            pass
    return ops.n


def is_injected(e: BaseException | None, injected: BaseException) -> bool:
    """The injected error itself, or one that says so. An error raised instead of it would hide what happened."""
    return e is injected or (type(e) is type(injected) and str(e) == str(injected))


_ = torch
