"""What must not change: everything a user can see of a model, an algorithm and the interpreter."""
from __future__ import annotations
import copy

import pandas as pd
import torch
from torch import nn

from . import zoo


def public(obj) -> dict:
    """Attributes a user can see. Private ones may serve as caches."""
    out = {k: _tensors(v) for k, v in vars(obj).items() if not k.startswith("_")}
    if isinstance(obj, nn.Module):
        out["state"] = _tensors(obj)
    return out


def _tensors(v, depth=0):
    """A copy of the values in an attribute, as far as they can be compared."""
    if isinstance(v, torch.Tensor):
        return ("tensor", v.detach().clone(), v.requires_grad)
    if isinstance(v, nn.Module):
        return ("module", type(v).__name__, {k: t.detach().clone() for k, t in v.state_dict().items()}, [p.requires_grad for p in v.parameters()], v.training)
    if isinstance(v, (int, float, str, bool, type(None), torch.device, torch.dtype)):
        return ("value", v)
    if isinstance(v, (list, tuple)) and depth < 4:
        return (type(v).__name__, [_tensors(x, depth + 1) for x in v])
    if isinstance(v, dict) and depth < 4:
        return ("dict", {k: _tensors(x, depth + 1) for k, x in v.items()})
    if isinstance(v, pd.DataFrame):
        return ("frame", v.copy())
    if hasattr(v, "__dict__") and depth < 2 and type(v).__module__.startswith("irtorch"):
        return ("object", type(v).__name__, {k: _tensors(x, depth + 1) for k, x in vars(v).items() if not k.startswith("_")})
    return ("other", type(v).__name__)


def same(a, b) -> bool:
    if type(a) is not type(b):
        return False
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and zoo.same_tensor(a, b, exact=True)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, pd.DataFrame):
        return a.equals(b)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


class Picture:
    """The model and the interpreter at a point in time."""

    def __init__(self, model):
        self.model = model
        self.state = zoo.param_snapshot(model)
        self.grads = {k: p.requires_grad for k, p in model.named_parameters()}
        self.training = model.training
        self.algorithm = model.algorithm
        self.alg = None if model.algorithm is None else public(model.algorithm)
        self.scales = list(model.scale)
        self.scale = [self._scale(s) for s in model.scale]
        self.config = {k: copy.copy(v) for k, v in vars(model).items() if isinstance(v, (int, float, str, bool, list, tuple)) and not k.startswith("_") and k != "scale"}
        self.hooks = self._hooks()
        self.globals = self._globals()

    @staticmethod
    def _scale(s):
        return {k: v for k, v in public(s).items() if k not in ("model", "model_from", "model_to")}

    def _hooks(self):
        return sum(len(m._forward_hooks) + len(m._forward_pre_hooks) + len(m._backward_hooks) for m in self.model.modules())

    @staticmethod
    def _globals():
        return {"grad mode": torch.is_grad_enabled(), "default dtype": torch.get_default_dtype(), "threads": torch.get_num_threads(), "inference": torch.is_inference_mode_enabled()}

    def changed(self) -> tuple[str, str] | None:
        """(class, what) of the first change, None if there is none."""
        m = self.model
        bad = zoo.same_state(self.state, zoo.param_snapshot(m))
        if bad is not None:
            return "parameters-changed", f"{bad} changed"
        now = {k: p.requires_grad for k, p in m.named_parameters()}
        if now != self.grads:
            return "trainability-changed", f"requires_grad of {[k for k in self.grads if now.get(k) != self.grads[k]]} changed"
        if m.training != self.training:
            return "mode-changed", f"training mode changed to {m.training}"
        if m.algorithm is not self.algorithm:
            return "algorithm-changed", "the model got another algorithm"
        if self.alg is not None:
            after = public(m.algorithm)
            for k in self.alg:
                if k not in after or not same(self.alg[k], after[k]):
                    return "algorithm-changed", f"{k} of the algorithm changed"
        if len(m.scale) != len(self.scales) or any(a is not b for a, b in zip(m.scale, self.scales)):
            return "scales-changed", "the list of scale transformations changed"
        for i, s in enumerate(m.scale):
            after = self._scale(s)
            for k in self.scale[i]:
                if k not in after or not same(self.scale[i][k], after[k]):
                    return "scales-changed", f"{k} of scale transformation {i} ({type(s).__name__}) changed"
        for k, v in self.config.items():
            if getattr(m, k, None) != v:
                return "model-changed", f"{k} changed from {v} to {getattr(m, k, None)}"
        if self._hooks() != self.hooks:
            return "model-changed", "hooks were left in the model"
        now = self._globals()
        if now != self.globals:
            return "interpreter-changed", f"{[k for k in now if now[k] != self.globals[k]]} changed"
        return None
