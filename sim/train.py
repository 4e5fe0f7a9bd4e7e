"""Training under a script: which losses and gradients the trainer meets at which optimizer step, and what it had after every step.

The models are subclasses that override the public log_likelihood (or forward). The trainers are irtorch's own.
"""
from __future__ import annotations
import types

import torch

from irtorch import models as M

from . import zoo

LOSS_FAULTS = ("nan-loss", "inf-loss", "nan-value", "inf-value", "spike", "dip")     # "value": with finite gradients
GRAD_FAULTS = ("nan-grad", "inf-grad", "one-nan-grad", "huge-grad")


class Script:
    """What happens at which step. Steps are counted in optimizer steps that were completed."""

    def __init__(self, run, w, events=()):
        self.run, self.w = run, w
        self.events = {}
        for e in events:
            self.events.setdefault(e["step"], []).append(e)
        self.step = 0
        self.snapshots: list[dict] = []
        self.model = self.algorithm = None
        self.fired = 0
        self.seen = []                # what on_log_likelihood was asked, if recording
        self.watch = None             # called with (batch, outputs, mask, reduction, ll)
        self.offset = None            # function of the step: added to the loss

    def attach(self, model, algorithm):
        self.model, self.algorithm = model, algorithm
        model._script = self
        self.w.pre_step_hooks.append(self._before)
        self.w.step_hooks.append(self._after)

    def detach(self):
        self.model.__dict__.pop("_script", None)
        self.w.pre_step_hooks.remove(self._before)
        self.w.step_hooks.remove(self._after)

    # -- faults --------------------------------------------------------------------------------------------------------
    def on_log_likelihood(self, ll: torch.Tensor) -> torch.Tensor:
        if not torch.is_grad_enabled():
            return ll
        for e in self.events.get(self.step, ()):
            k = e["kind"]
            if k not in LOSS_FAULTS or e.get("fired"):
                continue
            e["fired"] = True
            self.fired += 1
            self.run.fault(k)
            size = e.get("size", 1.0) * 100.0 / (1 if ll.dim() == 0 else ll.numel() ** 0.5)
            if k == "nan-loss":
                ll = ll * float("nan")
            elif k == "inf-loss":
                ll = ll * float("inf")
            elif k == "nan-value":
                ll = ll + float("nan")
            elif k == "inf-value":
                ll = ll - float("inf")
            elif k == "spike":
                ll = ll - size
            else:
                ll = ll + size
        if self.offset is not None:
            ll = ll + self.offset(self.step)
        return ll

    def _before(self, optimizer):
        for e in self.events.get(self.step, ()):
            if e["kind"] not in GRAD_FAULTS or e.get("fired"):
                continue
            e["fired"] = True
            self.fired += 1
            self.run.fault(e["kind"])
            params = [p for g in optimizer.param_groups for p in g["params"] if p.grad is not None and p.grad.numel()]
            if e["kind"] == "one-nan-grad":
                p = params[int(e.get("size", 0.5) * 1000) % len(params)]
                p.grad.view(-1)[int(e.get("size", 0.5) * 7919) % p.grad.numel()] = float("nan")
            else:
                for p in params:
                    if e["kind"] == "huge-grad":
                        p.grad.mul_(1e30)
                    else:
                        p.grad.fill_(float("nan") if e["kind"] == "nan-grad" else float("inf"))

    def _after(self, optimizer):
        self.step += 1
        self.run.ev("step", self.step)
        own = {id(p) for p in self.model.parameters()}
        extra = [p for g in optimizer.param_groups for p in g["params"] if id(p) not in own]
        self.snapshots.append(self.picture(extra[0] if len(extra) == 1 else None))

    def picture(self, theta=None) -> dict:
        """The state of what is trained. For joint estimation, the latent scores are those in the hands of the optimizer."""
        out = {"model": zoo.param_snapshot(self.model)}
        a = self.algorithm
        if getattr(a, "encoder", None) is not None:
            out["encoder"] = zoo.param_snapshot(a.encoder)
        elif type(a).__name__ == "JML":
            out["theta"] = {"theta": (a.training_theta_scores if theta is None else theta).detach().clone()}
        return out


def finite(picture: dict) -> bool:
    return all(t.isfinite().all() for part in picture.values() for t in part.values() if t.is_floating_point())


class Scripted:
    def log_likelihood(self, *args, **kwargs):
        ll = super().log_likelihood(*args, **kwargs)
        script = self.__dict__.get("_script")
        if script is None:
            return ll
        if script.watch is not None:
            given = {**dict(zip(("data", "output", "missing_mask", "loss_reduction"), args)), **kwargs}
            script.watch(given["data"], given["output"], given.get("missing_mask"), given.get("loss_reduction", "sum"), ll)
        return script.on_log_likelihood(ll)


def _library():
    lib = types.SimpleNamespace()
    for name in ("OneParameterLogistic", "TwoParameterLogistic", "ThreeParameterLogistic", "GeneralizedPartialCredit", "GradedResponse", "NominalResponse",
                 "NestedLogit", "MonotoneNN", "MonotoneBSpline", "MonotonePolynomial", "SurprisalSpline", "ModelMix"):
        setattr(lib, name, type(f"Scripted{name}", (Scripted, getattr(M, name)), {"__module__": __name__}))
        globals()[f"Scripted{name}"] = getattr(lib, name)
    return lib


LIB = _library()


def make(name: str, latent: int, seed):
    return zoo.make_model(name, latent, seed, LIB)
